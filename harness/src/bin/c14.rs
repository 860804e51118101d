// C14: a query over the supergraph is answered as if one service held all the data. The subgraphs here execute what
// they are sent, each with the fields it owns only; @requires fields are computed from the representation that came.
use graphql_tools::parser::query::*;
use serde_json::{json, Map, Value as J};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex};
use vh::e2e::*;
use vh::*;

type G = char;
type Doc = Document<'static, String>;
type Sel = SelectionSet<'static, String>;
#[derive(Clone, Debug, Default)]
struct Field { named: String, sdl: String, owners: BTreeSet<G>, external: BTreeSet<G>, requires: Option<(G, String)>, provides: Vec<(G, String)>, arg: bool, object: bool }
#[derive(Clone, Debug, Default)]
struct Ty { keys: BTreeMap<G, (Vec<String>, bool)>, fields: BTreeMap<String, Field> }
#[derive(Clone, Debug, Default)]
struct World { types: BTreeMap<String, Ty>, members: BTreeMap<String, BTreeMap<G, BTreeSet<String>>>, data: BTreeMap<(String, String), BTreeMap<String, J>>, odd: BTreeSet<(G, String)> }
const GRAPHS: [G; 3] = ['a', 'b', 'c'];
const SCALARS: [(&str, &str); 7] = [("a", "Int"), ("b", "String"), ("h", "Float"), ("k", "Boolean"), ("name", "String"), ("y", "Int"), ("zed", "String")];
fn up(g: G) -> char { g.to_ascii_uppercase() }

impl World {
    fn possible(&self, t: &str) -> BTreeSet<String> { match self.members.get(t) { Some(m) => m.values().flatten().cloned().collect(), None => [t.to_string()].into() } }
    fn knows(&self, g: G, t: &str) -> bool { t == "Query" || t == "Mutation" || self.types.get(t).is_some_and(|x| x.keys.contains_key(&g)) || self.members.get(t).is_some_and(|m| m.contains_key(&g)) }
    fn sdl(&self) -> String {
        let mut s = String::new();
        for (n, m) in &self.members {
            if n.starts_with('I') {
                s += &format!("interface {n} {} {{ name: String }}\n", m.keys().map(|g| format!("@join__type(graph: {})", up(*g))).collect::<Vec<_>>().join(" "));
            } else {
                let all = self.possible(n);
                s += &format!("union {n} {} {} = {}\n", m.keys().map(|g| format!("@join__type(graph: {})", up(*g))).collect::<Vec<_>>().join(" "),
                    m.iter().flat_map(|(g, ms)| ms.iter().map(move |t| format!("@join__unionMember(graph: {}, member: \"{t}\")", up(*g)))).collect::<Vec<_>>().join(" "), all.into_iter().collect::<Vec<_>>().join(" | "));
            }
        }
        for (n, t) in &self.types {
            let mut imp = BTreeSet::new();
            let mut head = String::new();
            for (i, m) in &self.members { if i.starts_with('I') { for (g, ms) in m { if ms.contains(n) { imp.insert(i.clone()); head += &format!(" @join__implements(graph: {}, interface: \"{i}\")", up(*g)); } } } }
            for (g, (keys, res)) in &t.keys {
                if keys.is_empty() { head += &format!(" @join__type(graph: {})", up(*g)); }
                for k in keys { head += &format!(" @join__type(graph: {}, key: \"{k}\"{})", up(*g), if *res { "" } else { ", resolvable: false" }); }
            }
            s += &format!("type {n}{}{head} {{\n", if imp.is_empty() { String::new() } else { format!(" implements {}", imp.into_iter().collect::<Vec<_>>().join(" & ")) });
            for (f, d) in &t.fields {
                s += &format!("  {f}{}: {}", if d.arg { "(n: Int)" } else { "" }, d.sdl);
                for g in &d.owners {
                    let mut x = String::new();
                    if let Some((h, r)) = &d.requires { if h == g { x += &format!(", requires: \"{r}\""); } }
                    for (h, p) in &d.provides { if h == g { x += &format!(", provides: \"{p}\""); } }
                    if self.odd.contains(&(*g, format!("{n}.{f}"))) { x += &format!(", type: \"{}!\"", d.sdl); }
                    s += &format!(" @join__field(graph: {}{x})", up(*g));
                }
                for g in &d.external { s += &format!(" @join__field(graph: {}, external: true)", up(*g)); }
                s += "\n";
            }
            s += "}\n";
        }
        s
    }
}
// ---- execution, of a subgraph (Some(g)) or of the whole (None)
struct Ctx<'a> { w: &'a World, g: Option<G>, frags: BTreeMap<String, FragmentDefinition<'static, String>>, vars: J, bad: &'a Mutex<Vec<String>>, tick: &'a Mutex<i64> }
#[derive(Clone)]
struct At<'a> { ty: &'a str, id: &'a str, rep: Option<&'a J>, provided: Vec<String> }
fn val(v: &Value<'static, String>, vars: &J) -> J {
    match v {
        Value::Variable(n) => vars.get(n.as_str()).cloned().unwrap_or(J::Null),
        Value::Int(i) => json!(i.as_i64()), Value::Float(f) => json!(f), Value::String(s) => json!(s), Value::Boolean(b) => json!(b), Value::Null => J::Null, Value::Enum(s) => json!(s),
        Value::List(l) => J::Array(l.iter().map(|x| val(x, vars)).collect()),
        Value::Object(o) => J::Object(o.iter().map(|(k, v)| (k.to_string(), val(v, vars))).collect()),
    }
}
fn canon(v: &J) -> String { match v { J::Object(o) => { let b: BTreeMap<_, _> = o.iter().filter(|x| x.0 != "__typename").collect(); format!("{{{}}}", b.iter().map(|(k, v)| format!("{k}:{}", canon(v))).collect::<Vec<_>>().join(",")) } J::Array(a) => format!("[{}]", a.iter().map(canon).collect::<Vec<_>>().join(",")), J::Number(n) => format!("{}", n.as_f64().unwrap()), x => x.to_string() } }
fn fieldset(s: &str) -> Sel { match parse_query::<String>(&format!("{{ {s} }}")).unwrap().into_static().definitions.remove(0) { Definition::Operation(OperationDefinition::SelectionSet(s)) => s, _ => unreachable!() } }
// what of `v` the field set asks for: None when something is missing
fn pick(v: &J, s: &Sel) -> Option<J> {
    match v {
        J::Array(a) => a.iter().map(|x| pick(x, s)).collect::<Option<Vec<_>>>().map(J::Array),
        J::Object(o) if !s.items.is_empty() => {
            let mut m = Map::new();
            for i in &s.items { if let Selection::Field(f) = i { m.insert(f.name.clone(), pick(o.get(f.name.as_str())?, &f.selection_set)?); } }
            Some(J::Object(m))
        }
        x => Some(x.clone()),
    }
}
fn merge(a: &mut J, b: J) { match (a, b) { (J::Object(a), J::Object(b)) => for (k, v) in b { match a.get_mut(&k) { Some(o) => merge(o, v), None => { a.insert(k, v); } } }, (J::Array(a), J::Array(b)) => for (x, y) in a.iter_mut().zip(b) { merge(x, y) }, _ => {} } }
impl Ctx<'_> {
    fn bad(&self, s: String) { self.bad.lock().unwrap().push(s); }
    fn on(&self, d: &[Directive<'static, String>]) -> bool {
        d.iter().all(|d| { let c = d.arguments.iter().find(|a| a.0 == "if").map(|a| val(&a.1, &self.vars)); match (d.name.as_str(), c) { ("skip", Some(v)) => v != json!(true), ("include", Some(v)) => v == json!(true), _ => true } })
    }
    fn cond(&self, t: &str, c: &TypeCondition<'static, String>) -> bool {
        let TypeCondition::On(n) = c;
        if let Some(g) = self.g { if !self.w.knows(g, n) { self.bad(format!("{g} is asked about type {n} it does not know")); } }
        n == t || self.w.members.get(n).is_some_and(|m| match self.g { Some(g) => m.get(&g).is_some_and(|s| s.contains(t)), None => m.values().any(|s| s.contains(t)) })
    }
    fn set(&self, at: &At, s: &Sel, out: &mut Map<String, J>) {
        for i in &s.items {
            match i {
                Selection::Field(f) if self.on(&f.directives) => {
                    let key = f.alias.clone().unwrap_or(f.name.clone());
                    let v = self.field(at, f);
                    match out.get_mut(&key) { Some(o) => merge(o, v), None => { out.insert(key, v); } }
                }
                Selection::InlineFragment(i) if self.on(&i.directives) => if i.type_condition.as_ref().is_none_or(|c| self.cond(at.ty, c)) { self.set(at, &i.selection_set, out) },
                Selection::FragmentSpread(f) if self.on(&f.directives) => match self.frags.get(&f.fragment_name) { Some(d) => if self.cond(at.ty, &d.type_condition) { self.set(at, &d.selection_set, out) }, None => self.bad(format!("unknown fragment {}", f.fragment_name)) },
                _ => {}
            }
        }
    }
    fn own(&self, at: &At, d: &Field, f: &str) {
        if let Some(g) = self.g { if !(d.owners.contains(&g) || d.external.contains(&g) && at.provided.iter().any(|p| p == f)) { self.bad(format!("{g} is asked for {}.{f}", at.ty)); } }
    }
    fn field(&self, at: &At, f: &graphql_tools::parser::query::Field<'static, String>) -> J {
        if f.name == "__typename" { return json!(at.ty); }
        if f.name == "_entities" && at.ty == "Query" {
            let g = self.g.unwrap();
            let reps = f.arguments.iter().find(|a| a.0 == "representations").map(|a| val(&a.1, &self.vars)).unwrap_or(J::Null);
            let reps = reps.as_array().cloned().unwrap_or_default();
            for (i, r) in reps.iter().enumerate() { if reps[..i].contains(r) { self.bad(format!("{g} gets {r} twice")); } }
            return J::Array(reps.iter().map(|r| {
                let t = r["__typename"].as_str().unwrap_or("").to_string();
                let Some(ty) = self.w.types.get(&t) else { self.bad(format!("{g} gets a representation of `{t}`: {r}")); return J::Null };
                let Some((keys, true)) = ty.keys.get(&g) else { self.bad(format!("{g} cannot resolve {t}")); return J::Null };
                let Some(key) = keys.iter().find(|k| r.get(k.as_str()).is_some_and(|v| !v.is_null())) else { self.bad(format!("{g} gets a representation of {t} without a key: {r}")); return J::Null };
                match self.w.data.iter().find(|((x, _), o)| *x == t && o[key.as_str()] == r[key.as_str()]) {
                    Some(((_, id), _)) => { let mut m = Map::new(); self.set(&At { ty: &t, id, rep: Some(r), provided: vec![] }, &f.selection_set, &mut m); J::Object(m) }
                    None => { self.bad(format!("{g} gets a representation of nothing: {r}")); J::Null }
                }
            }).collect());
        }
        let Some(d) = self.w.types[at.ty].fields.get(&f.name) else { self.bad(format!("{:?} is asked for {}.{}", self.g, at.ty, f.name)); return J::Null };
        self.own(at, d, &f.name);
        if at.ty == "Mutation" { let mut t = self.tick.lock().unwrap(); *t += 1; return json!(*t); }
        if let Some((_, r)) = &d.requires {
            let s = fieldset(r);
            let from = match self.g {
                Some(g) => { let Some(rep) = at.rep else { self.bad(format!("{g} is asked for {}.{} without a representation", at.ty, f.name)); return J::Null }; pick(rep, &s) }
                None => { let mut m = Map::new(); self.set(&At { rep: None, provided: vec![], ..*at }, &s, &mut m); Some(J::Object(m)) }
            };
            return match from { Some(x) => json!(format!("R{}", canon(&x))), None => { self.bad(format!("{:?} gets a representation without {r}: {}", self.g, at.rep.unwrap())); J::Null } };
        }
        let v = &self.w.data[&(at.ty.to_string(), at.id.to_string())][&f.name];
        if d.arg { let n = f.arguments.iter().find(|a| a.0 == "n").map(|a| val(&a.1, &self.vars)).unwrap_or(J::Null); return match (v.as_i64(), n.as_i64()) { (Some(b), Some(n)) => json!(b + 100 * n), _ => v.clone() }; }
        if d.object {
            let p: Vec<String> = d.provides.iter().filter(|p| Some(p.0) == self.g).map(|p| p.1.clone()).collect();
            return self.shape(v, &p, &f.selection_set);
        }
        v.clone()
    }
    fn shape(&self, v: &J, p: &[String], s: &Sel) -> J {
        match v {
            J::Array(a) => J::Array(a.iter().map(|x| self.shape(x, p, s)).collect()),
            J::Object(o) => { let mut m = Map::new(); self.set(&At { ty: o["t"].as_str().unwrap(), id: o["i"].as_str().unwrap(), rep: None, provided: p.to_vec() }, s, &mut m); J::Object(m) }
            x => x.clone(),
        }
    }
}
fn run_doc(w: &World, g: Option<G>, body: &J, bad: &Mutex<Vec<String>>, tick: &Mutex<i64>) -> J {
    let Ok(doc) = parse_query::<String>(body["query"].as_str().unwrap_or("")) else { bad.lock().unwrap().push(format!("{g:?} gets an operation that does not parse: {body}")); return J::Null };
    let doc: Doc = doc.into_static();
    let (mut frags, mut op) = (BTreeMap::new(), None);
    for d in doc.definitions { match d { Definition::Fragment(f) => { frags.insert(f.name.clone(), f); } Definition::Operation(o) => op = Some(o) } }
    let (s, defs, root) = match op.unwrap() { OperationDefinition::Query(q) => (q.selection_set, q.variable_definitions, "Query"), OperationDefinition::Mutation(m) => (m.selection_set, m.variable_definitions, "Mutation"), OperationDefinition::Subscription(s) => (s.selection_set, s.variable_definitions, "Query"), OperationDefinition::SelectionSet(s) => (s, vec![], "Query") };
    let mut vars = body["variables"].clone();
    if vars.is_null() { vars = json!({}); }
    for d in &defs { if vars.get(&d.name).is_none() { if let Some(x) = &d.default_value { vars[d.name.as_str()] = val(x, &json!({})); } } }
    if let (Some(g), Some(o)) = (g, vars.as_object()) { for k in o.keys() { if !defs.iter().any(|d| d.name == *k) { bad.lock().unwrap().push(format!("{g} gets a variable {k} its operation does not have")); } } }
    let c = Ctx { w, g, frags, vars, bad, tick };
    let mut m = Map::new();
    c.set(&At { ty: root, id: "", rep: None, provided: vec![] }, &s, &mut m);
    J::Object(m)
}
// ---- random worlds
fn scalar(r: &mut Rng, t: &str) -> J {
    if r.chance(1, 6) { return J::Null; }
    match t { "Int" => json!(r.below(3)), "Float" => [json!(0.5), json!(2), json!(-1e30)][r.below(3)].clone(), "Boolean" => json!(r.bool()), _ => json!(r.pick(&["", "x", "y\"\\\n", "ü€😀", "1"])) }
}
fn wrap(t: &str, depth: usize) -> String { (0..depth).fold(t.to_string(), |s, _| format!("[{s}]")) }
fn refs(r: &mut Rng, targets: &[(String, String)], depth: usize) -> J {
    if targets.is_empty() || r.chance(1, 7) { return J::Null; }
    if depth == 0 { let (t, i) = r.pick(targets); return json!({"t": t, "i": i}); }
    J::Array((0..r.below(4)).map(|_| refs(r, targets, depth - 1)).collect())
}
fn world(r: &mut Rng) -> World {
    let mut w = World::default();
    let names = ["Ta", "Tb", "Tc"];
    let idt: BTreeMap<&str, &str> = names.iter().map(|n| (*n, *r.pick(&["ID!", "Int!", "String!"]))).collect();
    for n in names {
        let mut t = Ty::default();
        let hub = *r.pick(&GRAPHS);
        let sku = r.chance(1, 3);
        for g in GRAPHS {
            if g == hub { t.keys.insert(g, (if sku { vec!["id".into(), "sku".into()] } else { vec!["id".into()] }, true)); }
            else if r.chance(3, 4) { t.keys.insert(g, if sku && r.bool() { (vec!["sku".into()], true) } else { (vec!["id".into()], !r.chance(1, 5)) }); }
        }
        let full: Vec<G> = t.keys.iter().filter(|k| k.1 .1).map(|k| *k.0).collect();
        for k in ["id", "sku"] { let o: BTreeSet<G> = t.keys.iter().filter(|x| x.1 .0.iter().any(|y| y == k)).map(|x| *x.0).collect(); if !o.is_empty() { t.fields.insert(k.into(), Field { sdl: if k == "id" { idt[n].into() } else { "String!".into() }, owners: o, ..Default::default() }); } }
        for (f, ty) in SCALARS { if r.chance(3, 4) || f == "name" {
            let mut owners: BTreeSet<G> = [*r.pick(&full)].into();
            if r.chance(1, 4) { owners.insert(*r.pick(&full)); }
            t.fields.insert(f.into(), Field { sdl: ty.into(), owners, ..Default::default() });
        } }
        if r.bool() { t.fields.insert("calc".into(), Field { sdl: "Int".into(), owners: [*r.pick(&full)].into(), arg: true, ..Default::default() }); }
        w.types.insert(n.into(), t);
    }
    let full = |w: &World, n: &str, g: G| w.types[n].keys.get(&g).is_some_and(|k| k.1);
    for n in ["If", "Un"] {
        let mut m: BTreeMap<G, BTreeSet<String>> = BTreeMap::new();
        for g in GRAPHS { if r.chance(2, 3) {
            let ms: BTreeSet<String> = names.iter().filter(|t| full(&w, t, g) && r.chance(3, 4)).map(|t| t.to_string()).collect();
            if !ms.is_empty() { if n == "If" { for t in &ms { w.types.get_mut(t).unwrap().fields.get_mut("name").unwrap().owners.insert(g); } } m.insert(g, ms); }
        } }
        if !m.is_empty() { w.members.insert(n.into(), m); }
    }
    for n in names { for i in 1..=3 {
        let mut o = BTreeMap::new();
        o.insert("id".to_string(), if idt[n] == "Int!" { json!(i) } else { json!(i.to_string()) });
        o.insert("sku".to_string(), json!(format!("s{i}")));
        for (f, t) in SCALARS { o.insert(f.into(), scalar(r, t)); }
        o.insert("calc".into(), json!(r.below(5)));
        w.data.insert((n.into(), i.to_string()), o);
    } }
    // fields that are never null in one of their subgraphs: same-named fields of the members of a union then differ in type
    for n in names { for (f, t) in SCALARS { if let Some(g) = w.types[n].fields.get(f).and_then(|d| d.owners.iter().next().copied()) { if r.chance(1, 3) {
        w.odd.insert((g, format!("{n}.{f}")));
        for i in 1..=3 { let o = w.data.get_mut(&(n.to_string(), i.to_string())).unwrap(); while o[f].is_null() { o.insert(f.into(), scalar(r, t)); } }
    } } } }
    // fields that point to objects, of Query and of the types
    let mut serial = 0;
    let mut q = Ty::default();
    for g in GRAPHS { q.keys.insert(g, (vec![], true)); }
    w.types.insert("Query".into(), q);
    w.data.insert(("Query".into(), String::new()), BTreeMap::new());
    for n in ["Query", "Query", "Query", "Query", "Ta", "Ta", "Tb", "Tb", "Tc", "Tc"] {
        let owners: Vec<G> = GRAPHS.iter().copied().filter(|g| full(&w, n, *g)).collect();
        let mut owner: BTreeSet<G> = [*r.pick(&owners)].into();
        if r.chance(1, 5) { owner.insert(*r.pick(&owners)); }
        let targets: Vec<String> = names.iter().map(|x| x.to_string()).chain(w.members.keys().cloned()).filter(|t| owner.iter().all(|g| w.knows(*g, t))).collect();
        if targets.is_empty() { continue; }
        let to = r.pick(&targets).clone();
        let depth = r.below(3);
        let objs: Vec<(String, String)> = w.data.keys().filter(|k| match w.members.get(&to) { Some(m) => owner.iter().all(|g| m[g].contains(&k.0)), None => k.0 == to }).cloned().collect();
        if objs.is_empty() { continue; }
        let f = format!("{}{serial}", r.pick(&["r", "g", "l"]));
        serial += 1;
        let ids: Vec<String> = w.data.keys().filter(|k| k.0 == n).map(|k| k.1.clone()).collect();
        for i in ids { let v = refs(r, &objs, depth); w.data.get_mut(&(n.to_string(), i)).unwrap().insert(f.clone(), v); }
        let mut provides = vec![];
        if w.types.contains_key(&to) && r.chance(1, 4) {
            let g = *owner.iter().next().unwrap();
            let can: Vec<String> = w.types[&to].fields.iter().filter(|x| !x.1.owners.contains(&g) && !x.1.arg && !x.1.object && x.1.requires.is_none() && x.0 != "id" && x.0 != "sku").map(|x| x.0.clone()).collect();
            if !can.is_empty() && owner.len() == 1 { let x = r.pick(&can).clone(); w.types.get_mut(&to).unwrap().fields.get_mut(&x).unwrap().external.insert(g); provides.push((g, x)); }
        }
        w.types.get_mut(n).unwrap().fields.insert(f, Field { named: to.clone(), sdl: wrap(&to, depth), owners: owner, provides, object: true, ..Default::default() });
    }
    // fields computed from others
    for n in names { for k in 0..2 {
        let can: Vec<G> = GRAPHS.iter().copied().filter(|g| full(&w, n, *g)).collect();
        let g = *r.pick(&can);
        let fs: Vec<(String, Field)> = w.types[n].fields.iter().filter(|x| !x.1.owners.contains(&g) && !x.1.arg && x.1.requires.is_none() && x.0 != "id" && x.0 != "sku").map(|x| (x.0.clone(), x.1.clone())).collect();
        let mut parts = vec![];
        for (f, d) in &fs {
            if !r.chance(1, 2) { continue; }
            if !d.object { w.types.get_mut(n).unwrap().fields.get_mut(f).unwrap().external.insert(g); parts.push(f.clone()); continue; }
            if !w.types.contains_key(&d.named) || !w.knows(g, &d.named) { continue; }
            let inner: Vec<String> = w.types[&d.named].fields.iter().filter(|x| !x.1.arg && !x.1.object && x.1.requires.is_none() && x.0 != "id" && x.0 != "sku").map(|x| x.0.clone()).collect();
            if inner.is_empty() { continue; }
            let x = r.pick(&inner).clone();
            w.types.get_mut(n).unwrap().fields.get_mut(f).unwrap().external.insert(g);
            let y = w.types.get_mut(&d.named).unwrap().fields.get_mut(&x).unwrap();
            if !y.owners.contains(&g) { y.external.insert(g); }
            parts.push(format!("{f} {{ {x} }}"));
        }
        if !parts.is_empty() { w.types.get_mut(n).unwrap().fields.insert(format!("q{k}"), Field { sdl: "String".into(), owners: [g].into(), requires: Some((g, parts.join(" "))), ..Default::default() }); }
    } }
    let mut m = Ty::default();
    for g in GRAPHS { m.keys.insert(g, (vec![], true)); }
    for k in 0..5 { m.fields.insert(format!("m{k}"), Field { sdl: "Int".into(), owners: [*r.pick(&GRAPHS)].into(), ..Default::default() }); }
    w.types.insert("Mutation".into(), m);
    w
}
// ---- random operations: one response key always means the same field and arguments
struct Gen { frags: Vec<String>, vars: BTreeMap<String, (String, J)> }
fn sel(r: &mut Rng, w: &World, t: &str, depth: usize, q: &mut Gen, abs: bool) -> String {
    let mut out: Vec<String> = vec![];
    let dir = |r: &mut Rng, q: &mut Gen| if r.chance(1, 8) { let d = *r.pick(&["skip", "include"]); if r.chance(1, 4) { format!(" @{d}(if: {})", r.bool()) } else { let v = format!("v{}", r.below(2)); let b = r.bool(); q.vars.entry(v.clone()).or_insert(("Boolean!".into(), json!(b))); format!(" @{d}(if: ${v})") } } else { String::new() };
    if w.members.contains_key(t) {
        if r.chance(1, 3) { out.push("__typename".into()); }
        if t.starts_with('I') && r.bool() { out.push("name".into()); }
        for m in w.possible(t) { if r.chance(3, 4) { let s = sel(r, w, &m, depth, q, true); out.push(format!("... on {m}{} {{ {s} }}", dir(r, q))); } }
    } else {
        for (f, d) in &w.types[t].fields {
            if d.object { if depth > 0 && r.chance(1, 2) {
                let s = sel(r, w, &d.named, depth - 1, q, false);
                out.push(format!("{f}{} {{ {s} }}", dir(r, q)));
                if r.chance(1, 10) { let s = sel(r, w, &d.named, depth - 1, q, false); out.push(format!("{f} {{ {s} }}")); }
            } continue; }
            let computed = d.requires.is_some();
            if !r.chance(if computed { 3 } else { 1 }, if computed { 5 } else { 3 }) { continue; }
            let x = dir(r, q);
            if d.arg { let n = r.below(3); if r.bool() { out.push(format!("calc_{n}: calc(n: {n}){x}")); } else { q.vars.insert(format!("n{n}"), ("Int".into(), json!(n))); out.push(format!("calcv_{n}: calc(n: $n{n}){x}")); } if r.bool() { out.push("calc".into()); } continue; }
            if abs && (f == "id" || computed) { out.push(format!("{f}_{t}: {f}{x}")); } else if r.chance(1, 4) { out.push(format!("z_{f}: {f}{x}")); } else { out.push(format!("{f}{x}")); }
        }
        if r.chance(1, 4) { out.push("__typename".into()); }
    }
    if out.is_empty() { out.push("__typename".into()); }
    for i in (1..out.len()).rev() { let j = r.below(i + 1); out.swap(i, j); }
    let s = out.join(" ");
    if r.chance(1, 8) { let n = format!("F{}", q.frags.len()); q.frags.push(format!("fragment {n} on {t} {{ {s} }}")); return format!("...{n}"); }
    if r.chance(1, 10) { return format!("... on {t} {{ {s} }}"); }
    s
}
fn operation(r: &mut Rng, w: &World) -> J {
    let mut q = Gen { frags: vec![], vars: BTreeMap::new() };
    let s = sel(r, w, "Query", 4, &mut q, false);
    let vars: Map<String, J> = q.vars.iter().map(|(k, v)| (k.clone(), v.1.clone())).collect();
    let head = if q.vars.is_empty() { "query Q".to_string() } else { format!("query Q({})", q.vars.iter().map(|(k, v)| format!("${k}: {}", v.0)).collect::<Vec<_>>().join(", ")) };
    json!({"query": format!("{head} {{ {s} }} {}", q.frags.join(" ")), "variables": vars})
}
/// What the planner says of the operation.
fn plan(sdl: &str, body: &J) -> String { std::panic::catch_unwind(|| plan_(sdl, body)).unwrap_or("panic".into()) }
fn plan_(sdl: &str, body: &J) -> String {
    use hive_router::query_planner::{ast::normalization::normalize_operation, graph::PlannerOverrideContext, planner::Planner, utils::{cancellation::CancellationToken, parsing::{parse_operation, parse_schema}}};
    let planner = match Planner::new_from_supergraph(&parse_schema(sdl), Default::default()) { Ok(p) => p, Err(e) => return e.to_string() };
    let doc = parse_operation(body["query"].as_str().unwrap());
    let n = normalize_operation(&planner.supergraph, &doc, None).unwrap();
    match planner.plan_from_normalized_operation(n.executable_operation(), PlannerOverrideContext::default(), &CancellationToken::new()) { Ok(p) => p.to_string(), Err(e) => format!("{e} {e:?}") }
}
#[derive(PartialEq)]
enum Outcome { Fine, Unplanned, Bad(String, String, bool) }
/// One operation, and what is wrong with it; true: only that representations lack what @requires asks for.
fn ask(w: &World, s: &str, rt: &Router, subs: &Subgraphs, bad: &Mutex<Vec<String>>, tick: &Mutex<i64>, body: &J) -> (Vec<Req>, Outcome) {
    bad.lock().unwrap().clear();
    *tick.lock().unwrap() = 0;
    let want = run_doc(w, None, body, &Mutex::new(vec![]), &Mutex::new(0));
    subs.take_log();
    let resp = rt.post(body, &[]);
    let log = subs.take_log();
    let no = |a: &str, b: String| Outcome::Bad(a.into(), b, false);
    let out = (|| {
        if resp.status == 0 { if plan(s, body) == "panic" { return Outcome::Unplanned; } return no("an answer", format!("connection closed; {}", rt.log().lines().filter(|l| !l.contains(" INFO ")).collect::<Vec<_>>().join(" / ").split("panicked").nth(1).unwrap_or("no panic").chars().take(600).collect::<String>())); }
        let b = bad.lock().unwrap();
        if !b.is_empty() { return Outcome::Bad("subgraphs are asked for what they have".into(), b.join("; "), b.iter().all(|x| x.contains("gets a representation without") || x.contains("gets a representation of ``"))); }
        let j = resp.json();
        if j["errors"][0]["extensions"]["code"] == "QUERY_PLAN_BUILD_FAILED" { return Outcome::Unplanned; }
        if j.get("errors").is_some_and(|e| e.as_array().is_none_or(|a| !a.is_empty())) { return no("no errors", resp.text()); }
        if want.to_string() != j["data"].to_string() { return no(&want.to_string(), j["data"].to_string()); }
        Outcome::Fine
    })();
    (log, out)
}
/// The operation with its conditions decided.
fn settled(body: &J) -> J {
    let mut doc: Doc = parse_query::<String>(body["query"].as_str().unwrap()).unwrap().into_static();
    fn on(d: &mut Vec<Directive<'static, String>>, vars: &J) -> bool {
        let yes = d.iter().all(|d| { let c = d.arguments.iter().find(|a| a.0 == "if").map(|a| val(&a.1, vars)); match (d.name.as_str(), c) { ("skip", Some(v)) => v != json!(true), ("include", Some(v)) => v == json!(true), _ => true } });
        d.clear();
        yes
    }
    fn set(s: &mut Sel, vars: &J) {
        let some = !s.items.is_empty();
        s.items.retain_mut(|i| match i {
            Selection::Field(f) => { set(&mut f.selection_set, vars); on(&mut f.directives, vars) }
            Selection::InlineFragment(f) => { set(&mut f.selection_set, vars); on(&mut f.directives, vars) }
            Selection::FragmentSpread(f) => on(&mut f.directives, vars),
        });
        if some && s.items.is_empty() { s.items = fieldset("__typename").items; }
    }
    for d in &mut doc.definitions { match d { Definition::Fragment(f) => set(&mut f.selection_set, &body["variables"]), Definition::Operation(OperationDefinition::Query(q)) => { set(&mut q.selection_set, &body["variables"]); q.variable_definitions.retain(|v| !v.name.starts_with('v')); } _ => {} } }
    // fragments nothing spreads any more
    loop {
        let text = doc.to_string();
        let n = doc.definitions.len();
        doc.definitions.retain(|d| match d { Definition::Fragment(f) => text.split("...").skip(1).any(|t| t.split(|c: char| !c.is_alphanumeric()).next() == Some(f.name.as_str())), _ => true });
        if doc.definitions.len() == n { break; }
    }
    let text = doc.to_string();
    if let Some(Definition::Operation(OperationDefinition::Query(q))) = doc.definitions.iter_mut().find(|d| matches!(d, Definition::Operation(_))) { q.variable_definitions.retain(|v| text.matches(&format!("${}", v.name)).count() > 1); }
    let vars: Map<String, J> = body["variables"].as_object().unwrap().iter().filter(|v| text.matches(&format!("${}", v.0)).count() > 1).map(|(k, v)| (k.clone(), v.clone())).collect();
    json!({"query": doc.to_string(), "variables": vars})
}
fn main() {
    let mut run = Run::from_args("nontrivial: at least one entity is fetched from another subgraph than the one it came from; random supergraphs of three subgraphs and three entity types (one or two keys, stubs, shared fields, @provides, @requires with nested field sets, an interface and a union with different members per subgraph), random data with nulls and nested lists, random operations with aliases, arguments, variables, fragments, @skip and @include; mutations across subgraphs");
    let subs = Subgraphs::start(|_| Resp::json_of(json!({"data": {}})));
    let mut r = run.rng(14);
    let (mut unplanned, mut early) = (0, 0);
    for _ in 0..run.n(40) {
        if !run.time_left() { break; }
        let w = Arc::new(world(&mut r));
        let s = sdl(&["a", "b", "c"], &w.sdl());
        let rt = match Router::start("", &s, Some(&subs)) { Ok(x) => x, Err(e) => { run.case("start", &|| s.clone(), true, || Err(("the router starts".into(), e.clone()))); continue; } };
        let bad: Arc<Mutex<Vec<String>>> = Default::default();
        let tick: Arc<Mutex<i64>> = Default::default();
        let (w2, b2, t2) = (w.clone(), bad.clone(), tick.clone());
        subs.set(move |q| Resp::json_of(json!({"data": run_doc(&w2, q.path.chars().nth(1), &q.json(), &b2, &t2)})));
        for k in 0..60 {
            if !run.time_left() { break; }
            let mutation = k % 12 == 11;
            let body = if mutation { let mut f: Vec<String> = (0..5).map(|i| format!("m{i}")).collect(); for i in (1..5).rev() { let j = r.below(i + 1); f.swap(i, j); } f.truncate(2 + r.below(4)); json!({"query": format!("mutation {{ {} }}", f.join(" "))}) } else { operation(&mut r, &w) };
            let (log, out) = ask(&w, &s, &rt, &subs, &bad, &tick, &body);
            if out == Outcome::Unplanned { unplanned += 1; continue; }
            let hops = log.iter().any(|q| q.query().contains("_entities"));
            let show = || format!("{}\n{body}\ndata: {}\nsent: {}", w.sdl(), w.data.iter().map(|(k, v)| format!("{}{}={}", k.0, k.1, json!(v))).collect::<Vec<_>>().join(" "), log.iter().map(|q| format!("{} {}", q.path, String::from_utf8_lossy(&q.body))).collect::<Vec<_>>().join("\n"));
            // known: a fetch under a condition is not held back by it, only by the absence of its objects
            if let Outcome::Bad(_, _, true) = out {
                let calm = settled(&body);
                if calm != body { if let (_, Outcome::Fine | Outcome::Unplanned) = ask(&w, &s, &rt, &subs, &bad, &tick, &calm) { early += 1; continue; } }
            }
            run.case(if mutation { "mutation" } else { "query" }, &show, hops || mutation, || match out { Outcome::Bad(want, got, _) => Err((want, got)), _ => Ok(()) });
        }
    }
    run.case("conditional", &|| "entity fetches under a condition that does not hold".into(), true, || if early > 0 { Err(("not sent".into(), "sent, with representations that lack what @requires asks for, when another selection brought the objects".into())) } else { Ok(()) });
    eprintln!("unplanned {unplanned}");
    run.finish()
}
