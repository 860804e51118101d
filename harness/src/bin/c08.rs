// C08: the shape of the answer. Oracle: the operation executed on the whole data as the GraphQL
// specification says (CollectFields, CompleteValue with null propagation), whatever the subgraphs hold.
use serde_json::{json, Value as J};
use std::collections::BTreeMap;
use vh::e2e::*;
use vh::*;

// type, field, output type, type modifiers (l = list, ! = non-null, read inside out), owner graph
type Field = (&'static str, &'static str, &'static str, &'static str, &'static str);
const FIELDS: &[Field] = &[
    ("Query", "me", "User", "", "a"), ("Query", "you", "User", "!", "a"), ("Query", "nodes", "Node", "l", "a"), ("Query", "strictNodes", "Node", "!l!", "a"), ("Query", "node", "Node", "", "a"), ("Query", "sure", "Node", "!", "a"), ("User", "boss", "Node", "!", "a"), ("Org", "prize", "Any", "!", "a"),
    ("Query", "anys", "Any", "l", "a"), ("Query", "any", "Any", "", "a"), ("Query", "grid", "Node", "!ll", "a"), ("Query", "users", "User", "!l", "a"), ("Query", "bq", "Int", "", "b"), ("Query", "q", "String", "", "a"), ("Query", "bdocs", "Doc", "!l", "b"), ("Query", "z", "Z", "", ""), ("Query", "zs", "Z", "l", ""), ("Query", "zz", "Z", "ll", ""),
    ("Z", "za", "Int", "", "a"), ("Z", "zb", "Int", "", "b"), ("Z", "zc", "String", "", "a"), ("Z", "zd", "String", "", "b"), ("Z", "ze", "Int", "", ""), ("Z", "zsub", "Z", "", ""), ("Z", "zsubs", "Z", "l", ""), ("Z", "zlev", "Level", "", "b"),
    ("Node", "id", "ID", "!", ""), ("Node", "label", "String", "", ""), ("Node", "link", "User", "", ""), ("Node", "meta", "Meta", "", ""), ("Node", "kin", "Node", "l", ""),
    ("User", "id", "ID", "!", ""), ("User", "label", "String", "", "a"), ("User", "link", "User", "", "a"), ("User", "meta", "Meta", "", "a"), ("User", "kin", "Node", "l", "a"),
    ("User", "uname", "String", "", "a"), ("User", "email", "String", "!", "a"), ("User", "pals", "User", "!l!", "a"), ("User", "level", "Level", "", "a"), ("User", "slevel", "Level", "!", "a"), ("User", "levels", "Level", "l", "a"), ("User", "slevels", "Level", "!l", "a"),
    ("User", "bval", "Int", "", "b"), ("User", "bdoc", "Doc", "!", "b"), ("User", "blob", "Blob", "", "a"), ("User", "num", "Float", "", "a"), ("User", "tags", "String", "!l", "a"), ("User", "deep", "Int", "!ll!l", "a"), ("User", "ok", "Boolean", "", "a"),
    ("Doc", "id", "ID", "!", ""), ("Doc", "label", "String", "", "a"), ("Doc", "link", "User", "", "a"), ("Doc", "meta", "Meta", "", "a"), ("Doc", "kin", "Node", "l", "a"),
    ("Doc", "title", "String", "", "a"), ("Doc", "author", "User", "!", "a"), ("Doc", "btitle", "String", "!", "b"), ("Doc", "dlevel", "Level", "", "b"), ("Doc", "parts", "Any", "!l", "a"),
    ("Org", "id", "ID", "!", ""), ("Org", "label", "String", "", "a"), ("Org", "link", "User", "", "a"), ("Org", "meta", "Meta", "", "a"), ("Org", "kin", "Node", "l", "a"),
    ("Org", "oname", "String", "", "a"), ("Org", "bname", "String", "", "b"), ("Org", "head", "User", "!", "b"),
    ("Meta", "m1", "String", "", "a"), ("Meta", "m2", "Int", "!", "a"), ("Meta", "sub", "Meta", "", "a"), ("Meta", "of", "Any", "", "a"),
];
const LEAF: &[&str] = &["ID", "String", "Int", "Level", "Blob", "Float", "Boolean"];
fn composite(t: &str) -> bool { !LEAF.contains(&t) }
fn possible(t: &str) -> &'static [&'static str] { match t { "Node" => &["User", "Doc", "Org"], "Any" => &["User", "Doc"], "User" => &["User"], "Doc" => &["Doc"], "Org" => &["Org"], "Meta" => &["Meta"], "Z" => &["Z"], _ => &["Query"] } }
fn field(t: &str, n: &str) -> &'static Field { FIELDS.iter().find(|f| f.0 == t && f.1 == n).unwrap() }
fn sdl_of() -> String {
    let mut s = String::from("directive @inaccessible on FIELD_DEFINITION | OBJECT | INTERFACE | UNION | ARGUMENT_DEFINITION | SCALAR | ENUM | ENUM_VALUE | INPUT_OBJECT | INPUT_FIELD_DEFINITION\n");
    for (t, h) in [("Query", "type Query @join__type(graph: A) @join__type(graph: B)"), ("Node", "interface Node @join__type(graph: A)"), ("Meta", "type Meta @join__type(graph: A)"), ("Z", "type Z @join__type(graph: A) @join__type(graph: B)"),
        ("User", "E"), ("Doc", "E"), ("Org", "E")] {
        let h = if h == "E" { format!("type {t} implements Node @join__implements(graph: A, interface: \"Node\") @join__type(graph: A, key: \"id\") @join__type(graph: B, key: \"id\")") } else { h.into() };
        s += &format!("{h} {{\n");
        for f in FIELDS.iter().filter(|f| f.0 == t) {
            let mut ty = f.2.to_string();
            for c in f.3.chars() { ty = if c == 'l' { format!("[{ty}]") } else { format!("{ty}!") }; }
            let j = if f.4.is_empty() || t == "Meta" { String::new() } else { format!(" @join__field(graph: {})", f.4.to_uppercase()) };
            s += &format!("  {}: {ty}{j}\n", f.1);
        }
        s += "}\n";
    }
    s + "union Any @join__type(graph: A) @join__unionMember(graph: A, member: \"User\") @join__unionMember(graph: A, member: \"Doc\") = User | Doc
enum Level @join__type(graph: A) @join__type(graph: B) { LOW @join__enumValue(graph: A) @join__enumValue(graph: B) HIGH @join__enumValue(graph: A) @join__enumValue(graph: B) HIDDEN @join__enumValue(graph: A) @join__enumValue(graph: B) @inaccessible }
scalar Blob @join__type(graph: A)\n"
}
// ---- data: objects by id; a reference is {"$": id} ----------------------------------------------------
const CHARS: &[&str] = &["a", "b", "Z", " ", "\"", "\\", "/", "\n", "\r", "\t", "\u{0}", "\u{1f}", "\u{7f}", "\u{80}", "é", "€", "\u{2028}", "😀", "<", "{", "}", "[", ":", ",", "\u{8}", "\u{c}", "\u{b}", "\u{feff}", "\u{ffff}"];
fn string(r: &mut Rng) -> String {
    let n = *r.pick(&[0usize, 1, 3, 7, 15, 16, 17, 31, 32, 33, 40, 63, 64, 65, 100, 200]);
    let plain = r.chance(1, 3);
    let rare = r.chance(1, 2);
    let mut s = String::new();
    while s.len() < n { if plain || rare && !r.chance(1, 20) { s.push((b'a' + r.below(26) as u8) as char) } else { s += r.pick(CHARS) } }
    s
}
fn num(r: &mut Rng) -> J { match r.below(12) { 0 => json!(0.1), 1 => json!(1e30), 2 => json!(-2.5e-8), 3 => json!(3), 4 => json!(-7), 5 => json!(u64::MAX), 6 => json!(i64::MIN), 7 => json!(1e300), 8 => json!(5e-324), 9 => json!(123456789.125), 10 => json!(9007199254740993i64), _ => json!(0.30000000000000004) } }
fn blob(r: &mut Rng, d: usize) -> J { match r.below(if d > 0 { 8 } else { 5 }) { 0 => J::Null, 1 => num(r), 2 => json!(string(r)), 3 => json!(r.bool()), 4 => json!({}), 5 => json!([]), 6 => J::Array((0..r.below(4)).map(|_| blob(r, d - 1)).collect()), _ => J::Object((0..r.below(4)).map(|_| (string(r), blob(r, d - 1))).collect()) } }
fn leaf(r: &mut Rng, t: &str) -> J { match t { "String" => json!(string(r)), "ID" => json!("?"), "Int" => json!(r.below(1000) as i64 - 500), "Level" => json!(*r.pick(&["LOW", "HIGH"])), "Float" => num(r), "Boolean" => json!(r.bool()), _ => blob(r, 3) } }
struct Store { objs: BTreeMap<String, J>, bad: bool, ghosts: bool, max_list: usize }
fn gen_value(r: &mut Rng, t: &'static str, mods: &str, st: &Store, p: u64) -> J {
    // `p` in 100: how often a null stands where any type is
    let nn = mods.ends_with('!');
    let m = if nn { &mods[..mods.len() - 1] } else { mods };
    if r.chance(if nn { p / 4 } else { p }, 100) { return J::Null; }
    if let Some(inner) = m.strip_suffix('l') { return J::Array((0..r.below(st.max_list + 1)).map(|_| gen_value(r, t, inner, st, p)).collect()); }
    // an object of a type the field cannot have
    if matches!(t, "Node" | "Any") && st.ghosts && r.chance(1, 4) { return json!({ "$": if t == "Any" && r.bool() { format!("o{}", r.below(4)) } else { "x0".to_string() } }); }
    if composite(t) { if t == "Meta" || t == "Z" { return json!({ "$": format!("{}{}", if t == "Z" { 'z' } else { 'm' }, r.below(6)) }); } let k = match *r.pick(possible(t)) { "User" => "u", "Doc" => "d", _ => "o" }; return json!({ "$": format!("{k}{}", r.below(4)) }); }
    if t == "Level" && st.bad && r.chance(1, 5) { return json!(*r.pick(&["HIDDEN", "BOGUS", "", "low"])); }
    leaf(r, t)
}
fn store(r: &mut Rng, p: u64, bad: bool, ghosts: bool) -> Store {
    let mut st = Store { objs: BTreeMap::new(), bad, ghosts, max_list: 3 };
    let mut keys = vec![("q".to_string(), "Query")];
    for k in 0..4 { keys.push((format!("u{k}"), "User")); keys.push((format!("d{k}"), "Doc")); keys.push((format!("o{k}"), "Org")); }
    for k in 0..6 { keys.push((format!("m{k}"), "Meta")); keys.push((format!("z{k}"), "Z")); }
    for (id, t) in keys {
        let mut o = json!({ "__typename": t });
        for f in FIELDS.iter().filter(|f| f.0 == t) { o[f.1] = if f.1 == "id" { json!(id) } else { gen_value(r, f.2, f.3, &st, p) }; }
        st.objs.insert(id, o);
    }
    st.objs.insert("x0".into(), json!({ "__typename": "Ghost", "id": "x0", "label": "boo" }));
    st
}
impl Store {
    fn build(&self, v: &J, d: u32) -> J {
        match v {
            J::Object(o) => match o.get("$").and_then(|x| x.as_str()) {
                Some(id) => self.obj(id, d),
                None => v.clone(),
            },
            J::Array(a) => J::Array(a.iter().map(|x| self.build(x, d)).collect()),
            _ => v.clone(),
        }
    }
    fn obj(&self, id: &str, d: u32) -> J {
        let o = &self.objs[id];
        let t = o["__typename"].as_str().unwrap();
        J::Object(o.as_object().unwrap().iter().filter_map(|(k, v)| {
            if k == "__typename" || t == "Ghost" { return Some((k.clone(), v.clone())); }
            let f = field(t, k);
            if composite(f.2) { if d == 0 { None } else { Some((k.clone(), self.build(v, d - 1))) } } else { Some((k.clone(), v.clone())) }
        }).collect())
    }
}
// ---- operations ---------------------------------------------------------------------------------------
type Cond = Vec<(bool, Option<usize>, bool)>; // include?, variable, literal
#[derive(Clone, Debug)]
enum S { F { alias: Option<String>, name: &'static str, cond: Cond, sub: Vec<S> }, I { ty: Option<&'static str>, cond: Cond, spread: bool, sub: Vec<S> } }
struct G<'a> { r: &'a mut Rng, directives: bool }
impl G<'_> {
    fn cond(&mut self) -> Cond {
        if !self.directives || !self.r.chance(1, 6) { return vec![]; }
        let mut c = vec![(self.r.bool(), self.one(), self.r.bool())];
        if self.r.chance(1, 3) { c.push((!c[0].0, self.one(), self.r.bool())); }
        c
    }
    fn one(&mut self) -> Option<usize> { if self.r.chance(1, 6) { None } else { Some(self.r.below(3)) } }
    fn set(&mut self, ty: &'static str, depth: usize, nest: usize) -> Vec<S> {
        let n = 1 + self.r.below(if nest < 2 { 2 } else { 4 });
        let mut out: Vec<S> = vec![];
        for _ in 0..n {
            if nest > 0 && ty != "Query" && ty != "Meta" && ty != "Z" && (ty == "Any" && self.r.chance(4, 5) || self.r.chance(1, 4)) {
                let pick: Vec<Option<&'static str>> = match ty { "Node" => vec![Some("User"), Some("Doc"), Some("Org"), Some("Node"), Some("Any"), None], "Any" => vec![Some("User"), Some("Doc"), Some("Node"), Some("Any"), None], "User" => vec![Some("User"), Some("Node"), Some("Any"), None], "Doc" => vec![Some("Doc"), Some("Node"), Some("Any"), None], _ => vec![Some("Org"), Some("Node"), None] };
                let t = *self.r.pick(&pick);
                let cond = self.cond();
                let sub = self.set(t.unwrap_or(ty), depth, nest - 1);
                let spread = t.is_some() && self.r.chance(1, 3);
                out.push(S::I { ty: t, cond, spread, sub });
                continue;
            }
            if self.r.chance(1, 10) { out.push(S::F { alias: if self.r.chance(1, 3) { Some(format!("t{}", self.r.below(2))) } else { None }, name: "__typename", cond: self.cond(), sub: vec![] }); continue; }
            let fs: Vec<_> = FIELDS.iter().filter(|f| f.0 == ty && (depth > 0 || !composite(f.2))).collect();
            if fs.is_empty() { out.push(S::F { alias: None, name: "__typename", cond: vec![], sub: vec![] }); continue; }
            let f = *self.r.pick(&fs);
            let alias = if self.r.chance(1, 4) { Some(format!("x{}_{}", self.r.below(2), f.1)) } else { None };
            let cond = self.cond();
            let sub = if composite(f.2) { self.set(f.2, depth - 1, 2) } else { vec![] };
            out.push(S::F { alias, name: f.1, cond, sub });
        }
        out
    }
}
// What the known findings of C08 are about is kept out of the random operations: a directive over a selection that
// contains a field of abstract type, and a selection of an object that directives can leave empty.
fn tame(s: &mut Vec<S>, top: bool) -> bool {
    let mut abs = false;
    for x in s.iter_mut() {
        let (a, cond) = match x {
            S::F { name, sub, cond, .. } => { let a = FIELDS.iter().any(|f| f.1 == *name && matches!(f.2, "Node" | "Any")); (if sub.is_empty() { false } else { tame(sub, true) } | a, cond) }
            S::I { sub, cond, .. } => (tame(sub, false), cond),
        };
        if a { cond.clear(); }
        abs |= a;
    }
    if top && !s.iter().any(|x| matches!(x, S::F { cond, .. } if cond.is_empty())) { s.push(S::F { alias: None, name: "__typename", cond: vec![], sub: vec![] }); }
    abs
}
fn text(s: &[S], frags: &mut Vec<String>) -> String {
    let c = |c: &Cond| c.iter().map(|(i, v, l)| format!(" @{}(if: {})", if *i { "include" } else { "skip" }, match v { Some(v) => format!("$v{v}"), None => l.to_string() })).collect::<String>();
    let v: Vec<String> = s.iter().map(|x| match x {
        S::F { alias, name, cond, sub } => format!("{}{name}{}{}", alias.as_ref().map(|a| format!("{a}: ")).unwrap_or_default(), c(cond), if sub.is_empty() { String::new() } else { text(sub, frags) }),
        S::I { ty: Some(t), cond, spread: true, sub } => { let b = text(sub, frags); let n = format!("F{}", frags.len()); frags.push(format!("fragment {n} on {t}{b}")); format!("...{n}{}", c(cond)) }
        S::I { ty, cond, sub, .. } => format!("...{}{}{}", ty.map(|t| format!(" on {t}")).unwrap_or_default(), c(cond), text(sub, frags)),
    }).collect();
    format!(" {{ {} }}", v.join(" "))
}
struct O { vars: [bool; 3] }
impl O {
    fn on(&self, c: &Cond) -> bool { c.iter().all(|(i, v, l)| v.map_or(*l, |v| self.vars[v]) == *i) }
    fn collect<'s>(&self, s: &'s [S], ty: &str, out: &mut Vec<(String, &'static str, Vec<&'s [S]>)>) {
        for x in s { match x {
            S::F { alias, name, cond, sub } => if self.on(cond) { let key = alias.clone().unwrap_or(name.to_string()); match out.iter_mut().find(|o| o.0 == key) { Some(o) => o.2.push(sub), None => out.push((key, name, vec![sub])) } },
            S::I { ty: t, cond, sub, .. } => if self.on(cond) && t.is_none_or(|t| t == ty || possible(t).contains(&ty)) { self.collect(sub, ty, out) },
        } }
    }
    // None: a null
    fn exec(&self, sets: &[&[S]], obj: &J) -> Option<J> {
        let ty = obj["__typename"].as_str().unwrap().to_string();
        let mut v = vec![];
        for s in sets { self.collect(s, &ty, &mut v); }
        let mut m = serde_json::Map::new();
        for (k, name, subs) in v {
            if name == "__typename" { m.insert(k, json!(ty)); continue; }
            let f = field(&ty, name);
            match self.value(&subs, f.2, f.3, &obj[name]) { Some(x) => { m.insert(k, x); } None => { if f.3.ends_with('!') { return None; } m.insert(k, J::Null); } }
        }
        Some(J::Object(m))
    }
    fn value(&self, sets: &[&[S]], t: &str, mods: &str, v: &J) -> Option<J> {
        let m = mods.strip_suffix('!').unwrap_or(mods);
        if v.is_null() { return None; }
        if let Some(inner) = m.strip_suffix('l') {
            let mut o = vec![];
            for x in v.as_array().unwrap() { match self.value(sets, t, inner, x) { Some(x) => o.push(x), None => { if inner.ends_with('!') { return None; } o.push(J::Null) } } }
            return Some(J::Array(o));
        }
        if composite(t) { return self.exec(sets, v); }
        if t == "Level" && !["LOW", "HIGH"].contains(&v.as_str().unwrap()) { return None; }
        Some(v.clone())
    }
}
// JSON without repeated names
struct D(J);
impl<'de> serde::Deserialize<'de> for D { fn deserialize<X: serde::Deserializer<'de>>(d: X) -> Result<D, X::Error> { d.deserialize_any(Vis) } }
struct Vis;
impl<'de> serde::de::Visitor<'de> for Vis {
    type Value = D;
    fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("json") }
    fn visit_unit<E>(self) -> Result<D, E> { Ok(D(J::Null)) }
    fn visit_bool<E>(self, v: bool) -> Result<D, E> { Ok(D(json!(v))) }
    fn visit_i64<E>(self, v: i64) -> Result<D, E> { Ok(D(json!(v))) }
    fn visit_u64<E>(self, v: u64) -> Result<D, E> { Ok(D(json!(v))) }
    fn visit_f64<E>(self, v: f64) -> Result<D, E> { Ok(D(json!(v))) }
    fn visit_str<E>(self, v: &str) -> Result<D, E> { Ok(D(json!(v))) }
    fn visit_seq<A: serde::de::SeqAccess<'de>>(self, mut a: A) -> Result<D, A::Error> { let mut o = vec![]; while let Some(D(x)) = a.next_element()? { o.push(x) } Ok(D(J::Array(o))) }
    fn visit_map<A: serde::de::MapAccess<'de>>(self, mut a: A) -> Result<D, A::Error> {
        let mut o = serde_json::Map::new();
        while let Some((k, D(v))) = a.next_entry::<String, D>()? { if o.contains_key(&k) { return Err(serde::de::Error::custom(format!("repeated name {k:?}"))); } o.insert(k, v); }
        Ok(D(J::Object(o)))
    }
}
fn strict(b: &[u8]) -> Result<J, String> { serde_json::from_slice::<D>(b).map(|d| d.0).map_err(|e| e.to_string()) }

fn main() {
    let mut run = Run::from_args("nontrivial: the data has nulls or unlisted enum values, or the operation has fragments, directives or merged fields; random operations over two subgraphs with random data (escaped and long strings, numbers, custom scalars, nested lists)");
    merge(&mut run);
    let subs = Subgraphs::start(|_| Resp::default());
    let s = sdl_with(&["a", "b"], r#"@link(url: "https://specs.apollo.dev/inaccessible/v0.2", for: SECURITY)"#, &sdl_of());
    let rt = match Router::start("", &s, Some(&subs)) { Ok(r) => r, Err(e) => { eprintln!("router: {e}"); std::process::exit(3) } };
    let mut r = run.rng(8);
    let rounds = run.n(30);
    for k in 0..rounds {
        if !run.time_left() { break; }
        let p = *r.pick(&[0u64, 3, 8, 20]);
        let bad = r.chance(1, 2);
        let ghosts = k % 5 == 4;
        let st = store(&mut r, p, bad, ghosts);
        let whole = st.obj("q", 4);
        serve(&subs, &st, whole.clone());
        for _ in 0..40 {
            if !run.time_left() { break; }
            let directives = r.bool();
            let depth = 1 + r.below(3);
            let mut g = G { r: &mut r, directives };
            let mut q = g.set("Query", depth, 2);
            if directives { tame(&mut q, false); }
            let vars = [r.bool(), r.bool(), r.bool()];
            ask(&mut run, &rt, &subs, if ghosts { "ghosts" } else if directives { "directives" } else { "plain" }, &format!("data {k} "), &whole, &q, vars, p > 0 || bad);
        }
    }
    let st = store(&mut Rng::new(11), 0, false, false);
    let whole = st.obj("q", 4);
    serve(&subs, &st, whole.clone());
    let f = |name, cond: &[(bool, Option<usize>, bool)], sub| S::F { alias: None, name, cond: cond.to_vec(), sub };
    let i = |ty, cond: &[(bool, Option<usize>, bool)], sub| S::I { ty, cond: cond.to_vec(), spread: false, sub };
    let skip = [(false, Some(0), false)];
    for q in [
        vec![f("any", &[], vec![i(Some("User"), &[], vec![f("num", &[(true, None, false)], vec![])]), i(Some("Doc"), &[], vec![f("title", &[(true, None, false)], vec![])])])],
        vec![f("nodes", &skip, vec![f("id", &[], vec![]), i(Some("Org"), &[], vec![f("label", &[], vec![])])]), f("nodes", &[], vec![f("label", &[], vec![])])],
    ] {
        ask(&mut run, &rt, &subs, "fixed", "", &whole, &q, [true; 3], true);
    }
    run.finish()
}
fn serve(subs: &Subgraphs, st: &Store, root: J) {
    let ents: Vec<J> = st.objs.keys().filter(|k| !k.starts_with(['q', 'm', 'z'])).map(|k| st.obj(k, 4)).collect();
    let d = data::Data { root, mutation: J::Null, entities: ents };
    subs.set(move |q| Resp::json_of(data::execute(&d, &q.json(), &|n, t| t == n || possible(t).contains(&n)).unwrap_or(json!({"errors": [{"message": "bad"}]}))));
}
#[allow(clippy::too_many_arguments)]
fn ask(run: &mut Run, rt: &Router, subs: &Subgraphs, group: &str, about: &str, whole: &J, q: &[S], vars: [bool; 3], rich: bool) {
    let mut frags = vec![];
    let mut body = text(q, &mut frags);
    body += &frags.iter().map(|f| format!(" {f}")).collect::<String>();
    let used: Vec<usize> = (0..3).filter(|v| body.contains(&format!("$v{v}"))).collect();
    let qs = format!("query{}{body}", if used.is_empty() { String::new() } else { format!(" ({})", used.iter().map(|v| format!("$v{v}: Boolean!")).collect::<Vec<_>>().join(", ")) });
    let req = json!({"query": qs, "variables": used.iter().map(|v| (format!("v{v}"), json!(vars[*v]))).collect::<serde_json::Map<_, _>>()});
    let o = O { vars };
    let want = if group == "ghosts" { J::Null } else { o.exec(&[q], whole).unwrap_or(J::Null) };
    let resp = rt.post(&req, &[]);
    let log = subs.take_log();
    run.case(group, &|| format!("{about}{req}{}", if about.is_empty() { String::new() } else { format!(" asked {}", log.iter().map(|q| q.json().to_string()).collect::<Vec<_>>().join(" ;; ")) }), rich || qs.contains("..."), || {
        let j = strict(&resp.body).map_err(|e| ("one JSON value, no name twice".to_string(), format!("{e}: {}", resp.text())))?;
        if group == "ghosts" {
            // what is made of an object of a type the field cannot have is the router's choice, a null where none may be is not
            return match nulls(&[(q, "Query")], &j["data"]) { Some(at) => Err(("no null in a non-null position".into(), format!("{at}: {}", resp.text()))), None => Ok(()) };
        }
        if j["data"] != want { return Err((want.to_string(), resp.text())); }
        Ok(())
    });
}

/// A null where none may be; an object is of an unknown type, so every field that may stand under its name counts.
fn nulls(sets: &[(&[S], &'static str)], v: &J) -> Option<String> {
    let o = v.as_object()?;
    fn under<'s>(s: &'s [S], t: &'static str, key: &str, out: &mut Vec<(&'static Field, &'s [S])>) {
        for x in s { match x {
            S::F { alias, name, sub, .. } => if *name != "__typename" && alias.as_deref().unwrap_or(name) == key {
                let on: Vec<&'static str> = if FIELDS.iter().any(|f| f.0 == t && f.1 == *name) { vec![t] } else { vec![] };
                for t in on { out.push((field(t, name), sub)); }
                for p in possible(t) { if FIELDS.iter().any(|f| f.0 == *p && f.1 == *name) { out.push((field(p, name), sub)); } }
            },
            S::I { ty, sub, .. } => under(sub, ty.unwrap_or(t), key, out),
        } }
    }
    for (k, x) in o {
        let mut fs = vec![];
        for (s, t) in sets { under(s, t, k, &mut fs); }
        if fs.is_empty() { continue; }
        fn bad(mods: &str, v: &J) -> bool {
            let m = mods.strip_suffix('!').unwrap_or(mods);
            if v.is_null() { return mods.ends_with('!'); }
            match (m.strip_suffix('l'), v) { (Some(i), J::Array(a)) => a.iter().any(|x| bad(i, x)), _ => false }
        }
        if fs.iter().all(|f| bad(f.0 .3, x)) { return Some(k.clone()); }
        let sub: Vec<(&[S], &'static str)> = fs.iter().map(|f| (f.1, f.0 .2)).collect();
        fn walk(sub: &[(&[S], &'static str)], v: &J) -> Option<String> { match v { J::Array(a) => a.iter().find_map(|x| walk(sub, x)), J::Object(_) => nulls(sub, v), _ => None } }
        if composite(fs[0].0 .2) { if let Some(e) = walk(&sub, x) { return Some(format!("{k}.{e}")); } }
    }
    None
}

// ---- what two fetches say about one object ------------------------------------------------------------
use hive_router::executor::response::{merge::deep_merge, value::Value as V};
fn gen_merge(r: &mut Rng, d: usize) -> J {
    match r.below(if d > 0 { 9 } else { 4 }) {
        0 => J::Null, 1 => json!(r.below(9)), 2 => json!(format!("s{}", r.below(5))), 3 => json!(r.bool()),
        4 | 5 => J::Array((0..r.below(4)).map(|_| gen_merge(r, d - 1)).collect()),
        _ => J::Object((0..r.below(6)).map(|_| (format!("{}", (b'a' + r.below(9) as u8) as char), gen_merge(r, d - 1))).collect()),
    }
}
fn to_v(j: &J) -> V<'static> {
    match j {
        J::Null => V::Null, J::Bool(b) => V::Bool(*b), J::Number(n) => V::U64(n.as_u64().unwrap()), J::String(s) => V::String(s.clone().into()),
        J::Array(a) => V::Array(a.iter().map(to_v).collect()),
        J::Object(o) => { let mut v: Vec<(&'static str, V)> = o.iter().map(|(k, x)| (&*Box::leak(k.clone().into_boxed_str()), to_v(x))).collect(); v.sort_by_key(|x| x.0); V::Object(v) }
    }
}
fn text_of(v: &V) -> String {
    match v {
        V::Null => "null".into(), V::Bool(b) => b.to_string(), V::U64(n) => n.to_string(), V::String(s) => format!("{s:?}"),
        V::Array(a) => format!("[{}]", a.iter().map(text_of).collect::<Vec<_>>().join(",")),
        V::Object(o) => format!("{{{}}}", o.iter().map(|(k, x)| format!("{k:?}:{}", text_of(x))).collect::<Vec<_>>().join(",")),
        _ => "?".into(),
    }
}
fn merged(t: &J, s: &J) -> J {
    match (t, s) {
        (t, J::Null) => t.clone(),
        (J::Object(a), J::Object(b)) => { let mut o = a.clone(); for (k, v) in b { let n = a.get(k).map_or(v.clone(), |x| merged(x, v)); o.insert(k.clone(), n); } let mut v: Vec<_> = o.into_iter().collect(); v.sort_by(|x, y| x.0.cmp(&y.0)); J::Object(v.into_iter().collect()) }
        (J::Array(a), J::Array(b)) => J::Array(a.iter().enumerate().map(|(i, x)| b.get(i).map_or(x.clone(), |y| merged(x, y))).collect()),
        (_, s) => s.clone(),
    }
}
fn merge(run: &mut Run) {
    let mut r = run.rng(81);
    for _ in 0..run.n(3000) {
        let (t, s) = (gen_merge(&mut r, 3), gen_merge(&mut r, 3));
        run.case("merge", &|| format!("{t} <- {s}"), t.is_object() && s.is_object(), || {
            let mut v = to_v(&t);
            deep_merge(&mut v, to_v(&s));
            Run::eq(text_of(&to_v(&merged(&t, &s))), text_of(&v))
        });
    }
}
