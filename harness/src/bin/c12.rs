// C12: the plan cache. Requests alike in all but one detail are sent one after the other, many times over; every answer
// is that of its own request. The subgraphs answer each field with their name and the arguments that reached it.
use graphql_tools::parser::query::*;
use serde_json::{json, Map, Value as J};
use std::collections::{BTreeMap, BTreeSet};
use vh::e2e::*;
use vh::*;

const BODY: &str = r#"
scalar JSON @join__type(graph: A) @join__type(graph: B)
enum E @join__type(graph: A) @join__type(graph: B) { A @join__enumValue(graph: A) @join__enumValue(graph: B) B @join__enumValue(graph: A) @join__enumValue(graph: B) null_ @join__enumValue(graph: A) @join__enumValue(graph: B) }
input In @join__type(graph: A) @join__type(graph: B) { s: String e: E l: [String] ll: [[String]] n: In }
type O @join__type(graph: A) @join__type(graph: B) { j(x: JSON): String k(x: JSON): String s(x: String): String o(x: JSON): O u(x: JSON): U }
type P @join__type(graph: A) @join__type(graph: B) { j(x: JSON): String o(x: JSON): O }
type Q @join__type(graph: A) @join__type(graph: B) { j(x: JSON): String o(x: JSON): O }
union U @join__type(graph: A) @join__type(graph: B) @join__unionMember(graph: A, member: "P") @join__unionMember(graph: A, member: "Q") @join__unionMember(graph: B, member: "P") @join__unionMember(graph: B, member: "Q") = P | Q
type Query @join__type(graph: A) @join__type(graph: B) {
  s(x: String): String @join__field(graph: A)
  e(x: E): String @join__field(graph: A)
  in(x: In): String @join__field(graph: B)
  l(x: [String]): String @join__field(graph: A)
  ll(x: [[String]]): String @join__field(graph: A)
  id(x: ID): String @join__field(graph: B)
  f(x: Float): String @join__field(graph: B)
  j(x: JSON, y: JSON): String @join__field(graph: A)
  k(x: JSON, y: JSON): String @join__field(graph: B)
  o(x: JSON): O @join__field(graph: A)
  o2(x: JSON): O @join__field(graph: B)
  u(x: JSON): U @join__field(graph: A)
  m1(x: JSON): String @join__field(graph: A) @join__field(graph: B, override: "a", overrideLabel: "one")
  m2(x: JSON): String @join__field(graph: A, override: "b", overrideLabel: "two") @join__field(graph: B)
  m3(x: JSON): O @join__field(graph: A) @join__field(graph: B, override: "a", overrideLabel: "two")
  never(x: JSON): String @join__field(graph: A) @join__field(graph: B, override: "a", overrideLabel: "percent(0)")
  some(x: JSON): String @join__field(graph: A) @join__field(graph: B, override: "a", overrideLabel: "percent(40)")
}
type Mutation @join__type(graph: A) @join__type(graph: B) { j(x: JSON, y: JSON): String @join__field(graph: A) k(x: JSON, y: JSON): String @join__field(graph: B) }
"#;
#[derive(Clone, Debug, PartialEq)]
enum V { Str(&'static str), Enum(&'static str), Var(&'static str), Lit(&'static str), List(Vec<V>), Obj(Vec<(&'static str, V)>) }
#[derive(Clone, Debug, PartialEq)]
struct F { alias: Option<String>, name: &'static str, args: Vec<(&'static str, V)>, skip: Option<&'static str>, inc: Option<&'static str>, sub: Vec<S> }
#[derive(Clone, Debug, PartialEq)]
enum S { F(F), On(&'static str, Option<&'static str>, Option<&'static str>, Vec<S>) }
#[derive(Clone, Debug, PartialEq)]
struct Op { name: Option<&'static str>, mutation: bool, sub: Vec<S>, defaults: BTreeMap<&'static str, &'static str>, strict: BTreeSet<&'static str> }
fn value(v: &V) -> String {
    match v { V::Str(s) => format!("\"{s}\""), V::Enum(s) | V::Lit(s) => s.to_string(), V::Var(n) => format!("${n}"), V::List(l) => format!("[{}]", l.iter().map(value).collect::<Vec<_>>().join(", ")), V::Obj(o) => format!("{{{}}}", o.iter().map(|(k, v)| format!("{k}: {}", value(v))).collect::<Vec<_>>().join(", ")) }
}
fn vars_of(v: &V, out: &mut BTreeSet<&'static str>) { match v { V::Var(n) => { out.insert(n); } V::List(l) => l.iter().for_each(|x| vars_of(x, out)), V::Obj(o) => o.iter().for_each(|x| vars_of(&x.1, out)), _ => {} } }
fn print(s: &[S], o: &mut String, used: &mut BTreeSet<&'static str>) {
    o.push_str("{ ");
    for x in s {
        let (k, i, sub) = match x {
            S::F(f) => {
                if let Some(a) = &f.alias { *o += &format!("{a}: "); }
                *o += f.name;
                if !f.args.is_empty() { *o += &format!("({})", f.args.iter().map(|(n, v)| { vars_of(v, used); format!("{n}: {}", value(v)) }).collect::<Vec<_>>().join(", ")); }
                (f.skip, f.inc, &f.sub)
            }
            S::On(t, k, i, sub) => { *o += &format!("... on {t}"); (*k, *i, sub) }
        };
        for (d, v) in [("skip", k), ("include", i)] { if let Some(v) = v { used.insert(v); *o += &format!(" @{d}(if: ${v})"); } }
        o.push(' ');
        if !sub.is_empty() { print(sub, o, used); }
    }
    o.push_str("} ");
}
fn text(p: &Op) -> String {
    let (mut s, mut used) = (String::new(), BTreeSet::new());
    print(&p.sub, &mut s, &mut used);
    let defs = used.iter().map(|v| format!("${v}: {}{}{}", if "bc".contains(v) { "Boolean!" } else if *v == "st" { "String" } else { "JSON" }, if p.strict.contains(v) && !"bc".contains(v) { "!" } else { "" }, p.defaults.get(v).map(|d| format!(" = {d}")).unwrap_or_default())).collect::<Vec<_>>().join(", ");
    format!("{} {}{}{s}", if p.mutation { "mutation" } else { "query" }, p.name.unwrap_or(""), if defs.is_empty() { defs } else { format!("({defs})") })
}
// ---- what a field answers
fn canon(v: &Value<'static, String>, vars: &J) -> Option<J> {
    Some(match v {
        Value::Variable(n) => vars.get(n.as_str())?.clone(),
        Value::Int(i) => json!(i.as_i64()), Value::Float(f) => json!(f), Value::String(s) => json!(s), Value::Boolean(b) => json!(b), Value::Null => J::Null,
        Value::Enum(s) => json!({"enum": s}),
        Value::List(l) => J::Array(l.iter().map(|x| canon(x, vars).unwrap_or(J::Null)).collect()),
        Value::Object(o) => J::Object(o.iter().filter_map(|(k, v)| Some((k.to_string(), canon(v, vars)?))).collect()),
    })
}
struct Ctx<'a> { frags: BTreeMap<String, FragmentDefinition<'static, String>>, vars: J, owner: &'a dyn Fn(&str) -> char }
fn sorted(v: &J) -> String { match v { J::Object(o) => { let b: BTreeMap<_, _> = o.iter().collect(); format!("{{{}}}", b.iter().map(|(k, v)| format!("{k}:{}", sorted(v))).collect::<Vec<_>>().join(",")) } J::Array(a) => format!("[{}]", a.iter().map(sorted).collect::<Vec<_>>().join(",")), J::Number(n) => n.as_f64().unwrap().to_string(), x => x.to_string() } }
impl Ctx<'_> {
    fn on(&self, d: &[Directive<'static, String>]) -> bool { d.iter().all(|d| { let c = d.arguments.iter().find(|a| a.0 == "if").and_then(|a| canon(&a.1, &self.vars)) == Some(json!(true)); if d.name == "skip" { !c } else { c } }) }
    fn set(&self, t: &str, at: Option<char>, s: &SelectionSet<'static, String>, out: &mut Map<String, J>) {
        for i in &s.items {
            match i {
                Selection::Field(f) if self.on(&f.directives) => {
                    let key = f.alias.clone().unwrap_or(f.name.clone());
                    let who = at.unwrap_or_else(|| (self.owner)(&f.name));
                    let args: J = J::Object(f.arguments.iter().filter_map(|(k, v)| Some((k.clone(), canon(v, &self.vars)?))).collect());
                    let line = format!("{who}.{t}.{}{}", f.name, sorted(&args));
                    let v = if f.name == "__typename" { json!(t) } else {
                        let ty = match f.name.as_str() { "o" | "o2" | "m3" => "O", "u" => if line.len() % 2 == 0 { "P" } else { "Q" }, _ => "" };
                        if ty.is_empty() { json!(line) } else { let mut m = Map::new(); self.set(ty, Some(who), &f.selection_set, &mut m); J::Object(m) }
                    };
                    match (out.get_mut(&key), v) { (Some(J::Object(a)), J::Object(b)) => a.extend(b), (_, v) => { out.insert(key, v); } }
                }
                Selection::InlineFragment(x) if self.on(&x.directives) => if x.type_condition.as_ref().is_none_or(|c| { let TypeCondition::On(n) = c; n == t || n == "U" }) { self.set(t, at, &x.selection_set, out) },
                Selection::FragmentSpread(x) if self.on(&x.directives) => if let Some(d) = self.frags.get(&x.fragment_name) { let TypeCondition::On(n) = &d.type_condition; if n == t || n == "U" { self.set(t, at, &d.selection_set, out) } },
                _ => {}
            }
        }
    }
}
// a default travels as a variable, where an enum value is a string
fn plain(v: J) -> J { match v { J::Object(mut o) if o.len() == 1 && o.contains_key("enum") => o.remove("enum").unwrap(), J::Object(o) => J::Object(o.into_iter().map(|(k, v)| (k, plain(v))).collect()), J::Array(a) => J::Array(a.into_iter().map(plain).collect()), v => v } }
fn run_doc(q: &str, name: Option<&str>, vars: &J, owner: &dyn Fn(&str) -> char) -> Option<J> {
    let doc = parse_query::<String>(q).ok()?.into_static();
    let (mut frags, mut op) = (BTreeMap::new(), None);
    for d in doc.definitions { match d {
        Definition::Fragment(f) => { frags.insert(f.name.clone(), f); }
        Definition::Operation(o) => {
            let n = match &o { OperationDefinition::Query(q) => q.name.clone(), OperationDefinition::Mutation(m) => m.name.clone(), _ => None };
            if name.is_none() || n.as_deref() == name { op = Some(o); }
        }
    } }
    let (s, defs, root) = match op? { OperationDefinition::Query(q) => (q.selection_set, q.variable_definitions, "Query"), OperationDefinition::Mutation(m) => (m.selection_set, m.variable_definitions, "Mutation"), OperationDefinition::SelectionSet(s) => (s, vec![], "Query"), _ => return None };
    let mut all = if vars.is_object() { vars.clone() } else { json!({}) };
    for d in &defs { if all.get(&d.name).is_none() { if let Some(x) = d.default_value.as_ref().and_then(|x| canon(x, &json!({}))).map(plain) { all[d.name.as_str()] = x; } } }
    let mut m = Map::new();
    Ctx { frags, vars: all, owner }.set(root, None, &s, &mut m);
    Some(J::Object(m))
}
// ---- random operations
const VARS: [&str; 3] = ["v", "w", "st"];
fn any(r: &mut Rng, depth: usize) -> V {
    match r.below(if depth == 0 { 9 } else { 12 }) {
        0 | 1 => V::Str(*r.pick(&["A", "null", "1", "v", "true", ""])), 2 => V::Enum(*r.pick(&["A", "v"])), 3 | 4 => V::Var(*r.pick(&["v", "w"])),
        5 => V::Lit("null"), 6 => V::Lit(*r.pick(&["1", "2", "-1"])), 7 => V::Lit(*r.pick(&["1.0", "2.5"])), 8 => V::Lit(*r.pick(&["true", "false"])),
        9 | 10 => V::List((0..r.below(4)).map(|_| any(r, depth - 1)).collect()),
        _ => { let mut v: Vec<(&str, V)> = vec![]; for k in ["A", "b", "x"] { if r.bool() { v.push((k, any(r, depth - 1))); } } V::Obj(v) }
    }
}
fn string(r: &mut Rng) -> V { match r.below(5) { 0 => V::Lit("null"), 1 => V::Var("st"), _ => V::Str(*r.pick(&["A", "B", "null", "st", ""])) } }
fn en(r: &mut Rng) -> V { match r.below(3) { 0 => V::Lit("null"), _ => V::Enum(*r.pick(&["A", "B", "null_"])) } }
fn list(r: &mut Rng, depth: usize) -> V { if depth == 0 { string(r) } else if r.chance(1, 8) { V::Lit("null") } else { V::List((0..r.below(4)).map(|_| list(r, depth - 1)).collect()) } }
fn input(r: &mut Rng, depth: usize) -> V {
    let mut o: Vec<(&str, V)> = vec![];
    if r.bool() { o.push(("s", string(r))); } if r.bool() { o.push(("e", en(r))); } if r.bool() { o.push(("l", list(r, 1))); } if r.bool() { o.push(("ll", list(r, 2))); }
    if depth > 0 && r.bool() { o.push(("n", input(r, depth - 1))); }
    V::Obj(o)
}
fn arg(r: &mut Rng, f: &str, top: bool) -> V {
    match f { "s" => string(r), "e" => en(r), "in" => input(r, 2), "l" => list(r, 1), "ll" => list(r, 2), "id" => V::Str(*r.pick(&["1", "A"])), "f" => V::Lit(*r.pick(&["1.5", "1", "null"])), _ => { let _ = top; any(r, 2) } }
}
fn cond(r: &mut Rng) -> Option<&'static str> { if r.chance(1, 5) { Some(*r.pick(&["b", "c"])) } else { None } }
fn field(r: &mut Rng, t: &str, n: &mut usize, depth: usize) -> F {
    let pool: &[&str] = match t { "Query" => &["s", "e", "in", "l", "ll", "id", "f", "j", "k", "o", "o2", "u", "m1", "m2", "m3", "never", "some", "j", "k"], "Mutation" => &["j", "k"], "O" => if depth == 0 { &["j", "k", "s"] } else { &["j", "k", "s", "o", "u"] }, _ => if depth == 0 { &["j"] } else { &["j", "o"] } };
    let name: &'static str = { let p: Vec<&'static str> = pool.iter().map(|s| -> &'static str { ALL.iter().find(|x| *x == s).unwrap() }).collect(); r.pick(&p) };
    *n += 1;
    let mut args = vec![];
    if r.chance(3, 4) { args.push(("x", arg(r, name, t == "Query"))); }
    if (t == "Query" || t == "Mutation") && (name == "j" || name == "k") && r.bool() { args.push(("y", any(r, 1))); }
    let sub = match name { "o" | "o2" | "m3" => set(r, "O", n, depth - 1), "u" => set(r, "U", n, depth - 1), _ => vec![] };
    F { alias: Some(format!("r{n}")), name, args, skip: cond(r), inc: cond(r), sub }
}
const ALL: [&str; 17] = ["s", "e", "in", "l", "ll", "id", "f", "j", "k", "o", "o2", "u", "m1", "m2", "m3", "never", "some"];
fn set(r: &mut Rng, t: &'static str, n: &mut usize, depth: usize) -> Vec<S> {
    let k = 1 + r.below(3);
    (0..k).map(|_| match t {
        "U" => { let m = *r.pick(&["P", "Q"]); S::On(m, cond(r), cond(r), set(r, m, n, depth)) }
        _ if r.chance(1, 8) => S::On(t, cond(r), cond(r), set(r, t, n, depth)),
        _ => S::F(field(r, t, n, depth)),
    }).collect()
}
fn op(r: &mut Rng, name: Option<&'static str>) -> Op {
    let mutation = r.chance(1, 6);
    let mut p = Op { name, mutation, sub: set(r, if mutation { "Mutation" } else { "Query" }, &mut 0, 2), defaults: BTreeMap::new(), strict: BTreeSet::new() };
    if r.chance(1, 3) { p.defaults.insert(*r.pick(&["v", "w"]), *r.pick(&["null", "\"null\"", "1", "\"A\"", "A", "[1]", "[[1]]"])); }
    p
}
// ---- one detail changed
fn places<'a>(s: &'a mut Vec<S>, out: &mut Vec<*mut Vec<S>>) { let p = s as *mut Vec<S>; out.push(p); for x in s.iter_mut() { match x { S::F(f) => places(&mut f.sub, out), S::On(_, _, _, v) => places(v, out) } } }
fn tweak_value(r: &mut Rng, v: &mut V) {
    let old = v.clone();
    *v = match old {
        V::List(mut l) => match r.below(4) {
            0 => V::List(vec![V::List(l)]),
            1 if l.len() > 1 => { let k = 1 + r.below(l.len() - 1); let t = l.split_off(k); if r.bool() { l.push(V::List(t)); V::List(l) } else { V::List(vec![V::List(l), V::List(t)]) } }
            2 if !l.is_empty() => { let k = r.below(l.len()); tweak_value(r, &mut l[k]); V::List(l) }
            _ => { let mut o = vec![]; for x in l { match x { V::List(y) => o.extend(y), y => o.push(y) } } V::List(o) }
        },
        V::Obj(mut o) if !o.is_empty() => { let k = r.below(o.len()); if r.chance(1, 3) { let x = o.remove(k); if let V::Obj(y) = x.1 { for z in y { if !o.iter().any(|w| w.0 == z.0) { o.push(z); } } } } else { tweak_value(r, &mut o[k].1); } V::Obj(o) }
        V::Str("A") => r.pick(&[V::Enum("A"), V::Str("B"), V::List(vec![V::Str("A")])]).clone(),
        V::Str("null") => r.pick(&[V::Lit("null"), V::Str("A")]).clone(),
        V::Str("v") => r.pick(&[V::Var("v"), V::Enum("v")]).clone(),
        V::Str("st") => V::Var("st"),
        V::Str("1") => r.pick(&[V::Lit("1"), V::Lit("1.0")]).clone(),
        V::Str("true") => V::Lit("true"),
        V::Enum("A") => V::Str("A"), V::Enum("v") => r.pick(&[V::Var("v"), V::Str("v")]).clone(),
        V::Var("st") => V::Str("st"), V::Var("v") => r.pick(&[V::Str("v"), V::Enum("v"), V::Var("w")]).clone(), V::Var(_) => V::Var("v"),
        V::Lit("null") => r.pick(&[V::Str("null"), V::List(vec![]), V::Obj(vec![]), V::Lit("false")]).clone(),
        V::Lit("1") => r.pick(&[V::Str("1"), V::Lit("1.0"), V::Lit("true"), V::Lit("2")]).clone(), V::Lit("1.0") => V::Lit("1"), V::Lit("true") => r.pick(&[V::Str("true"), V::Lit("1")]).clone(), V::Lit("false") => V::Lit("null"),
        _ => any(r, 1),
    };
}
fn tweak(r: &mut Rng, p: &mut Op) {
    let mut ps = vec![];
    places(&mut p.sub, &mut ps);
    for _ in 0..12 {
        // one place at a time; the pointers are into `p`, which nothing else touches here
        let i = r.below(ps.len());
        let v: &mut Vec<S> = unsafe { &mut *ps[i] };
        if v.is_empty() { continue; }
        let k = r.below(v.len());
        match r.below(10) {
            0..=4 => if let S::F(f) = &mut v[k] { if !f.args.is_empty() { let a = r.below(f.args.len()); tweak_value(r, &mut f.args[a].1); return; } },
            5 => match &mut v[k] { S::F(f) => { std::mem::swap(&mut f.skip, &mut f.inc); if f.skip.is_none() && f.inc.is_none() { f.skip = Some("b"); } return; } S::On(_, a, b, _) => { std::mem::swap(a, b); return; } },
            6 => if v.len() > 1 {
                let j = (k + 1) % v.len();
                let (x, y) = (match &v[k] { S::F(f) => f.alias.clone(), _ => None }, match &v[j] { S::F(f) => f.alias.clone(), _ => None });
                if x.is_some() && y.is_some() { if let S::F(f) = &mut v[k] { f.alias = y; } if let S::F(f) = &mut v[j] { f.alias = x; } return; }
            },
            7 => match &mut v[k] {
                S::F(f) if f.args.len() == 2 && r.bool() => { let (a, b) = (f.args[0].1.clone(), f.args[1].1.clone()); if r.chance(2, 3) { f.args[0].1 = b; f.args[1].1 = a; } else { f.args[0].1 = b; } return; }
                S::F(f) if f.name == "j" => { f.name = "k"; return; } S::F(f) if f.name == "m1" => { f.name = "m2"; return; } S::F(f) if f.name == "o" => { f.name = "o2"; return; }
                S::F(f) if f.args.len() == 2 => { let (a, b) = (f.args[0].1.clone(), f.args[1].1.clone()); f.args[0].1 = b; f.args[1].1 = a; return; }
                S::On(t, ..) if *t == "P" || *t == "Q" => { *t = if *t == "P" { "Q" } else { "P" }; return; } _ => {}
            },
            8 => if v.len() > 1 {
                // a selection moves into its neighbour
                let x = v.remove(k);
                let j = k.min(v.len() - 1);
                match (&mut v[j], &x) { (S::F(f), S::F(g)) if !f.sub.is_empty() && ["j", "k", "s", "o"].contains(&g.name) => { f.sub.push(x); return; } (S::On(_, _, _, s), _) => { s.push(x); return; } _ => { v.insert(k, x); } }
            },
            _ => { if p.defaults.is_empty() { p.defaults.insert("v", *r.pick(&["null", "\"null\"", "1"])); } else { let d = p.defaults.values_mut().next().unwrap(); *d = match *d { "null" => "\"null\"", "\"A\"" => "A", "A" => "\"A\"", "[1]" => "[[1]]", "[[1]]" => "[1]", _ => "null" }; } return; }
        }
    }
}
fn main() {
    let mut run = Run::from_args("nontrivial: the operation passes validation and differs in one detail (kind of a value, nesting of a list, alias, place of a field, condition, fragment type, default, variables, override labels, chosen operation) from another sent to the same router; random operations over two subgraphs with overridden fields");
    let subs = Subgraphs::start(|q| {
        let who = q.path.chars().nth(1).unwrap_or('?');
        let b = q.json();
        match run_doc(&q.query(), None, &b["variables"], &|_| who) { Some(d) => Resp::json_of(json!({"data": d})), None => Resp::json_of(json!({"errors": [{"message": format!("unreadable: {b}")}]})) }
    });
    let s = sdl(&["a", "b"], BODY).replace("override: String,", "override: String, overrideLabel: String,");
    let y = "override_labels: { one: { expression: '.request.headers.\"x-one\" == \"on\"' }, two: { expression: '.request.headers.\"x-two\" == \"on\"' } }\n";
    let mut r = run.rng(12);
    let mut rt = match Router::start(y, &s, Some(&subs)) { Ok(r) => r, Err(e) => { run.case("start", &|| y.to_string(), true, || Err(("the router starts".into(), e.clone()))); run.finish(); } };
    for _ in 0..run.n(700) {
        if !run.time_left() { break; }
        let two = r.chance(1, 3);
        let mut doc = if two { vec![op(&mut r, Some("A")), op(&mut r, Some("B"))] } else { vec![op(&mut r, None)] };
        if two && r.bool() { doc[1] = Op { name: Some("B"), ..doc[0].clone() }; tweak(&mut r, &mut doc[1]); }
        let mut family = vec![doc.clone()];
        for _ in 0..5 { let base = r.pick(&family).clone(); let mut d = base; let k = r.below(d.len()); tweak(&mut r, &mut d[k]); family.push(d); }
        for _ in 0..12 {
            let d = r.pick(&family).clone();
            let q = d.iter().map(text).collect::<Vec<_>>().join("\n");
            let name = if two { Some(*r.pick(&["A", "B"])) } else { None };
            let mut vars = json!({"b": r.bool(), "c": r.bool()});
            for v in VARS { if r.chance(3, 4) { vars[v] = if v == "st" { r.pick(&[json!("A"), J::Null, json!("st")]).clone() } else { r.pick(&[json!("A"), J::Null, json!(1), json!(1.5), json!([[1], 2]), json!({"A": "v"}), json!("v"), json!(true)]).clone() }; } }
            let (one, labels) = (r.bool(), r.bool());
            let mut h = vec![("content-type", "application/json")];
            if one { h.push(("x-one", "on")); }
            if labels { h.push(("x-two", "on")); }
            let mut body = json!({"query": q, "variables": vars});
            if let Some(n) = name { body["operationName"] = json!(n); }
            let resp = rt.send("POST", "/graphql", &h, body.to_string().as_bytes());
            let got = resp.json();
            let invalid = got["data"].is_null() && resp.error_codes().iter().all(|c| c.starts_with(|x: char| x.is_ascii_uppercase()) && c.contains(|x: char| x.is_ascii_lowercase())) && !resp.error_codes().is_empty();
            let owner = move |f: &str| match f { "s" | "e" | "l" | "ll" | "j" | "o" | "u" | "never" => 'a', "m1" => if one { 'b' } else { 'a' }, "m2" => if labels { 'a' } else { 'b' }, "m3" => if labels { 'b' } else { 'a' }, "some" => '*', _ => 'b' };
            let mut want = run_doc(&q, name, &vars, &owner).unwrap_or(J::Null);
            let mut data = got["data"].clone();
            // which of the two answers a field overridden for some requests is chance
            for o in [&mut want, &mut data] { if let Some(o) = o.as_object_mut() { for v in o.values_mut() { if let Some(t) = v.as_str() { if let Some(i) = t.find(".Query.some{") { *v = json!(t[i..].to_string()); } } } } }
            let alive = rt.alive();
            run.case(if two { "operationName" } else { "single" }, &|| format!("{body} x-one={one} x-two={labels}"), !invalid, || {
                if !alive { return Err(("the router is up".into(), "it is not".into())); }
                if invalid { return Ok(()); }
                if got.get("errors").is_some() || sorted(&data) != sorted(&want) { return Err((sorted(&want), format!("{} {}", resp.status, got))); }
                Ok(())
            });
        }
    }
    run.finish()
}
