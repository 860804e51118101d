// C15: the variables an operation runs with. Subgraphs answer every field with the argument they were given, as they
// read it off their own request; oracle: the values that the definitions choose, refused when one is not accepted.
use graphql_tools::parser::query::*;
use serde_json::{json, Map, Value as J};
use std::collections::BTreeMap;
use vh::e2e::*;
use vh::*;

const TYPES: [&str; 8] = ["Int", "Float", "String", "ID", "Boolean", "Level", "Blob", "In"];
const MODS: [&str; 7] = ["", "!", "l", "!l", "l!", "!l!", "ll"]; // read inside out
fn typ(t: &str, m: &str) -> String { let mut s = t.to_string(); for c in m.chars() { s = if c == 'l' { format!("[{s}]") } else { format!("{s}!") }; } s }
fn accepts(v: &J, t: &str, m: &str) -> bool {
    if v.is_null() { return !m.ends_with('!'); }
    if let Some(i) = m.strip_suffix('!') { return accepts(v, t, i); }
    if let Some(i) = m.strip_suffix('l') { return match v { J::Array(a) => a.iter().all(|x| accepts(x, t, i)), _ => accepts(v, t, i) }; }
    match t {
        "Int" => v.as_i64().is_some_and(|n| i32::try_from(n).is_ok()), "Float" => v.is_number(), "String" => v.is_string(),
        "ID" => v.is_string() || v.is_i64() || v.is_u64(), "Boolean" => v.is_boolean(), "Level" => v == "LOW" || v == "HIGH", _ => true,
    }
}
fn canon(v: &J) -> String {
    match v {
        J::Number(n) if n.is_f64() => { let f = n.as_f64().unwrap(); if f.fract() == 0.0 && f.abs() < 9e15 { format!("{}", f as i64) } else { format!("{f:e}") } }
        J::Array(a) => format!("[{}]", a.iter().map(canon).collect::<Vec<_>>().join(",")),
        J::Object(o) => { let mut e: Vec<String> = o.iter().map(|(k, v)| format!("{}:{}", json!(k), canon(v))).collect(); e.sort(); format!("{{{}}}", e.join(",")) }
        _ => v.to_string(),
    }
}
fn literal(v: &J, t: &str) -> String {
    match v {
        J::String(s) if t == "Level" => s.clone(),
        J::Array(a) => format!("[{}]", a.iter().map(|x| literal(x, t)).collect::<Vec<_>>().join(", ")),
        J::Object(o) => format!("{{{}}}", o.iter().map(|(k, v)| format!("{k}: {}", literal(v, ""))).collect::<Vec<_>>().join(", ")),
        _ => v.to_string(),
    }
}
fn scalar(r: &mut Rng, t: &str) -> J {
    let ints = [json!(0), json!(-1), json!(7), json!(2147483647), json!(-2147483648i64)];
    let wide = [json!(2147483648i64), json!(-2147483649i64), json!(4294967296i64), json!(9007199254740993i64), json!(i64::MAX), json!(i64::MIN), json!(u64::MAX)];
    match t {
        "Int" => r.pick(&ints).clone(),
        "Float" => match r.below(4) { 0 => r.pick(&ints).clone(), 1 => r.pick(&wide).clone(), _ => r.pick(&[json!(1.5), json!(-0.25), json!(1e15), json!(3.0)]).clone() },
        "String" => r.pick(&[json!(""), json!("a"), json!("null"), json!("$x"), json!("é\"\\\n"), json!("12")]).clone(),
        "ID" => match r.below(4) { 0 => r.pick(&ints).clone(), 1 => r.pick(&wide).clone(), _ => r.pick(&[json!("1"), json!(""), json!("x y")]).clone() },
        "Boolean" => json!(r.bool()),
        "Level" => r.pick(&[json!("LOW"), json!("HIGH")]).clone(),
        "Wide" => r.pick(&wide).clone(),
        "In" => if r.chance(1, 3) { json!({"a": 1, "b": ["x", null], "c": {"a": 2}}) } else { json!({"a": 3}) },
        _ => match r.below(5) { 0 => json!({"p": [1, {"q": null}], "z": 0.5}), 1 => json!([]), 2 => json!({}), 3 => scalar(r, "Float"), _ => scalar(r, "String") },
    }
}
fn good(r: &mut Rng, t: &str, m: &str) -> J {
    if let Some(i) = m.strip_suffix('!') { for _ in 0..20 { let v = good(r, t, i); if !v.is_null() { return v; } } return scalar(r, t); }
    if r.chance(1, 8) { return J::Null; }
    if let Some(i) = m.strip_suffix('l') { if r.chance(1, 6) { let v = good(r, t, i); if !v.is_array() { return v; } } return J::Array((0..r.below(4)).map(|_| good(r, t, i)).collect()); }
    scalar(r, t)
}
// one place of an acceptable value replaced
fn spoiled(r: &mut Rng, v: &J) -> J {
    match v {
        J::Array(a) if !a.is_empty() && r.chance(4, 5) => { let mut a = a.clone(); let k = r.below(a.len()); a[k] = spoiled(r, &a[k].clone()); J::Array(a) }
        _ => match r.below(9) { 0 => J::Null, 1 => json!("LOWER"), 2 => json!(1.5), 3 => scalar(r, "Wide"), 4 => json!(true), 5 => json!({"a": 1}), 6 => json!([v]), 7 => json!("HIDDEN"), _ => json!(5) },
    }
}
// ---- a subgraph that says what it was given -------------------------------------------------------------------
fn value(v: &Value<'static, String>, vars: &Map<String, J>) -> Option<J> {
    Some(match v {
        Value::Variable(n) => return vars.get(n).cloned(),
        Value::Int(n) => json!(n.as_i64()), Value::Float(f) => json!(f), Value::String(s) => json!(s), Value::Boolean(b) => json!(b), Value::Null => J::Null, Value::Enum(e) => json!(e),
        Value::List(l) => J::Array(l.iter().map(|x| value(x, vars).unwrap_or(J::Null)).collect()),
        Value::Object(o) => J::Object(o.iter().filter_map(|(k, x)| value(x, vars).map(|x| (k.clone(), x))).collect()),
    })
}
fn answer(sel: &SelectionSet<'static, String>, vars: &Map<String, J>, frags: &BTreeMap<String, SelectionSet<'static, String>>, o: &mut Map<String, J>) {
    for s in &sel.items {
        match s {
            Selection::Field(f) => {
                let k = f.alias.clone().unwrap_or(f.name.clone());
                let sub = || { let mut x = Map::new(); answer(&f.selection_set, vars, frags, &mut x); J::Object(x) };
                let v = match f.name.as_str() {
                    "__typename" => json!("S"), "id" => json!("1"), "s" => sub(),
                    "_entities" => { let n = f.arguments.iter().find_map(|(n, v)| if n == "representations" { value(v, vars).and_then(|x| x.as_array().map(|a| a.len())) } else { None }).unwrap_or(0); J::Array((0..n).map(|_| sub()).collect()) }
                    _ => json!(f.arguments.iter().map(|(n, v)| format!("{n}={}", value(v, vars).map(|x| canon(&x)).unwrap_or("absent".into()))).collect::<String>()),
                };
                o.insert(k, v);
            }
            Selection::InlineFragment(f) => answer(&f.selection_set, vars, frags, o),
            Selection::FragmentSpread(f) => if let Some(s) = frags.get(&f.fragment_name) { answer(s, vars, frags, o) },
        }
    }
}
fn serve(q: &Req) -> Resp {
    let b = q.json();
    let bad = |m: String| Resp::json_of(json!({"errors": [{"message": m}]}));
    let Ok(d) = parse_query::<String>(&q.query()).map(|d| d.into_static()) else { return bad(format!("unreadable {b}")) };
    let frags = d.definitions.iter().filter_map(|x| if let Definition::Fragment(f) = x { Some((f.name.clone(), f.selection_set.clone())) } else { None }).collect();
    for x in &d.definitions {
        let Definition::Operation(op) = x else { continue };
        let (defs, sel) = match op { OperationDefinition::Query(q) => (q.variable_definitions.clone(), &q.selection_set), OperationDefinition::Mutation(q) => (q.variable_definitions.clone(), &q.selection_set), OperationDefinition::SelectionSet(s) => (vec![], s), OperationDefinition::Subscription(s) => (s.variable_definitions.clone(), &s.selection_set) };
        let mut vars = b["variables"].as_object().cloned().unwrap_or_default();
        for n in vars.keys() { if !defs.iter().any(|d| d.name == *n) { return bad(format!("undeclared variable {n} sent: {b}")); } }
        for d in &defs { if !vars.contains_key(&d.name) { if let Some(v) = &d.default_value { vars.insert(d.name.clone(), value(v, &Map::new()).unwrap()); } } }
        let mut o = Map::new();
        answer(sel, &vars, &frags, &mut o);
        return Resp::json_of(json!({"data": o}));
    }
    bad("no operation".into())
}
fn encode(s: &str) -> String { s.bytes().map(|b| if b.is_ascii_alphanumeric() { (b as char).to_string() } else { format!("%{b:02X}") }).collect() }
fn main() {
    let mut run = Run::from_args("nontrivial: an operation with variables, each of another type (scalars, enum, input object, custom scalar; lists and non-null), given, left out, null, of the wrong kind or by default; used at root and entity fields of two subgraphs");
    let subs = Subgraphs::start(serve);
    let mut body = String::from("directive @inaccessible on FIELD_DEFINITION | OBJECT | INTERFACE | UNION | ARGUMENT_DEFINITION | SCALAR | ENUM | ENUM_VALUE | INPUT_OBJECT | INPUT_FIELD_DEFINITION\n");
    let (mut q, mut e) = (String::new(), String::new());
    for (i, t) in TYPES.iter().enumerate() { for (j, m) in MODS.iter().enumerate() {
        q += &format!("  q{i}{j}(x: {}): String @join__field(graph: {})\n", typ(t, m), if (i + j) % 2 == 0 { "A" } else { "B" });
        e += &format!("  e{i}{j}(x: {}): String @join__field(graph: B)\n", typ(t, m));
    } }
    body += &format!("type Query @join__type(graph: A) @join__type(graph: B) {{\n  s: S @join__field(graph: A)\n{q}}}\ntype Mutation @join__type(graph: A) @join__type(graph: B) {{\n{q}}}\ntype S @join__type(graph: A, key: \"id\") @join__type(graph: B, key: \"id\") {{\n  id: ID!\n{e}}}
input In @join__type(graph: A) @join__type(graph: B) {{ a: Int! b: [String] c: In }}
scalar Blob @join__type(graph: A) @join__type(graph: B)
enum Level @join__type(graph: A) @join__type(graph: B) {{ LOW @join__enumValue(graph: A) @join__enumValue(graph: B) HIGH @join__enumValue(graph: A) @join__enumValue(graph: B) HIDDEN @join__enumValue(graph: A) @join__enumValue(graph: B) @inaccessible }}\n");
    let s = sdl(&["a", "b"], &body);
    let mut r = run.rng(15);
    let mut rt = match Router::start("", &s, Some(&subs)) { Ok(r) => r, Err(e) => { run.case("start", &|| String::new(), true, || Err(("the router starts".into(), e.clone()))); run.finish(); } };
    for _ in 0..run.n(900) {
        if !run.time_left() { break; }
        let n = 1 + r.below(4);
        let mutation = r.chance(1, 5);
        let vars: Vec<(String, usize, usize, Option<J>)> = (0..n).map(|k| {
            let (i, j) = (r.below(8), r.below(7));
            let d = if r.chance(1, 3) { let mut d = good(&mut r, TYPES[i], MODS[j]); if MODS[j].ends_with('!') && d.is_null() { d = scalar(&mut r, TYPES[i]); } if d.to_string().contains("18446744073709551615") || TYPES[i] == "Blob" { None } else { Some(d) } } else { None };
            (format!("v{k}"), i, j, d)
        }).collect();
        let mut sel = String::new(); let mut ent = String::new(); let mut uses = vec![];
        for (k, (v, i, j, _)) in vars.iter().enumerate() {
            let at_entity = !mutation && r.chance(1, 3);
            if !at_entity || r.chance(1, 3) { sel += &format!(" r{k}: q{i}{j}(x: ${v})"); uses.push((k, false)); }
            if at_entity { ent += &format!(" t{k}: e{i}{j}(x: ${v})"); uses.push((k, true)); }
        }
        if !ent.is_empty() { sel += &format!(" s {{{ent} }}"); }
        let text = format!("{} Op({}) {{{sel} }}", if mutation { "mutation" } else { "query" }, vars.iter().map(|(v, i, j, d)| format!("${v}: {}{}", typ(TYPES[*i], MODS[*j]), d.as_ref().map(|d| format!(" = {}", literal(d, TYPES[*i]))).unwrap_or_default())).collect::<Vec<_>>().join(", "));
        for _ in 0..4 {
            let mut given = Map::new();
            let spoil = if r.bool() { Some(r.below(n)) } else { None };
            for (k, (v, i, j, _)) in vars.iter().enumerate() {
                let x = good(&mut r, TYPES[*i], MODS[*j]);
                if Some(k) == spoil { if r.chance(1, 4) { continue; } given.insert(v.clone(), spoiled(&mut r, &x)); }
                else if r.chance(4, 5) || MODS[*j].ends_with('!') && r.chance(4, 5) { given.insert(v.clone(), x); }
            }
            if r.chance(1, 6) { given.insert("other".into(), json!("undeclared")); }
            let mut body = json!({"query": text});
            if !given.is_empty() || r.bool() { body["variables"] = J::Object(given.clone()); } else if r.bool() { body["variables"] = J::Null; }
            let chosen = |k: usize| given.get(&vars[k].0).cloned().or(vars[k].3.clone());
            let fine = (0..n).all(|k| match chosen(k) { Some(v) => accepts(&v, TYPES[vars[k].1], MODS[vars[k].2]), None => !MODS[vars[k].2].ends_with('!') });
            subs.take_log();
            let get = !mutation && !body.get("variables").is_some_and(J::is_null) && r.chance(1, 6);
            let resp = if get { rt.send("GET", &format!("/graphql?query={}{}", encode(&text), body.get("variables").map(|v| format!("&variables={}", encode(&v.to_string()))).unwrap_or_default()), &[("accept", "application/json"), ("content-type", "application/json")], b"") } else { rt.post(&body, &[]) };
            let calls = subs.take_log().len();
            let got = resp.json();
            let mut want = Map::new(); let mut we = Map::new();
            for (k, e) in &uses { let v = json!(format!("x={}", chosen(*k).map(|x| canon(&x)).unwrap_or("absent".into()))); if *e { we.insert(format!("t{k}"), v); } else { want.insert(format!("r{k}"), v); } }
            if !we.is_empty() { want.insert("s".into(), J::Object(we)); }
            let alive = rt.alive();
            run.case(if !fine { "refused" } else if mutation { "mutation" } else if get { "get" } else { "query" }, &|| body.to_string(), true, || {
                if !alive { return Err(("the router is up".into(), "it is not".into())); }
                if !fine { return if got["data"].is_null() && got["errors"].as_array().is_some_and(|a| !a.is_empty()) && calls == 0 { Ok(()) } else { Err(("refused before any subgraph is called".into(), format!("{} {got} after {calls} calls", resp.status))) }; }
                if got.get("errors").is_some() || got["data"] != J::Object(want.clone()) { return Err((J::Object(want.clone()).to_string(), format!("{} {got}", resp.status))); }
                Ok(())
            });
        }
    }
    run.finish()
}
