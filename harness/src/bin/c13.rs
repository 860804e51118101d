// C13: requests in flight at the same time. A request and near copies of it, each with one detail changed, are sent at
// once; every answer is the one the same request gets when it is sent alone, and unlike requests are fetched apart.
use graphql_tools::parser::query::*;
use serde_json::{json, Map, Value as J};
use std::collections::BTreeSet;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Arc;
use vh::e2e::*;
use vh::*;

const BODY: &str = r#"
scalar JSON @join__type(graph: A) @join__type(graph: B)
type Query @join__type(graph: A) @join__type(graph: B) { a(x: JSON, y: JSON): String @join__field(graph: A) b(x: JSON): String @join__field(graph: B) }
type Mutation @join__type(graph: A) { set(x: JSON): String @join__field(graph: A) }
"#;
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct R { get: bool, path: &'static str, query: String, op: Option<&'static str>, vars: J, ext: J, headers: Vec<(&'static str, String)> }
fn key(q: &R) -> String { let mut h = q.headers.clone(); h.sort_by_key(|x| x.0); format!("{} {} {} {:?} {} {} {h:?}", q.get, q.path, q.query, q.op, q.vars, q.ext) }
fn pct(s: &str) -> String { s.bytes().map(|b| if b.is_ascii_alphanumeric() { (b as char).to_string() } else { format!("%{b:02X}") }).collect() }
fn send(port: u16, q: &R) -> Resp {
    let h: Vec<(&str, &str)> = q.headers.iter().map(|(k, v)| (*k, v.as_str())).collect();
    let mut body = json!({"query": q.query});
    if !q.vars.is_null() { body["variables"] = q.vars.clone(); }
    if !q.ext.is_null() { body["extensions"] = q.ext.clone(); }
    if let Some(o) = q.op { body["operationName"] = json!(o); }
    for _ in 0..3 {
        let r = if q.get {
            let s: Vec<String> = body.as_object().unwrap().iter().map(|(k, v)| format!("{k}={}", pct(&v.as_str().map(|s| s.to_string()).unwrap_or_else(|| v.to_string())))).collect();
            http(port, "GET", &format!("{}?{}", q.path, s.join("&")), &[&[("content-type", "application/json")], &h[..]].concat(), b"")
        } else { http(port, "POST", q.path, &[&[("content-type", "application/json")], &h[..]].concat(), body.to_string().as_bytes()) };
        if let Ok(r) = r { return r; }
    }
    Resp::default()
}
const VALUES: [&str; 28] = ["[[1,2]]", "[[],1]", "[1,[]]", "{\"a\":{\"b\":1,\"c\":2}}", "null", "true", "false", "0", "1", "1.0", "\"1\"", "\"true\"", "\"\"", "[]", "[1]", "[[1]]", "[1,2]", "[[1],2]", "[1,[2]]", "{}", "{\"a\":1}", "{\"a\":null}", "{\"b\":1}", "{\"a\":{\"b\":1}}", "{\"a\":1,\"b\":2}", "18446744073709551615", "-1", "9223372036854775808"];
fn val(r: &mut Rng) -> J { serde_json::from_str(*r.pick(&VALUES)).unwrap() }
const WORDS: [&str; 8] = ["1", "2", "1,2", "é", "è", "", "12", "é1"];
fn base(r: &mut Rng) -> R {
    let query = match r.below(4) {
        0 => "query One($v: JSON, $w: JSON) { r1: a(x: $v) r2: b(x: $w) } query Two($v: JSON, $w: JSON) { r1: a(x: $w) r2: b(x: $v) }".to_string(),
        1 => "query One($v: JSON, $w: JSON) { r1: a(x: $v, y: $w) }".to_string(),
        2 => "query One($v: JSON, $w: JSON) { a(x: [$v, 1]) b(x: {k: $w}) }".to_string(),
        _ => format!("query One($v: JSON, $w: JSON) {{ a(x: $v) c: a(x: {}) b(x: $w) }}", ["\"A\"", "A", "[A]", "1"][r.below(4)]),
    };
    let mut vars = json!({}); if r.chance(3, 4) { vars["v"] = val(r); } if r.bool() { vars["w"] = val(r); }
    R { get: r.chance(1, 6), path: "/g/one", query, op: Some("One"), vars, ext: if r.bool() { json!({"e": val(r)}) } else { J::Null }, headers: (0..r.below(4)).map(|_| (*r.pick(&["x-a", "x-b"]), r.pick(&WORDS).to_string())).collect() }
}
fn flat(v: &J, out: &mut Vec<J>) { match v { J::Array(a) => a.iter().for_each(|x| flat(x, out)), x => out.push(x.clone()) } }
// the same scalars, nested another way
fn nest(r: &mut Rng, l: &[J]) -> J { let mut o = vec![]; let mut i = 0; while i < l.len() { let n = 1 + r.below(l.len() - i); if r.bool() && (n < l.len() || r.chance(1, 3)) { o.push(nest(r, &l[i..i + n])); i += n; } else { o.push(l[i].clone()); i += 1; } if r.chance(1, 8) { o.push(json!([])); } } J::Array(o) }
fn deep(r: &mut Rng, v: &mut J) {
    if let J::Array(_) = v { if r.bool() { let mut l = vec![]; flat(v, &mut l); *v = nest(r, &l); return; } }
    match v {
        J::Object(o) if !o.is_empty() && r.bool() => { let k = o.keys().nth(r.below(o.len())).unwrap().clone(); deep(r, &mut o[&k]) }
        J::Array(a) if !a.is_empty() && r.bool() => { let k = r.below(a.len()); deep(r, &mut a[k]) }
        v => *v = match r.below(4) { 0 => json!([v.clone()]), 1 => json!({"a": v.clone()}), 2 => json!(v.to_string()), _ => val(r) },
    }
}
fn vary(r: &mut Rng, q: &R, headers: bool) -> R {
    let mut q = q.clone();
    match r.below(if headers { 12 } else { 8 }) {
        0 | 1 => { let k = *r.pick(&["v", "w"]); let mut v = q.vars.get(k).cloned().unwrap_or(json!(0)); deep(r, &mut v); q.vars[k] = v; }
        2 => { let (a, b) = (q.vars.get("v").cloned(), q.vars.get("w").cloned()); let mut m = Map::new(); if let Some(x) = b { m.insert("v".into(), x); } if let Some(x) = a { m.insert("w".into(), x); } q.vars = J::Object(m); }
        3 => { if let J::Object(o) = &mut q.vars { let k = *r.pick(&["v", "w"]); if o.remove(k).is_none() { o.insert(k.into(), J::Null); } } }
        4 => { if q.ext.is_null() { q.ext = json!({"e": val(r)}); } else { deep(r, &mut q.ext["e"]); } }
        5 => q.path = if q.path == "/g/one" { "/g/two" } else { "/g/one" },
        6 => q.get = !q.get,
        7 => { if q.query.contains("Two") { q.op = Some("Two"); } else { q.query = q.query.replacen("\"A\"", "$v", 1).replacen("[A]", "A", 1).replacen("1}", "2}", 1).replacen("r1:", "r9:", 1); } }
        8 if !q.headers.is_empty() => { let k = r.below(q.headers.len()); q.headers[k].1 = r.pick(&WORDS).to_string(); }
        9 if !q.headers.is_empty() => { let k = r.below(q.headers.len()); q.headers[k].0 = if q.headers[k].0 == "x-a" { "x-b" } else { "x-a" }; }
        10 if q.headers.len() > 1 => { let k = r.below(q.headers.len() - 1); q.headers.swap(k, k + 1); }
        11 if !q.headers.is_empty() && r.bool() => { let k = r.below(q.headers.len()); q.headers.remove(k); }
        _ if headers => q.headers.push((*r.pick(&["x-a", "x-b"]), r.pick(&WORDS).to_string())),
        _ => {}
    }
    q
}
fn main() {
    let mut run = Run::from_args("what arrives together is shared only where it is the same: a case counts if the batch has at least three unlike requests");
    let wait = Arc::new(AtomicU64::new(0));
    let w = wait.clone();
    let subs = Subgraphs::start(move |q| {
        std::thread::sleep(std::time::Duration::from_millis(w.load(SeqCst)));
        let body: J = serde_json::from_slice(&q.body).unwrap_or(J::Null);
        let text = body["query"].as_str().unwrap_or("");
        let heads: Vec<_> = q.headers.iter().filter(|h| h.0.starts_with("x-")).collect();
        let said = format!("{text} {} {heads:?}", body["variables"]);
        let mut m = Map::new();
        if let Ok(d) = parse_query::<String>(text) { for x in &d.definitions {
            let set = match x { Definition::Operation(OperationDefinition::Query(q)) => &q.selection_set, Definition::Operation(OperationDefinition::Mutation(q)) => &q.selection_set, Definition::Operation(OperationDefinition::SelectionSet(s)) => s, _ => continue };
            for s in &set.items { if let Selection::Field(f) = s { m.insert(f.alias.clone().unwrap_or(f.name.clone()), json!(said)); } }
        } }
        Resp { status: 200, headers: vec![("content-type".into(), "application/json".into())], body: json!({"data": m}).to_string().into_bytes() }
    });
    let sdl = sdl(&["a", "b"], BODY);
    let common = "csrf: { enabled: false }\nheaders: { all: { request: [ { propagate: { named: [x-a, x-b] } } ] } }\nhttp_extra: graphql_endpoint: \"/g/{t}\"\n";
    // (name, settings, whether headers are varied, whether the router itself shares)
    let modes = [
        ("all", "traffic_shaping: { router: { dedupe: { enabled: true, headers: all } }, all: { dedupe_enabled: false } }\n", true),
        ("none", "traffic_shaping: { router: { dedupe: { enabled: true, headers: none } }, all: { dedupe_enabled: false } }\n", false),
        ("include", "traffic_shaping: { router: { dedupe: { enabled: true, headers: { include: [X-A, x-b] } } }, all: { dedupe_enabled: false } }\n", true),
        ("both", "traffic_shaping: { router: { dedupe: { enabled: true, headers: { include: [X-B, x-a] } } }, all: { dedupe_enabled: true } }\n", true),
        ("subgraph", "traffic_shaping: { router: { dedupe: { enabled: false } }, all: { dedupe_enabled: true } }\n", true),
    ];
    let mut routers = vec![];
    for m in &modes { match Router::start(&format!("{common}{}", m.1), &sdl, Some(&subs)) { Ok(r) => routers.push(r), Err(e) => { run.case("start", &|| m.1.into(), true, || Err(("the router starts".into(), e.clone()))); run.finish() } } }
    let mut shared = 0u64;
    let n = run.n(400);
    for i in 0..n {
        if !run.time_left() { break; }
        let mut r = run.rng(i);
        let k = (i % modes.len() as u64) as usize;
        let (name, _, heads) = modes[k];
        let port = routers[k].port;
        if i % 7 == 6 {
            let q = R { get: false, path: "/g/one", query: "mutation M($v: JSON) { set(x: $v) }".into(), op: None, vars: json!({"v": val(&mut r)}), ext: J::Null, headers: vec![] };
            wait.store(25, SeqCst); subs.take_log();
            let hs: Vec<_> = (0..5).map(|_| { let q = q.clone(); std::thread::spawn(move || send(port, &q)) }).collect();
            let got: Vec<Resp> = hs.into_iter().map(|h| h.join().unwrap()).collect();
            let hits = subs.take_log().len();
            run.case("mutations", &|| format!("{name}: 5 x {}", key(&q)), true, || Run::eq(format!("{:?} {}", [200; 5], 5), format!("{:?} {hits}", got.iter().map(|g| g.status).collect::<Vec<_>>())));
            continue;
        }
        let b = base(&mut r);
        let mut all = vec![b.clone()];
        for _ in 0..9 { let from = r.pick(&all).clone(); let from = if r.bool() { b.clone() } else { from }; all.push(vary(&mut r, &from, heads)); }
        for _ in 0..2 { let x = r.pick(&all).clone(); all.push(x); }
        wait.store(0, SeqCst);
        let alone: Vec<J> = all.iter().map(|q| serde_json::from_slice(&send(port, q).body).unwrap_or(J::Null)).collect();
        wait.store(25, SeqCst); subs.take_log();
        let hs: Vec<_> = all.iter().map(|q| { let q = q.clone(); std::thread::spawn(move || send(port, &q)) }).collect();
        let got: Vec<J> = hs.into_iter().map(|h| serde_json::from_slice(&h.join().unwrap().body).unwrap_or(J::Null)).collect();
        let hits = subs.take_log().iter().filter(|q| q.path == "/a").count();
        let unlike: BTreeSet<String> = all.iter().map(key).collect();
        let answered = all.iter().zip(&alone).filter(|(_, a)| a.get("data").is_some_and(|d| !d.is_null())).map(|(q, _)| key(q)).collect::<BTreeSet<_>>().len();
        if hits < all.len() { shared += 1; }
        for (j, q) in all.iter().enumerate() {
            run.case(name, &|| format!("{name}: {} among {:?}", key(q), unlike), unlike.len() > 2, || Run::eq(alone[j].to_string(), got[j].to_string()));
        }
        if name != "subgraph" && name != "both" {
            run.case("apart", &|| format!("{name}: {unlike:?}"), unlike.len() > 2, || if hits >= answered { Ok(()) } else { Err((format!("{answered} or more fetches"), format!("{hits}"))) });
        }
    }
    eprintln!("batches with sharing: {shared}");
    run.finish()
}
