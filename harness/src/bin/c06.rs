// C06: CORS. Oracle: the documented reading of the `cors` block.
use serde_json::{json, Value as J};
use std::collections::BTreeMap;
use vh::e2e::{sdl, Resp, Router, Subgraphs};
use vh::*;

const ORIGINS: &[&str] = &["https://a.example.com", "https://b.example.com", "http://a.example.com", "https://a.example.com:8443", "https://a.example.com.evil.net", "https://aXexample.com", "HTTPS://A.EXAMPLE.COM", "null", "https://other.org", "https://other.org/", "https://sub.b.example.com"];
const PATTERNS: &[(&str, fn(&str) -> bool)] = &[
    (r"^https://.*\.example\.com$", |o| o.starts_with("https://") && o.ends_with(".example.com") && o.len() >= "https://.example.com".len()),
    (r"^https://a\.example\.com(:\d+)?$", |o| o == "https://a.example.com" || o == "https://a.example.com:8443"),
    (r"other", |o| o.contains("other")),
    (r"^null$", |o| o == "null"),
    (r"b\.example", |o| o.contains("b.example")),
];
#[derive(Clone, Debug, Default)]
struct Set { creds: Option<bool>, allow: Option<Vec<String>>, methods: Option<Vec<String>>, expose: Option<Vec<String>>, age: Option<u64>, pre: Vec<(String, String)> }
#[derive(Clone, Debug, Default)]
struct Policy { origins: Option<Vec<String>>, pats: Option<Vec<usize>>, set: Set }
#[derive(Clone, Debug, Default)]
struct Cors { enabled: bool, any: bool, set: Set, policies: Vec<Policy> }

fn set_json(s: &Set) -> J {
    let mut o = json!({});
    if let Some(x) = s.creds { o["allow_credentials"] = json!(x); }
    if let Some(x) = &s.allow { o["allow_headers"] = json!(x); }
    if let Some(x) = &s.methods { o["methods"] = json!(x); }
    if let Some(x) = &s.expose { o["expose_headers"] = json!(x); }
    if let Some(x) = s.age { o["max_age"] = json!(x); }
    if !s.pre.is_empty() { o["preflight_response_headers"] = J::Object(s.pre.iter().map(|(k, v)| (k.clone(), json!(v))).collect()); }
    o
}
fn cors_json(c: &Cors) -> J {
    let mut o = set_json(&c.set);
    o["enabled"] = json!(c.enabled);
    o["allow_any_origin"] = json!(c.any);
    o["policies"] = J::Array(c.policies.iter().map(|p| {
        let mut q = set_json(&p.set);
        if let Some(x) = &p.origins { q["origins"] = json!(x); }
        if let Some(x) = &p.pats { q["match_origin"] = json!(x.iter().map(|i| PATTERNS[*i].0).collect::<Vec<_>>()); }
        q
    }).collect());
    o
}
fn non_empty(l: &Option<Vec<String>>) -> Option<String> { l.as_ref().filter(|v| !v.is_empty()).map(|v| v.join(", ")) }
type Map = BTreeMap<String, String>;
// the headers named by CORS on the answer; `vary`: what the response varies by before CORS
fn want(c: &Cors, options: bool, origin: Option<&str>, method: Option<&str>, headers: Option<&str>, before: &Map) -> Map {
    let mut m = before.clone();
    if !c.enabled || (!c.any && c.policies.is_empty()) { return m; }
    let Some(o) = origin else { return m };
    let own = if c.any { Some(Set::default()) } else {
        c.policies.iter().find(|p| p.origins.as_ref().is_some_and(|l| l.iter().any(|x| x == o)) || p.pats.as_ref().is_some_and(|l| l.iter().any(|i| PATTERNS[*i].1(o)))).map(|p| p.set.clone())
    };
    let put = |m: &mut Map, k: &str, v: String| { m.insert(k.into(), v); };
    let Some(p) = own else { put(&mut m, "access-control-allow-origin", "null".into()); return m };
    let vary = |m: &mut Map, t: &str| {
        let l = m.get("vary").cloned().unwrap_or_default();
        if !l.split(',').any(|x| x.trim().eq_ignore_ascii_case(t)) { m.insert("vary".into(), if l.is_empty() { t.to_string() } else { format!("{l}, {t}") }); }
    };
    put(&mut m, "access-control-allow-origin", o.into());
    if o != "null" { vary(&mut m, "Origin"); }
    if let Some(v) = non_empty(&p.methods).or(non_empty(&c.set.methods)).or(method.map(|s| s.to_string())) { put(&mut m, "access-control-allow-methods", v); }
    match non_empty(&p.allow).or(non_empty(&c.set.allow)) {
        Some(v) => put(&mut m, "access-control-allow-headers", v),
        None => if let Some(h) = headers { put(&mut m, "access-control-allow-headers", h.into()); vary(&mut m, "Access-Control-Request-Headers"); }
    }
    if p.creds.or(c.set.creds) == Some(true) { put(&mut m, "access-control-allow-credentials", "true".into()); }
    if let Some(v) = non_empty(&p.expose).or(non_empty(&c.set.expose)) { put(&mut m, "access-control-expose-headers", v); }
    if let Some(v) = p.age.or(c.set.age) { put(&mut m, "access-control-max-age", v.to_string()); }
    if options { for (k, v) in c.set.pre.iter().chain(&p.pre) { put(&mut m, &k.to_ascii_lowercase(), v.clone()); } }
    m
}
fn gen_list(g: &mut Rng, pool: &[&str]) -> Option<Vec<String>> { match g.below(4) { 0 | 1 => None, 2 => Some((0..g.below(3)).map(|_| g.pick(pool).to_string()).collect()), _ => Some(vec![g.pick(pool).to_string()]) } }
fn gen_set(g: &mut Rng) -> Set {
    Set {
        creds: *g.pick(&[None, Some(true), Some(false)]),
        allow: gen_list(g, &["content-type", "Authorization", "x-a"]),
        methods: gen_list(g, &["GET", "POST", "OPTIONS", "DELETE"]),
        expose: gen_list(g, &["x-out", "X-Other"]),
        age: *g.pick(&[None, None, Some(0), Some(1), Some(86400), Some(u64::MAX)]),
        pre: if g.chance(1, 2) { vec![] } else { let mut v: Vec<(String, String)> = vec![]; for _ in 0..g.below(3) + 1 { let k = g.pick(&["Cache-Control", "x-pre", "vary", "access-control-max-age", "access-control-allow-origin", "x-pre-2"]).to_string(); if !v.iter().any(|x| x.0 == k) { let t = format!("v{}", g.below(9)); v.push((k, t)); } } v },
    }
}
fn gen(g: &mut Rng) -> Cors {
    Cors {
        enabled: !g.chance(1, 12), any: g.chance(1, 5), set: gen_set(g),
        policies: (0..*g.pick(&[0usize, 1, 1, 2, 2, 3])).map(|_| Policy {
            origins: if g.chance(1, 3) { None } else { Some((0..g.below(3)).map(|_| g.pick(ORIGINS).to_string()).collect()) },
            pats: if g.bool() { None } else { Some((0..g.below(3)).map(|_| g.below(PATTERNS.len())).collect()) },
            set: gen_set(g),
        }).collect(),
    }
}
fn main() {
    let mut run = Run::from_args("nontrivial: CORS is enabled and an origin is sent; random cors blocks (global settings and up to 3 policies, each setting left out, empty or given) on the compiled router, 11 origins (other scheme, port, case, suffix and prefix look-alikes), POST, GET, refused requests and preflights with and without hints, with and without a Vary header of the response");
    let mut g = run.rng(6);
    let sdl = sdl(&["a"], "type Query @join__type(graph: A) { v: Int }");
    const VARIES: [&str; 8] = ["Accept", "X-Origin-Region", "accept, ORIGIN", "Originally,Accept", "origin ,Access-Control-Request-Headers-Of", "Accept-Origin, Access-Control-Request-Header", "access-control-request-headers", "A,B , C"];
    let which = std::sync::Arc::new(std::sync::atomic::AtomicUsize::new(0));
    let w2 = which.clone();
    let subs = Subgraphs::start(move |_| Resp::json_of(json!({"data": {"v": 1}})).with("vary", VARIES[w2.load(std::sync::atomic::Ordering::SeqCst)]).with("x-out", "1"));
    let first = Cors { enabled: true, set: Set { creds: Some(true), ..Default::default() }, policies: vec![Policy { origins: Some(vec![ORIGINS[0].into()]), set: Set { creds: Some(false), ..Default::default() }, ..Default::default() }, Policy { pats: Some(vec![0]), ..Default::default() }], ..Default::default() };
    let total = run.n(45);
    for k in 0..total {
        if !run.time_left() { break; }
        let c = if k == 0 { first.clone() } else { gen(&mut g) };
        let vary = g.bool();
        let text = cors_json(&c).to_string();
        let hdr = if vary { "headers: { all: { response: [ { propagate: { named: vary, algorithm: last } } ] } }\n" } else { "" };
        let r = match Router::start(&format!("cors: {text}\n{hdr}"), &sdl, Some(&subs)) { Ok(r) => r, Err(e) => { run.case("cors", &|| text.clone(), true, || Err(("the router starts".into(), e.clone()))); continue; } };
        for oi in 0..=ORIGINS.len() {
            let origin = ORIGINS.get(oi).copied();
            for kind in ["query", "get", "refused", "OPTIONS"] {
                if kind != "OPTIONS" && kind != "query" && !g.chance(1, 3) { continue; }
                let method = if kind == "OPTIONS" || g.chance(1, 4) { *g.pick(&[None, Some("POST"), Some("PUT")]) } else { None };
                let headers = if kind == "OPTIONS" || g.chance(1, 4) { *g.pick(&[None, Some("content-type, x-b"), Some("x-c")]) } else { None };
                let listed = VARIES[if g.bool() { 0 } else { g.below(VARIES.len()) }];
                which.store(VARIES.iter().position(|x| *x == listed).unwrap(), std::sync::atomic::Ordering::SeqCst);
                run.case("cors", &|| format!("cors: {text} vary: {vary} {listed} {kind} origin={origin:?} request-method={method:?} request-headers={headers:?}"), c.enabled && origin.is_some(), || {
                    let mut h = vec![("content-type", "application/json")];
                    if let Some(x) = origin { h.push(("origin", x)); }
                    if let Some(x) = method { h.push(("access-control-request-method", x)); }
                    if let Some(x) = headers { h.push(("access-control-request-headers", x)); }
                    let active = c.enabled && (c.any || !c.policies.is_empty());
                    subs.take_log();
                    let resp = match kind {
                        "query" => r.send("POST", "/graphql", &h, br#"{"query":"{ v }"}"#),
                        "get" => r.send("GET", "/graphql?query=%7Bv%7D", &h, b""),
                        "refused" => r.send("POST", "/graphql", &h, br#"{"query":"{ nothing }"}"#),
                        _ => r.send("OPTIONS", "/graphql", &h, b""),
                    };
                    if kind == "OPTIONS" {
                        if active { Run::eq((204, 0, 0), (resp.status, resp.body.len(), subs.take_log().len()))?; }
                    } else if kind != "refused" && resp.json() != json!({"data": {"v": 1}}) { return Err(("the query is answered".into(), format!("{} {}", resp.status, resp.text()))); }
                    let mut before = Map::new();
                    if vary && (kind == "query" || kind == "get") { before.insert("vary".into(), listed.into()); }
                    let w = want(&c, kind == "OPTIONS", origin, method, headers, &before);
                    let mut got = Map::new();
                    for (k, v) in &resp.headers {
                        let k = k.to_ascii_lowercase();
                        if k.starts_with("access-control-") || k == "vary" || k.starts_with("x-pre") || (k == "cache-control" && kind == "OPTIONS") { got.entry(k).and_modify(|x| { x.push_str(" | "); x.push_str(v) }).or_insert(v.clone()); }
                    }
                    Run::eq(w, got)
                });
            }
        }
    }
    run.finish()
}
