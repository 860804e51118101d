// C05: header rules. Oracle: the documented rules, read off the rule list and the headers.
use hive_router::config::parse_yaml_config;
use hive_router::executor::execution::client_request_details::{ClientRequestDetails, JwtRequestDetails, OperationDetails};
use hive_router::executor::headers::{compile::compile_headers_plan, request::modify_subgraph_request_headers, response::{apply_subgraph_response_headers, ResponseHeaderAggregator}};
use http::{HeaderMap, HeaderName, HeaderValue};
use ntex::http::HeaderMap as NtexHeaderMap;
use serde_json::{json, Value as J};
use std::collections::BTreeMap;
use vh::e2e::{sdl, Resp, Router, Subgraphs};
use vh::*;

type Hs = Vec<(String, String)>;
type Map = BTreeMap<String, Vec<String>>;
const HOP: &[&str] = &["connection", "keep-alive", "proxy-authenticate", "proxy-authorization", "te", "trailer", "transfer-encoding", "upgrade", "proxy-connection", "host", "content-length"];
const NEVER_JOIN: &[&str] = &["set-cookie", "www-authenticate"];
const NAMES: &[&str] = &["x-a", "x-b", "x-secret-k", "authorization", "set-cookie", "www-authenticate", "vary", "connection", "te", "content-length", "content-type", "keep-alive", "proxy-authorization", "host", "upgrade"];
// pattern, and what it matches among the names
const PATTERNS: &[(&str, fn(&str) -> bool)] = &[
    ("^x-", |n| n.starts_with("x-")),
    ("^x-secret", |n| n.starts_with("x-secret")),
    ("^(x|s|w|v|a|h|t|k|p|u|con)", |n| ["x", "s", "w", "v", "a", "h", "t", "k", "p", "u", "con"].iter().any(|p| n.starts_with(p))),
    ("^(set-cookie|vary)$", |n| n == "set-cookie" || n == "vary"),
    ("conn|content", |n| n.contains("conn") || n.contains("content")),
    ("-b$", |n| n.ends_with("-b")),
    ("^nothing$", |_| false),
];
#[derive(Clone, Debug)]
enum Rule {
    Named { names: Vec<String>, rename: Option<String>, default: Option<String> },
    Match { include: Vec<usize>, exclude: Vec<usize> },
    Insert { name: String, value: String },
    InsertSubgraph { name: String },
    RemoveNamed(Vec<String>),
    RemoveMatch { include: Vec<usize>, exclude: Vec<usize> },
}
fn hit(ps: &[usize], n: &str) -> bool { ps.iter().any(|p| PATTERNS[*p].1(n)) }
fn pats(ps: &[usize]) -> J { if ps.len() == 1 { json!(PATTERNS[ps[0]].0) } else { json!(ps.iter().map(|p| PATTERNS[*p].0).collect::<Vec<_>>()) } }
fn list(ns: &[String]) -> J { if ns.len() == 1 { json!(ns[0]) } else { json!(ns) } }
fn rule_json(r: &Rule, algo: Option<&str>) -> J {
    let mut o = match r {
        Rule::Named { names, rename, default } => { let mut o = json!({"named": list(names)}); if let Some(x) = rename { o["rename"] = json!(x); } if let Some(x) = default { o["default"] = json!(x); } json!({"propagate": o}) }
        Rule::Match { include, exclude } => { let mut o = json!({"matching": pats(include)}); if !exclude.is_empty() { o["exclude"] = json!(exclude.iter().map(|p| PATTERNS[*p].0).collect::<Vec<_>>()); } json!({"propagate": o}) }
        Rule::Insert { name, value } => json!({"insert": {"name": name, "value": value}}),
        Rule::InsertSubgraph { name } => json!({"insert": {"name": name, "expression": ".subgraph.name"}}),
        Rule::RemoveNamed(ns) => json!({"remove": {"named": list(ns)}}),
        Rule::RemoveMatch { include, exclude } => { let mut o = json!({"matching": pats(include)}); if !exclude.is_empty() { o["exclude"] = json!(exclude.iter().map(|p| PATTERNS[*p].0).collect::<Vec<_>>()); } json!({"remove": o}) }
    };
    if let Some(a) = algo { for k in ["propagate", "insert"] { if let Some(x) = o.get_mut(k) { x["algorithm"] = json!(a); } } }
    o
}
fn lower(n: &str) -> String { n.to_ascii_lowercase() }
fn hop(n: &str) -> bool { HOP.contains(&n) }
fn lines(h: &Hs, n: &str) -> Vec<String> { h.iter().filter(|x| x.0 == n).map(|x| x.1.clone()).collect() }
fn keys(h: &Hs) -> Vec<String> { let mut v: Vec<String> = h.iter().map(|x| x.0.clone()).collect(); v.sort(); v.dedup(); v }

fn want_request(rules: &[Rule], subgraph: &str, client: &Hs) -> Map {
    let mut out: Map = Map::new();
    for r in rules {
        match r {
            Rule::Named { names, rename, default } => {
                let mut found = false;
                for n in names.iter().map(|n| lower(n)) {
                    let to = rename.as_ref().map(|r| lower(r)).unwrap_or(n.clone());
                    if hop(&n) || hop(&to) { continue; }
                    for v in lines(client, &n) { found = true; out.entry(to.clone()).or_default().push(v); }
                }
                let to = rename.as_ref().map(|r| lower(r)).unwrap_or(lower(&names[0]));
                if let (false, Some(d), false) = (found, default, hop(&to)) { out.entry(to).or_default().push(d.clone()); }
            }
            Rule::Match { include, exclude } => for n in keys(client) { if !hop(&n) && hit(include, &n) && !hit(exclude, &n) { out.entry(n.clone()).or_default().extend(lines(client, &n)); } },
            Rule::Insert { .. } | Rule::InsertSubgraph { .. } => {
                let (n, v) = match r { Rule::Insert { name, value } => (lower(name), value.clone()), Rule::InsertSubgraph { name } => (lower(name), subgraph.to_string()), _ => unreachable!() };
                if !hop(&n) { let e = out.entry(n.clone()).or_default(); if !NEVER_JOIN.contains(&n.as_str()) { e.clear(); } e.push(v); }
            }
            Rule::RemoveNamed(ns) => for n in ns { out.remove(&lower(n)); },
            Rule::RemoveMatch { include, exclude } => out.retain(|n, _| !(hit(include, n) && !hit(exclude, n))),
        }
    }
    out.retain(|_, v| !v.is_empty());
    out
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Algo { First, Last, Append }
impl Algo { fn text(self) -> &'static str { match self { Algo::First => "first", Algo::Last => "last", Algo::Append => "append" } } }
fn want_response(rules: &dyn Fn(&str) -> Vec<Rule>, algo: Algo, subs: &[(String, Hs)]) -> Map {
    let owned = |n: &str| hop(n) || n == "content-type";
    let mut out: Map = Map::new();
    let write = |out: &mut Map, n: &str, v: &str| {
        let e = out.entry(n.to_string()).or_default();
        if NEVER_JOIN.contains(&n) || algo == Algo::Append || e.is_empty() { e.push(v.to_string()); } else if algo == Algo::Last { *e = vec![v.to_string()]; }
    };
    // one header of one response: separate values if never joined, else one value
    let pass = |out: &mut Map, h: &Hs, n: &str, to: &str| -> bool {
        let ls = lines(h, n);
        if ls.is_empty() { return false; }
        if NEVER_JOIN.contains(&n) { for l in &ls { write(out, to, l); } } else { write(out, to, &ls.join(", ")); }
        true
    };
    for (sub, h) in subs {
        for r in rules(sub) {
            match &r {
                Rule::Named { names, rename, default } => {
                    let mut found = false;
                    for n in names.iter().map(|n| lower(n)) {
                        let to = rename.as_ref().map(|r| lower(r)).unwrap_or(n.clone());
                        if owned(&n) || owned(&to) { continue; }
                        found |= pass(&mut out, h, &n, &to);
                    }
                    let to = rename.as_ref().map(|r| lower(r)).unwrap_or(lower(&names[0]));
                    if let (false, Some(d), false) = (found, default, owned(&to)) { write(&mut out, &to, d); }
                }
                Rule::Match { include, exclude } => for n in keys(h) { if !owned(&n) && hit(include, &n) && !hit(exclude, &n) { pass(&mut out, h, &n, &n); } },
                Rule::Insert { name, value } => if !owned(&lower(name)) { write(&mut out, &lower(name), value); },
                Rule::InsertSubgraph { name } => if !owned(&lower(name)) { write(&mut out, &lower(name), sub); },
                Rule::RemoveNamed(ns) => for n in ns { out.remove(&lower(n)); },
                Rule::RemoveMatch { include, exclude } => out.retain(|n, _| !(hit(include, n) && !hit(exclude, n))),
            }
        }
    }
    for (n, v) in out.iter_mut() { if !NEVER_JOIN.contains(&n.as_str()) { *v = vec![v.join(", ")]; } }
    out
}
fn gen_rules(g: &mut Rng, max: usize, defaults: bool) -> Vec<Rule> {
    let case = |g: &mut Rng, n: &str| if g.chance(1, 4) { n.to_uppercase() } else { n.to_string() };
    let set = |g: &mut Rng| -> Vec<usize> { let mut v = vec![g.below(PATTERNS.len())]; if g.chance(1, 3) { v.push(g.below(PATTERNS.len())); } v };
    (0..g.below(max + 1)).map(|i| {
        let n = *g.pick(NAMES);
        let n = case(g, n);
        match g.below(10) {
            0..=3 => {
                let mut names = vec![n];
                if g.chance(1, 3) { let m = *g.pick(NAMES); let m = case(g, m); if !m.eq_ignore_ascii_case(&names[0]) { names.push(m); } }
                let one = names.len() == 1;
                Rule::Named { names, rename: (one && g.chance(1, 2)).then(|| { let m = *g.pick(NAMES); case(g, m) }), default: (one && defaults && g.chance(1, 3)).then(|| format!("d{i}")) }
            }
            4..=5 => Rule::Match { include: set(g), exclude: if g.bool() { set(g) } else { vec![] } },
            6 => Rule::Insert { name: n, value: format!("i{i}") },
            7 => Rule::InsertSubgraph { name: n },
            8 => Rule::RemoveNamed(vec![n]),
            _ => Rule::RemoveMatch { include: set(g), exclude: if g.bool() { set(g) } else { vec![] } },
        }
    }).collect()
}
fn gen_headers(g: &mut Rng) -> Hs {
    let mut k = 0;
    (0..g.below(8)).map(|_| { k += 1; (g.pick(NAMES).to_string(), format!("v{k}")) }).collect()
}
fn config(all: &[Rule], own: &[Rule], side: &str, algo: Option<&str>) -> J {
    let l = |rs: &[Rule]| json!({ side: rs.iter().map(|r| rule_json(r, algo)).collect::<Vec<_>>() });
    json!({ "all": l(all), "subgraphs": { "accounts": l(own) } })
}
fn to_map<'a>(it: impl Iterator<Item = (&'a HeaderName, &'a [u8])>) -> Map {
    let mut m: Map = Map::new();
    for (k, v) in it { m.entry(k.as_str().to_string()).or_default().push(String::from_utf8_lossy(v).into_owned()); }
    m
}
fn details(headers: NtexHeaderMap, url: &http::Uri) -> ClientRequestDetails<'_> {
    ClientRequestDetails { method: &http::Method::POST, url, headers: headers.into(), operation: OperationDetails { name: None, query: "{ __typename }", kind: "query" }, jwt: JwtRequestDetails::Unauthenticated.into(), path_params: Default::default() }
}
fn hm(h: &Hs) -> HeaderMap { let mut m = HeaderMap::new(); for (k, v) in h { m.append(HeaderName::from_bytes(k.as_bytes()).unwrap(), HeaderValue::from_str(v).unwrap()); } m }
fn nm(h: &Hs) -> NtexHeaderMap { let mut m = NtexHeaderMap::new(); for (k, v) in h { m.append(HeaderName::from_bytes(k.as_bytes()).unwrap(), ntex::http::header::HeaderValue::from_str(v).unwrap()); } m }

fn request_case(run: &mut Run, all: &[Rule], own: &[Rule], client: &Hs) {
    let cfg = config(all, own, "request", None);
    run.case("request", &|| format!("headers: {cfg} client: {client:?}"), !all.is_empty() || !own.is_empty(), || {
        let c = parse_yaml_config(json!({ "headers": cfg }).to_string()).map_err(|e| ("config is accepted".into(), format!("{e:?}")))?;
        let plan = compile_headers_plan(&c.headers).map_err(|e| ("rules compile".into(), format!("{e:?}")))?;
        let url: http::Uri = "http://example.com/graphql".parse().unwrap();
        for sub in ["accounts", "other"] {
            let rules: Vec<Rule> = if sub == "accounts" { all.iter().chain(own).cloned().collect() } else { all.to_vec() };
            let mut out = HeaderMap::new();
            modify_subgraph_request_headers(&plan, sub, &details(nm(client), &url), &mut out).map_err(|e| ("rules apply".into(), format!("{e:?}")))?;
            Run::eq((sub, want_request(&rules, sub, client)), (sub, to_map(out.iter().map(|(k, v)| (k, v.as_bytes())))))?;
        }
        Ok(())
    });
}
fn response_case(run: &mut Run, group: &str, all: &[Rule], own: &[Rule], algo: Algo, subs: &[(String, Hs)], want: Option<Map>) {
    let cfg = config(all, own, "response", Some(algo.text()));
    run.case(group, &|| format!("headers: {cfg} responses: {subs:?}"), !all.is_empty() || !own.is_empty(), || {
        let c = parse_yaml_config(json!({ "headers": cfg }).to_string()).map_err(|e| ("config is accepted".into(), format!("{e:?}")))?;
        let plan = compile_headers_plan(&c.headers).map_err(|e| ("rules compile".into(), format!("{e:?}")))?;
        let url: http::Uri = "http://example.com/graphql".parse().unwrap();
        let rules = |sub: &str| -> Vec<Rule> { if sub == "accounts" { all.iter().chain(own).cloned().collect() } else { all.to_vec() } };
        let mut acc = ResponseHeaderAggregator::default();
        for (s, h) in subs { apply_subgraph_response_headers(&plan, s, &hm(h), &details(NtexHeaderMap::new(), &url), &mut acc).map_err(|e| ("rules apply".into(), format!("{e:?}")))?; }
        let mut out = nm(&vec![("content-type".into(), "application/json".into()), ("x-router".into(), "1".into())]);
        acc.modify_client_response_headers(&mut out).map_err(|e| ("headers are written".into(), format!("{e:?}")))?;
        let mut w = want.clone().unwrap_or_else(|| want_response(&rules, algo, subs));
        w.insert("content-type".into(), vec!["application/json".into()]);
        w.insert("x-router".into(), vec!["1".into()]);
        Run::eq(w, to_map(out.iter().map(|(k, v)| (k, v.as_bytes()))))
    });
}
fn end_to_end(run: &mut Run, g: &mut Rng) {
    let sdl = sdl(&["a", "b"], r#"type Query @join__type(graph: A) @join__type(graph: B) { u: User @join__field(graph: A) }
type User @join__type(graph: A, key: "id") @join__type(graph: B, key: "id") { id: ID! n: Int @join__field(graph: B) }"#);
    for _ in 0..run.n(6) {
        if !run.time_left() { return; }
        let algo = *g.pick(&[Algo::First, Algo::Last, Algo::Append]);
        let (ra, ro, pa, po) = (gen_rules(g, 4, true), gen_rules(g, 2, true), gen_rules(g, 4, false), gen_rules(g, 2, false));
        let own = |n: &str| ["host", "content-length", "content-type", "connection", "accept", "te", "upgrade", "keep-alive", "date", "server", "transfer-encoding", "user-agent", "traceparent", "tracestate"].contains(&n);
        let l = |rs: &[Rule], a: Option<&str>| json!(rs.iter().map(|r| rule_json(r, a)).collect::<Vec<_>>());
        let cfg = json!({ "all": { "request": l(&ra, None), "response": l(&pa, Some(algo.text())) }, "subgraphs": { "a": { "request": l(&ro, None), "response": l(&po, Some(algo.text())) } } });
        let subs = Subgraphs::start(|_| Resp::json_of(J::Null));
        let r = match Router::start(&format!("headers: {cfg}\n"), &sdl, Some(&subs)) { Ok(r) => r, Err(e) => { run.case("wire", &|| format!("headers: {cfg}"), true, || Err(("the router starts".into(), e.clone()))); continue; } };
        for _ in 0..6 {
            let client: Hs = gen_headers(g).into_iter().filter(|x| !own(&x.0)).chain([("te".to_string(), "trailers".to_string())]).collect();
            // only what a real server may send: the transport's own headers stay out
            let (ha, hb): (Hs, Hs) = (gen_headers(g).into_iter().filter(|x| !own(&x.0)).collect(), gen_headers(g).into_iter().filter(|x| !own(&x.0)).collect());
            let (xa, xb) = (ha.clone(), hb.clone());
            subs.set(move |q| { let (b, h) = if q.path.starts_with("/a") { (json!({"data": {"u": {"__typename": "User", "id": "1"}}}), &xa) } else { (json!({"data": {"_entities": [{"__typename": "User", "n": 1}]}}), &xb) }; let mut r = Resp::json_of(b); for (k, v) in h { r = r.with(k, v); } r });
            subs.take_log();
            run.case("wire", &|| format!("headers: {cfg} client: {client:?} a: {ha:?} b: {hb:?}"), true, || {
                let hs: Vec<(&str, &str)> = client.iter().map(|(k, v)| (k.as_str(), v.as_str())).collect();
                let resp = r.post(&json!({"query": "{ u { n } }"}), &hs);
                Run::eq(json!({"data": {"u": {"n": 1}}}), resp.json())?;
                let log = subs.take_log();
                Run::eq(2, log.len())?;
                for (i, s) in ["a", "b"].iter().enumerate() {
                    let rules: Vec<Rule> = if *s == "a" { ra.iter().chain(&ro).cloned().collect() } else { ra.clone() };
                    let f = |m: Map| -> Map { m.into_iter().filter(|(k, _)| !own(k)).map(|(k, mut v)| { v.sort(); (k, v) }).collect() };
                    let mut got = Map::new();
                    for (k, v) in &log[i].headers { got.entry(k.to_ascii_lowercase()).or_default().push(v.clone()); }
                    Run::eq((s, f(want_request(&rules, s, &client))), (s, f(got)))?;
                    if log[i].header("te").is_some() { return Err(("te is not forwarded".into(), format!("{:?}", log[i].headers))); }
                }
                let rules = |s: &str| -> Vec<Rule> { if s == "a" { pa.iter().chain(&po).cloned().collect() } else { pa.clone() } };
                let want: Map = want_response(&rules, algo, &[("a".into(), ha.clone()), ("b".into(), hb.clone())]).into_iter().filter(|(k, _)| !own(k)).collect();
                let mut got = Map::new();
                for (k, v) in &resp.headers { let k = k.to_ascii_lowercase(); if !own(&k) { got.entry(k).or_default().push(v.clone()); } }
                Run::eq(want, got)
            });
        }
    }
}
fn main() {
    let mut run = Run::from_args("nontrivial: at least one rule; random rule lists (global up to 5, subgraph up to 3) over 15 header names with upper-case spellings, renames and 7 patterns, against random header lists of up to 7 lines from client or up to 3 subgraph responses; plus the same on the wire");
    let mut g = run.rng(5);
    let s = |x: &str| x.to_string();
    let h = |v: &[(&str, &str)]| -> Hs { v.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect() };
    // each denied name, by every way in
    for n in HOP.iter().chain(&["content-type"]) {
        for r in [Rule::Named { names: vec![s(n)], rename: None, default: Some(s("d")) }, Rule::Named { names: vec![s("x-a")], rename: Some(s(n)), default: None }, Rule::Named { names: vec![s(n)], rename: Some(s("x-b")), default: None },
            Rule::Named { names: vec![s("x-none")], rename: Some(s(n)), default: Some(s("d")) }, Rule::Match { include: vec![2, 4], exclude: vec![] }, Rule::Insert { name: s(n), value: s("i") }, Rule::InsertSubgraph { name: s(n) }] {
            let hs = h(&[("x-a", "1"), (n, "2"), ("te", "3")]);
            request_case(&mut run, &[r.clone()], &[], &hs);
            for a in [Algo::First, Algo::Last, Algo::Append] { response_case(&mut run, "response", &[r.clone()], &[], a, &[(s("accounts"), hs.clone())], None); }
        }
    }
    // documented: the default is for when no subgraph sent the header
    let d = Rule::Named { names: vec![s("x-a")], rename: None, default: Some(s("d")) };
    response_case(&mut run, "default", &[d], &[], Algo::Last, &[(s("accounts"), h(&[("x-a", "real")])), (s("other"), vec![])], Some(Map::from([(s("x-a"), vec![s("real")])])));
    end_to_end(&mut run, &mut g);
    for _ in 0..run.n(1500) {
        if !run.time_left() { break; }
        let (all, own, client) = (gen_rules(&mut g, 5, true), gen_rules(&mut g, 3, true), gen_headers(&mut g));
        request_case(&mut run, &all, &own, &client);
        let k = g.below(3) + 1;
        let (all, own) = (gen_rules(&mut g, 5, k == 1), gen_rules(&mut g, 3, k == 1));
        let algo = *g.pick(&[Algo::First, Algo::Last, Algo::Append]);
        let subs: Vec<(String, Hs)> = (0..k).map(|i| (s(if g.bool() { "accounts" } else { ["other", "third"][i % 2] }), gen_headers(&mut g))).collect();
        response_case(&mut run, "response", &all, &own, algo, &subs, None);
    }
    run.finish()
}
