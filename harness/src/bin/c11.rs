// C11: error masking. Every error that a subgraph causes, in whichever way, reaches the client redacted as configured.
use serde_json::{json, Map, Value as J};
use vh::e2e::*;
use vh::*;

const BODY: &str = r#"
type T @join__type(graph: A, key: "id") @join__type(graph: B, key: "id") { id: ID! x: Int @join__field(graph: A) b: Int @join__field(graph: B) }
type Query @join__type(graph: A) @join__type(graph: B) @join__type(graph: C) {
  t: T @join__field(graph: A)
  list: [T] @join__field(graph: A)
  c: Int @join__field(graph: C)
}
type Subscription @join__type(graph: A) { tick: T @join__field(graph: A) }
"#;
#[derive(Clone, Debug)]
struct Ext { allow: bool, keys: Vec<String> }
#[derive(Clone, Debug)]
struct Cfg { on: bool, text: String, all: Option<bool>, all_ext: Option<Ext>, subs: Vec<(String, Option<bool>, Option<Ext>)> }
const KEYS: &[&str] = &["code", "service", "affectedPath", "k1", "k2", "stack", "http"];
fn ext(r: &mut Rng) -> Ext { let n = r.below(4); Ext { allow: r.bool(), keys: (0..n).map(|_| r.pick(KEYS).to_string()).collect() } }
fn cfg(r: &mut Rng) -> Cfg {
    let mut subs = vec![];
    for s in ["a", "b", "c"] { if r.chance(2, 5) { subs.push((s.to_string(), if r.bool() { Some(r.bool()) } else { None }, if r.bool() { Some(ext(r)) } else { None })); } }
    Cfg { on: r.chance(9, 10), text: r.pick(&["Unexpected error", "redacted", "x"]).to_string(), all: if r.bool() { Some(r.chance(2, 3)) } else { None }, all_ext: if r.bool() { Some(ext(r)) } else { None }, subs }
}
fn yaml(c: &Cfg) -> String {
    let e = |e: &Ext| json!({"mode": if e.allow { "allow" } else { "deny" }, "keys": e.keys});
    let mut all = Map::new();
    if let Some(b) = c.all { all.insert("enabled".into(), json!(b)); }
    if let Some(x) = &c.all_ext { all.insert("extensions".into(), e(x)); }
    let mut o = json!({"enabled": c.on, "redacted_error_message": c.text, "all": all});
    if !c.subs.is_empty() {
        let mut s = Map::new();
        for (n, b, x) in &c.subs { let mut m = Map::new(); if let Some(b) = b { m.insert("enabled".into(), json!(b)); } if let Some(x) = x { m.insert("extensions".into(), e(x)); } s.insert(n.clone(), J::Object(m)); }
        o["subgraphs"] = J::Object(s);
    }
    format!("error_masking: {o}\nsubscriptions: {{ enabled: true }}\n")
}
// the oracle: what the client may see of an error of subgraph `s`
fn hidden(c: &Cfg, s: &str) -> bool { c.on && c.subs.iter().find(|x| x.0 == s).and_then(|x| x.1).unwrap_or(c.all.unwrap_or(true)) }
fn kept(c: &Cfg, s: &str, key: &str) -> bool {
    if !c.on { return true; }
    match c.subs.iter().find(|x| x.0 == s).and_then(|x| x.2.as_ref()).or(c.all_ext.as_ref()) { None => true, Some(e) => e.keys.iter().any(|k| k == key) == e.allow }
}
fn seen(c: &Cfg, s: &str, message: &str, exts: &Map<String, J>) -> (String, String) {
    let m: std::collections::BTreeMap<String, J> = exts.iter().filter(|(k, _)| kept(c, s, k)).map(|(k, v)| (k.clone(), v.clone())).collect();
    (if hidden(c, s) { c.text.clone() } else { message.to_string() }, json!(m).to_string())
}
fn got(errors: &J) -> Vec<(String, String)> {
    let mut v: Vec<(String, String)> = errors.as_array().map(|a| a.iter().map(|e| {
        let mut m: std::collections::BTreeMap<String, J> = e["extensions"].as_object().map(|o| o.iter().map(|(k, v)| (k.clone(), v.clone())).collect()).unwrap_or_default();
        if let Some(p) = m.get_mut("affectedPath") { *p = json!("*"); }
        (e["message"].as_str().unwrap_or("").to_string(), json!(m).to_string())
    }).collect()).unwrap_or_default();
    v.sort();
    v
}
#[derive(Clone, Debug, PartialEq)]
enum Answer { Good, Errors(Vec<(String, Map<String, J>)>, bool), Status(u16), Junk }
fn errors(r: &mut Rng, s: &str) -> Vec<(String, Map<String, J>)> {
    let n = 1 + r.below(3);
    (0..n).map(|k| {
        let mut m = Map::new();
        for key in ["code", "k1", "k2", "stack"] { if r.bool() { m.insert(key.into(), json!(format!("{key}-{s}{k}"))); } }
        (format!("secret of {s} {k}"), m)
    }).collect()
}
fn answer(r: &mut Rng, s: &str) -> Answer { match r.below(6) { 0 => Answer::Good, 1 => Answer::Status(*r.pick(&[500, 404, 401])), 2 => Answer::Junk, _ => Answer::Errors(errors(r, s), r.bool()) } }
fn wire(es: &[(String, Map<String, J>)], entity: Option<usize>) -> J {
    J::Array(es.iter().enumerate().map(|(k, (m, x))| {
        let mut e = json!({"message": m});
        if !x.is_empty() { e["extensions"] = J::Object(x.clone()); }
        if let Some(n) = entity { e["path"] = json!(["_entities", k % n, "b"]); }
        e
    }).collect())
}
fn reply(a: &Answer, data: J, entities: Option<usize>) -> Resp {
    match a {
        Answer::Good => Resp::json_of(json!({"data": data})),
        Answer::Errors(es, with) => Resp::json_of(if *with { json!({"data": data, "errors": wire(es, entities)}) } else { json!({"data": null, "errors": wire(es, entities)}) }),
        Answer::Status(n) => { let mut r = Resp::json_of(json!("secret status body")); r.status = *n; r.headers = vec![("content-type".into(), "text/plain".into())]; r }
        Answer::Junk => { let mut r = Resp::json_of(J::Null); r.body = b"secret { not json".to_vec(); r }
    }
}
// what is expected of one answer: exact pairs, or for a failure of transport only the shape
enum Want { Exact(Vec<(String, String)>), One(String) }
fn want(c: &Cfg, s: &str, a: &Answer, flat: bool) -> Want {
    match a {
        Answer::Good => Want::Exact(vec![]),
        Answer::Errors(es, _) => Want::Exact(es.iter().map(|(m, x)| {
            let mut x = x.clone();
            x.insert("service".into(), json!(s));
            if !x.contains_key("code") { x.insert("code".into(), json!("DOWNSTREAM_SERVICE_ERROR")); }
            if flat { x.insert("affectedPath".into(), json!("*")); }
            seen(c, s, m, &x)
        }).collect()),
        _ => Want::One(s.to_string()),
    }
}
fn check(c: &Cfg, wants: Vec<(Want, bool)>, errors: &J) -> Result<(), (String, String)> {
    let mut g = got(errors);
    let all = g.clone();
    for (w, _) in wants.iter() {
        if let Want::Exact(v) = w { for e in v { match g.iter().position(|x| x == e) { Some(i) => { g.remove(i); } None => return Err((format!("{e:?} among the errors"), format!("{all:?}"))) } } }
    }
    for (w, flat) in wants.iter() {
        if let Want::One(s) = w {
            // an error of the transport: redacted message, allowed keys only
            let fits = |x: &(String, String)| {
                let m: Map<String, J> = serde_json::from_str(&x.1).unwrap();
                (x.0 == c.text) == hidden(c, s) && m.keys().all(|k| kept(c, s, k)) && kept(c, s, "service") == (m.get("service") == Some(&json!(s))) && kept(c, s, "code") == m.contains_key("code") && (!*flat || kept(c, s, "affectedPath") == m.contains_key("affectedPath"))
            };
            match g.iter().position(fits) { Some(i) => { g.remove(i); } None => return Err((format!("one redacted error of {s} (hidden={})", hidden(c, s)), format!("{all:?}"))) }
        }
    }
    if g.is_empty() { Ok(()) } else { Err(("no further error".into(), format!("{g:?} of {all:?}"))) }
}
fn main() {
    let mut run = Run::from_args("nontrivial: at least one subgraph answers with an error and masking is on; random masking configurations (all, per subgraph, allow and deny lists over known and unknown keys), answers of three subgraphs over root fetches, entity fetches, lists of entities, and subscription events and failures");
    let subs = Subgraphs::start(|_| Resp::json_of(json!({"data": {}})));
    let s = sdl(&["a", "b", "c"], BODY);
    let mut r = run.rng(11);
    for _ in 0..run.n(14) {
        if !run.time_left() { break; }
        let c = cfg(&mut r);
        let y = yaml(&c);
        let rt = match Router::start(&y, &s, Some(&subs)) { Ok(r) => r, Err(e) => { run.case("start", &|| y.clone(), true, || Err(("the router starts".into(), e.clone()))); continue; } };
        for _ in 0..60 {
            if !run.time_left() { break; }
            let (a, b, d) = (answer(&mut r, "a"), answer(&mut r, "b"), answer(&mut r, "c"));
            let sub = r.chance(1, 3);
            let list = r.bool();
            let (a2, b2, d2) = (a.clone(), b.clone(), d.clone());
            subs.set(move |q| {
                let t = json!({"__typename": "T", "id": "1", "x": 1});
                match q.path.as_str() {
                    "/a" if q.query().trim_start().starts_with("subscription") => match &a2 {
                        Answer::Status(_) | Answer::Junk => reply(&a2, J::Null, None),
                        _ => {
                            let one = |a: &Answer| { let v: J = serde_json::from_slice(&reply(a, json!({"tick": t}), None).body).unwrap(); format!("event: next\ndata: {v}\n\n") };
                            Resp { status: 200, headers: vec![("content-type".into(), "text/event-stream".into())], body: format!("{}{}event: complete\n\n", one(&a2), one(&Answer::Good)).into_bytes() }
                        }
                    },
                    "/a" => reply(&a2, if q.query().contains("list") { json!({"list": [t, {"__typename": "T", "id": "2", "x": 2}]}) } else { json!({"t": t}) }, None),
                    "/b" => { let n = q.json()["variables"]["representations"].as_array().map(|x| x.len()).unwrap_or(1); reply(&b2, json!({"_entities": (0..n).map(|k| json!({"__typename": "T", "b": k})).collect::<Vec<_>>()}), Some(n)) }
                    _ => reply(&d2, json!({"c": 1}), None),
                }
            });
            let q = if sub { "subscription { tick { x b } }" } else if list { "{ list { x b } c }" } else { "{ t { x b } c }" };
            let resp = rt.send("POST", "/graphql", &[("content-type", "application/json"), ("accept", if sub { "text/event-stream" } else { "application/json" })], json!({"query": q}).to_string().as_bytes());
            let called_b = subs.take_log().iter().any(|x| x.path == "/b");
            let bad = a != Answer::Good || b != Answer::Good && called_b || (!sub && d != Answer::Good);
            let show = || format!("{} | {q} | a={a:?} b={b:?} c={d:?}", y.replace('\n', " "));
            run.case(if sub { "subscription" } else { "query" }, &show, bad && c.on, || {
                if resp.status == 0 { return Err(("an answer".into(), "connection closed".into())); }
                if c.on && hidden(&c, "a") && hidden(&c, "b") && hidden(&c, "c") && resp.text().contains("secret") { return Err(("no message of a subgraph".into(), resp.text())); }
                if !sub {
                    let mut w = vec![(want(&c, "a", &a, false), false), (want(&c, "c", &d, false), false)];
                    if called_b { w.push((want(&c, "b", &b, true), true)); }
                    return check(&c, w, &resp.json()["errors"]);
                }
                let evs: Vec<J> = if resp.header("content-type").is_some_and(|x| x.contains("event-stream")) { resp.text().lines().filter_map(|l| l.strip_prefix("data: ").or(l.strip_prefix("data:"))).filter_map(|d| serde_json::from_str::<J>(d).ok()).filter(|j| j.is_object() && j.as_object().unwrap().len() > 0).collect() } else { vec![resp.json()] };
                match &a {
                    Answer::Good | Answer::Errors(..) => {
                        if evs.len() != 2 { return Err(("two events".into(), resp.text())); }
                        for (k, e) in evs.iter().enumerate() {
                            let mut w = vec![];
                            if k == 0 { w.push((want(&c, "a", &a, false), false)); }
                            let whole = k == 1 || !matches!(&a, Answer::Errors(_, false));
                            if whole { w.push((want(&c, "b", &b, true), true)); }
                            check(&c, w, &e["errors"])?;
                        }
                        Ok(())
                    }
                    // a subscription that does not start is answered by the router's own error
                    _ => if evs.first().and_then(|e| e["errors"].as_array()).is_some_and(|v| !v.is_empty()) && !(hidden(&c, "a") && resp.text().contains("secret")) { Ok(()) } else { Err(("an error without a word of the subgraph".into(), resp.text())) },
                }
            });
        }
    }
    run.finish()
}
