// C07: CSRF prevention. Oracle: the documented condition.
use serde_json::json;
use vh::e2e::{sdl, Resp, Router, Subgraphs};
use vh::*;

// content type, and whether a browser sends it without a preflight
const TYPES: &[(&str, bool)] = &[
    ("application/json", false), ("application/json; charset=utf-8", false), ("application/graphql", false), ("application/graphql-response+json", false), ("text/html", false), ("text/xml", false), ("x/text/plain", false),
    ("multipart/mixed", false), ("text", false), ("text/plai", false), ("application/x-www-form-urlencode", false), ("application/octet-stream", false),
    ("text/plain", true), ("TEXT/PLAIN", true), ("Text/Plain;charset=UTF-8", true), ("text/plain; application/json", true), ("application/x-www-form-urlencoded", true), ("application/X-WWW-form-urlencoded; charset=utf-8", true),
    ("multipart/form-data; boundary=x", true), ("Multipart/Form-Data", true), ("text/plain ; x=\"application/json\"", true),
];
fn main() {
    let mut run = Run::from_args("nontrivial: prevention is enabled; 5 configurations of required headers on the compiled router, 21 content types in simple and other spellings and none, GET, POST and mutations, with each required header, look-alike headers and none");
    let mut g = run.rng(7);
    let sdl = sdl(&["a"], "type Query @join__type(graph: A) { v: Int }\ntype Mutation @join__type(graph: A) { m: Int }").replace("schema\n", "schema\n");
    let subs = Subgraphs::start(|q| Resp::json_of(if q.query().contains("mutation") { json!({"data": {"m": 1}}) } else { json!({"data": {"v": 1}}) }));
    let cfgs: &[(&str, bool, &[&str])] = &[
        ("csrf: { enabled: true, required_headers: [x-csrf-token] }", true, &["x-csrf-token"]),
        ("csrf: { required_headers: [X-One, x-two, apollo-require-preflight] }", true, &["x-one", "x-two", "apollo-require-preflight"]),
        ("csrf: { enabled: false, required_headers: [x-csrf-token] }", false, &["x-csrf-token"]),
        ("csrf: { enabled: true, required_headers: [] }", false, &[]),
        ("", false, &[]),
    ];
    for (cfg, on, required) in cfgs {
        let r = match Router::start(&format!("{cfg}\n"), &sdl, Some(&subs)) { Ok(r) => r, Err(e) => { run.case("csrf", &|| cfg.to_string(), true, || Err(("the router starts".into(), e.clone()))); continue; } };
        let types: Vec<Option<(&str, bool)>> = TYPES.iter().map(|x| Some(*x)).chain([None]).collect();
        for t in &types {
            for kind in ["query", "mutation", "get"] {
                let mut sets: Vec<Vec<(String, String)>> = vec![vec![], vec![("x-csrf-tok".into(), "1".into())], vec![("cookie".into(), "x-csrf-token=1; x-one=1".into())]];
                for n in *required {
                    sets.push(vec![(n.to_string(), "1".into())]);
                    sets.push(vec![(n.to_uppercase(), "".into())]);
                    sets.push(vec![(format!("{n}-x"), "1".into())]);
                    sets.push(vec![("x-other".into(), n.to_string()), (n.to_string(), "a b".into())]);
                }
                for hs in sets {
                    if !run.time_left() { break; }
                    if kind == "get" && g.bool() && !run.thorough { continue; }
                    let present = required.iter().any(|n| hs.iter().any(|h| h.0.eq_ignore_ascii_case(n)));
                    let refuse = *on && t.is_none_or(|x| x.1) && !present;
                    run.case("csrf", &|| format!("{cfg} {kind} content-type={:?} headers={hs:?}", t.map(|x| x.0)), *on, || {
                        let mut h: Vec<(&str, &str)> = hs.iter().map(|(a, b)| (a.as_str(), b.as_str())).collect();
                        if let Some(x) = t { h.push(("content-type", x.0)); }
                        subs.take_log();
                        let resp = match kind {
                            "query" => r.send("POST", "/graphql", &h, br#"{"query":"{ v }"}"#),
                            "mutation" => r.send("POST", "/graphql", &h, br#"{"query":"mutation { m }"}"#),
                            _ => r.send("GET", "/graphql?query=%7Bv%7D", &h, b""),
                        };
                        let calls = subs.take_log().len();
                        let code = resp.error_codes().contains(&"CSRF_PREVENTION_FAILED".to_string());
                        if refuse { return Run::eq((403, true, 0), (resp.status, code, calls)); }
                        Run::eq((false, false), (resp.status == 403, code))?;
                        if kind == "get" || t.is_some_and(|x| x.0.starts_with("application/json")) { return Run::eq((200, 1, true), (resp.status, calls, resp.clean())); }
                        Ok(())
                    });
                }
            }
        }
    }
    run.finish()
}
