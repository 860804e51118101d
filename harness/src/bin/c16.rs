// C16: what a request may do follows from its method and from what it accepts. Oracle: RFC 9110 ranges and qualities
// over the five formats, and the kind of the operation that the request selects.
use serde_json::{json, Value as J};
use vh::e2e::*;
use vh::*;

struct Range { t: &'static str, q: Option<u32> }
const SINGLE: [&str; 2] = ["application/json", "application/graphql-response+json"];
const STREAM: [&str; 3] = ["multipart/mixed", "text/event-stream", "multipart/mixed;subscriptionSpec=1.0"];
const HTML: &str = "text/html";
// the quality of the most specific range that a type falls under. A range of multipart/mixed with a quality may or may
// not be read to cover the variant with a parameter (`loose`)
fn q(rs: &[Range], m: &str, loose: bool) -> u32 {
    let (base, top) = (m.split(';').next().unwrap(), m.split('/').next().unwrap());
    let get = |t: &str| rs.iter().find(|r| r.t == t);
    let v = |r: &Range| r.q.unwrap_or(1000);
    if let Some(r) = get(m) { return v(r); }
    if base != m { if let Some(r) = get(base) { if loose || r.q.is_none() { return v(r); } } }
    if let Some(r) = rs.iter().find(|r| r.t.strip_suffix("/*") == Some(top)) { return v(r); }
    get("*/*").map_or(0, v)
}
fn best<'a>(rs: &[Range], of: &[&'a str], loose: bool) -> Vec<&'a str> {
    let m = of.iter().map(|t| q(rs, t, loose)).max().unwrap();
    of.iter().filter(|t| m > 0 && q(rs, t, loose) == m).copied().collect()
}
fn render(r: &mut Rng, rs: &[Range]) -> String {
    rs.iter().map(|x| {
        let mut s = x.t.to_string();
        if s.contains("Spec") && r.bool() { s = s.replace("1.0", "\"1.0\""); }
        if s.starts_with("multipart/mixed") && r.chance(1, 3) { s = if r.bool() { s.replace("multipart/mixed", "multipart/mixed;boundary=graphql") } else { s + ";boundary=\"-\"" }; }
        if let Some(q) = x.q { s += &format!(";{}q={}", if r.bool() { " " } else { "" }, if q == 1000 { "1".into() } else { format!("0.{}", q / 100) }); }
        s
    }).collect::<Vec<_>>().join(if r.bool() { ", " } else { "," })
}
fn essence(ct: &str) -> String {
    let b = ct.split(';').next().unwrap().trim().to_ascii_lowercase();
    if ct.to_ascii_lowercase().replace('"', "").contains("subscriptionspec=1.0") { format!("{b};subscriptionSpec=1.0") } else { b }
}
fn encode(s: &str) -> String { s.bytes().map(|b| if b.is_ascii_alphanumeric() { (b as char).to_string() } else { format!("%{b:02X}") }).collect() }
fn main() {
    let mut run = Run::from_args("nontrivial: a document of one to three operations of any kinds, one selected (or not) by name, sent by any method under a random Accept header (wildcards, qualities, zero qualities, boundaries, none at all)");
    let s = sdl(&["a"], "type Query @join__type(graph: A) { v: Int }\ntype Mutation @join__type(graph: A) { m: Int }\ntype Subscription @join__type(graph: A) { e: Int }");
    let subs = Subgraphs::start(|q| {
        let t = q.query();
        if t.contains("subscription") { return Resp { status: 200, headers: vec![("content-type".into(), "text/event-stream".into())], body: b"event: next\ndata: {\"data\":{\"e\":3}}\n\nevent: complete\n\n".to_vec() }; }
        Resp::json_of(json!({"data": if t.contains("mutation") { json!({"m": 2}) } else { json!({"v": 1}) }}))
    });
    let mut r = run.rng(16);
    for cfg in 0..3 {
        let (on, lab) = (cfg != 1, cfg != 2);
        let mut rt = match Router::start(&format!("subscriptions: {{ enabled: {on} }}\nlaboratory: {{ enabled: {lab} }}\n"), &s, Some(&subs)) { Ok(r) => r, Err(e) => { run.case("start", &|| String::new(), true, || Err(("the router starts".into(), e.clone()))); continue; } };
        for _ in 0..run.n(if cfg == 0 { 500 } else { 150 }) {
            if !run.time_left() { break; }
            // the document
            let kinds: Vec<usize> = (0..1 + r.below(10) / 4).map(|_| r.below(3)).collect();
            let anon = kinds.len() == 1 && r.chance(1, 3);
            let text = kinds.iter().enumerate().map(|(i, k)| format!("{} {}{{ {} }}", ["query", "mutation", "subscription"][*k], if anon { String::new() } else { format!("O{i} ") }, ["v", "m", "e"][*k])).collect::<Vec<_>>().join(" ");
            let broken = r.chance(1, 12);
            let text = if broken { text.replacen('{', "{{", 1) } else if anon && kinds[0] == 0 && r.bool() { "{ v }".to_string() } else { text };
            let name: Option<String> = if anon { None } else { match r.below(8) { 0 => None, 1 => Some("Nope".into()), _ => Some(format!("O{}", r.below(kinds.len()))) } };
            let sel = match &name { None if kinds.len() == 1 => Some(kinds[0]), None => None, Some(n) => (0..kinds.len()).find(|i| *n == format!("O{i}")).map(|i| kinds[i]) };
            let sel = if broken { None } else { sel };
            // what is accepted
            let all = ["application/json", "application/graphql-response+json", "multipart/mixed", "text/event-stream", "multipart/mixed;subscriptionSpec=1.0", "text/html", "*/*", "application/*", "text/*", "multipart/*", "image/png", "application/xml"];
            let mut rs: Vec<Range> = vec![];
            let few = r.below(3);
            for t in all { if r.chance(1, 2 + few as u64 * 2) { rs.push(Range { t, q: if r.bool() { None } else { Some(*r.pick(&[0, 100, 500, 500, 900, 1000])) } }); } }
            for i in (1..rs.len()).rev() { let j = r.below(i + 1); rs.swap(i, j); }
            let accept = if rs.is_empty() { None } else { Some(render(&mut r, &rs)) };
            if rs.is_empty() { rs.push(Range { t: "*/*", q: None }); }
            let readings: Vec<_> = [false, true].iter().map(|l| (best(&rs, &SINGLE, *l), best(&rs, &STREAM, *l))).collect();
            let method = *r.pick(&["POST", "POST", "POST", "GET", "GET", "PUT", "DELETE", "PATCH"]);
            let htmlq = q(&rs, HTML, true);
            let other = SINGLE.iter().chain(&STREAM).map(|t| q(&rs, t, true).max(q(&rs, t, false))).max().unwrap();
            let (must_html, may_html) = (lab && method == "GET" && htmlq > other, lab && method == "GET" && htmlq > 0 && htmlq >= other.min(SINGLE.iter().chain(&STREAM).map(|t| q(&rs, t, true).min(q(&rs, t, false))).max().unwrap()));
            let mut h: Vec<(&str, &str)> = vec![("content-type", "application/json")];
            if let Some(a) = &accept { h.push(("accept", a)); }
            let mut body = json!({"query": text});
            if let Some(n) = &name { body["operationName"] = json!(n); }
            subs.take_log();
            let by_url = method == "GET" || (method != "POST" && r.bool());
            let started = std::time::Instant::now();
            let resp = if by_url { rt.send(method, &format!("/graphql?query={}{}", encode(&text), name.as_ref().map(|n| format!("&operationName={n}")).unwrap_or_default()), &h, b"") } else { rt.send(method, "/graphql", &h, body.to_string().as_bytes()) };
            let calls: Vec<String> = subs.take_log().iter().map(|q| q.query()).collect();
            let ct = essence(resp.header("content-type").unwrap_or(""));
            let body_text = resp.text();
            let alive = rt.alive();
            let group = format!("{}-{}", method.to_lowercase(), match sel { None => "none", Some(0) => "query", Some(1) => "mutation", Some(_) => "subscription" });
            run.case(&group, &|| format!("{method} accept={accept:?} {body} subscriptions={on} laboratory={lab}"), true, || {
                let say = || format!("{} {ct} {body_text} after {calls:?}", resp.status);
                if resp.status == 0 { return Err(("an answer".into(), format!("{:?} {:?}", started.elapsed(), http(rt.port, method, &format!("/graphql?query={}", encode(&text)), &h, body.to_string().as_bytes())))); }
                if !alive { return Err(("the router is up".into(), "it is not".into())); }
                if ct == HTML { return if may_html && calls.is_empty() { Ok(()) } else { Err(("no page".into(), say())) }; }
                if must_html { return Err(("the page".into(), say())); }
                let judge = |(single, stream): &(Vec<&str>, Vec<&str>)| -> Result<(), (String, String)> {
                // nothing acceptable
                if single.is_empty() && stream.is_empty() { return if calls.is_empty() && resp.status == 415 { Ok(()) } else { Err(("refused with 415, nothing executed".into(), say())) }; }
                let streaming = single.is_empty();
                let refused = |status: &[u16], what: &str| {
                    let formats = if streaming { stream } else { single };
                    if !calls.is_empty() { return Err((format!("{what}: nothing executed"), say())); }
                    if !formats.contains(&ct.as_str()) { return Err((format!("{what}: answered in one of {formats:?}"), say())); }
                    if what == "no operation" && broken && !body_text.contains("Unexpected `{[Punctuator]`") { return Err(("the token that is not expected is named".into(), say())); }
                    if !body_text.contains("\"errors\"") { return Err((format!("{what}: errors"), say())); }
                    let want = if streaming { &[200][..] } else { status };
                    if !want.contains(&resp.status) { return Err((format!("{what}: status {want:?}"), say())); }
                    Ok(())
                };
                if method != "GET" && method != "POST" { return refused(&[405], "method"); }
                match sel {
                    None => refused(if ct == SINGLE[0] { &[200, 400] } else { &[400] }, "no operation"),
                    Some(1) if method == "GET" => refused(&[405], "mutation over GET"),
                    Some(2) if !on || stream.is_empty() => refused(&[415, 406], "subscription"),
                    Some(2) => {
                        if calls.len() != 1 || !calls[0].starts_with("subscription") || !stream.contains(&ct.as_str()) || resp.status != 200 || !body_text.contains("{\"e\":3}") { return Err((format!("the event in one of {stream:?}"), say())); }
                        Ok(())
                    }
                    Some(_) if streaming => refused(&[], "only streams are accepted"),
                    Some(k) => {
                        let want = [json!({"data": {"v": 1}}), json!({"data": {"m": 2}})][k].clone();
                        let got: J = serde_json::from_str(&body_text).unwrap_or(J::Null);
                        if calls.len() != 1 || calls[0].starts_with("mutation") != (k == 1) || got != want || !single.contains(&ct.as_str()) || resp.status != 200 { return Err((format!("{want} in one of {single:?}"), say())); }
                        Ok(())
                    }
                }
                };
                judge(&readings[0]).or_else(|e| judge(&readings[1]).map_err(|_| e))
            });
        }
    }
    run.finish()
}
