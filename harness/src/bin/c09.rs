// C09: subscription streams. Oracle: the framing as the generator wrote it (input), a reader written from
// the SSE and MIME multipart specifications (output).
use bytes::Bytes;
use futures::StreamExt;
use hive_router::executor::executors::{multipart_subscribe as mp, sse};
use http_body_util::StreamBody;
use hyper::body::Frame;
use serde_json::{json, Value as J};
use std::sync::{atomic::{AtomicUsize, Ordering::SeqCst}, Arc};
use vh::*;

const TEXTS: &[&str] = &["x", "a\n\nb", "data: y", "event: complete\n\n", "--graphql", "--graphql--", "\r\n--graphql--\r\n", "---", "-----", "--b--", "ü\u{2028}z", ": c", "", "\u{0}\t\"\\", "{}", "null"];
fn event(g: &mut Rng, k: usize) -> J {
    let mut v = json!({"data": {"n": k, "t": *g.pick(TEXTS)}});
    if g.chance(1, 4) { v["data"]["l"] = json!([*g.pick(TEXTS), null, {"u": *g.pick(TEXTS)}]); }
    let null = g.chance(1, 6);
    if null { v["data"] = J::Null; }
    if null || g.chance(1, 4) { v["errors"] = json!([{"message": *g.pick(TEXTS)}]); }
    v
}
// the text cut into frames, and for each place of interest the number of frames that cover it
fn cut(g: &mut Rng, text: &[u8]) -> Vec<usize> {
    let style = g.below(4);
    let mut ends = vec![];
    let mut at = 0;
    while at < text.len() {
        at += match style { 0 => 1, 1 => text.len(), 2 => 1 + g.below(4), _ => 1 + g.below(60) };
        ends.push(at.min(text.len()));
    }
    ends
}
type Body = StreamBody<futures::stream::BoxStream<'static, Result<Frame<Bytes>, std::convert::Infallible>>>;
fn body(text: &[u8], ends: &[usize], polled: Arc<AtomicUsize>) -> Body {
    let mut from = 0;
    let frames: Vec<Bytes> = ends.iter().map(|e| { let b = Bytes::copy_from_slice(&text[from..*e]); from = *e; b }).collect();
    StreamBody::new(futures::stream::iter(frames).map(move |b| { polled.fetch_add(1, SeqCst); Ok(Frame::data(b)) }).boxed())
}
fn shown(r: &hive_router::executor::response::subgraph_response::SubgraphResponse<'static>) -> (J, Vec<String>) {
    (serde_json::from_str(&plain(&r.data)).unwrap_or(J::String("unreadable".into())), r.errors.iter().flatten().map(|e| e.message.clone()).collect())
}
fn plain(v: &hive_router::executor::response::value::Value) -> String { serde_json::to_string(v).unwrap() }
fn want_of(v: &J) -> (J, Vec<String>) {
    (v["data"].clone(), v["errors"].as_array().map(|a| a.iter().map(|e| e["message"].as_str().unwrap().to_string()).collect()).unwrap_or_default())
}
// what a stream delivers: each event with the number of frames read by then, and how it ends
fn deliver<E: std::fmt::Debug>(mut s: futures::stream::BoxStream<'static, Result<hive_router::executor::response::subgraph_response::SubgraphResponse<'static>, E>>, polled: Arc<AtomicUsize>) -> (Vec<((J, Vec<String>), usize)>, String, usize) {
    let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
    rt.block_on(async move {
        let mut out = vec![];
        let mut end = "end".to_string();
        while let Some(r) = s.next().await {
            match r { Ok(r) => out.push((shown(&r), polled.load(SeqCst))), Err(e) => { end = format!("error {e:?}"); break; } }
        }
        (out, end, polled.load(SeqCst))
    })
}
fn covering(ends: &[usize], at: usize) -> usize { ends.iter().position(|e| *e >= at).map_or(ends.len(), |i| i + 1) }
fn pretty(g: &mut Rng, v: &J) -> String { if g.chance(1, 3) { serde_json::to_string_pretty(v).unwrap() } else { v.to_string() } }

// ---- readers of what the router sends, from the specifications -----------------------------------
fn read_sse(text: &str) -> Vec<(String, String)> {
    let text = text.replace("\r\n", "\n").replace('\r', "\n");
    let (mut out, mut kind, mut data, mut any) = (vec![], String::new(), String::new(), false);
    for line in text.split('\n') {
        if line.is_empty() {
            if any || !kind.is_empty() { out.push((kind.clone(), data.trim_end_matches('\n').to_string())); }
            (kind, data, any) = (String::new(), String::new(), false);
            continue;
        }
        let (f, v) = match line.split_once(':') { Some((f, v)) => (f, v.strip_prefix(' ').unwrap_or(v)), None => (line, "") };
        match f { "event" => kind = v.into(), "data" => { data.push_str(v); data.push('\n'); any = true; }, _ => {} }
    }
    out
}
// the bodies of the parts, and whether the closing delimiter is there
fn read_multipart(text: &str, boundary: &str) -> (Vec<String>, bool) {
    let whole = format!("\r\n{text}");
    let mut pieces: Vec<&str> = whole.split(&format!("\r\n--{boundary}")).collect();
    pieces.remove(0);
    let mut out = vec![];
    for p in pieces {
        if p.starts_with("--") { return (out, true); }
        let p = p.strip_prefix("\r\n").unwrap_or(p);
        out.push(match p.split_once("\r\n\r\n") { Some((h, b)) if h.to_ascii_lowercase().contains("content-type: application/json") => b.to_string(), _ => format!("part without its header: {p}") });
    }
    (out, false)
}
fn main() {
    let mut run = Run::from_args("nontrivial: the stream carries an event; random events (texts that look like framing), framed with LF and CRLF mixed, comments, other fields, JSON over several lines, heartbeats, preambles, 5 boundaries, cut into frames at every place, one or random places; responses in, streams out");
    let mut g = run.rng(9);
    let total = run.n(900);
    for _ in 0..total {
        if !run.time_left() { break; }
        // ---- SSE in
        let n = g.below(4);
        let mut text = String::new();
        let mut want: Vec<((J, Vec<String>), usize)> = vec![];
        let nl = |g: &mut Rng, style: usize| match style { 0 => "\n", 1 => "\r\n", _ => if g.bool() { "\n" } else { "\r\n" } };
        let style = g.below(3);
        for k in 0..n {
            let v = event(&mut g, k);
            if g.chance(1, 4) { text += ":"; if g.bool() { text += " ping"; } text += nl(&mut g, style); if g.bool() { text += nl(&mut g, style); } }
            if g.chance(1, 8) { text += "event: ping"; text += nl(&mut g, style); text += nl(&mut g, style); }
            let first = g.bool();
            let ev = if g.bool() { "event: next" } else { "event:next" };
            if first { text += ev; text += nl(&mut g, style); }
            if g.chance(1, 5) { text += "id: 7"; text += nl(&mut g, style); }
            if g.chance(1, 6) { text += ": in between"; text += nl(&mut g, style); }
            for l in pretty(&mut g, &v).split('\n') { text += if g.bool() { "data: " } else { "data:" }; text += l; text += nl(&mut g, style); }
            if !first { text += ev; text += nl(&mut g, style); }
            text += nl(&mut g, style);
            want.push((want_of(&v), text.len()));
        }
        let complete = g.chance(3, 4);
        if complete { text += "event: complete"; text += nl(&mut g, style); if g.bool() { text += "data:"; text += nl(&mut g, style); } text += nl(&mut g, style); }
        let end_at = text.len();
        if complete && g.bool() { text += "event: next\ndata: {\"data\":{\"late\":1}}\n\n"; }
        let ends = cut(&mut g, text.as_bytes());
        run.case("sse-in", &|| format!("{text:?} cut at {ends:?}"), n > 0, || {
            let polled = Arc::new(AtomicUsize::new(0));
            let got = deliver(sse::parse_to_stream(body(text.as_bytes(), &ends, polled.clone()), None), polled);
            Run::eq((want.iter().map(|(v, at)| (v.clone(), covering(&ends, *at))).collect(), "end".to_string(), covering(&ends, end_at)), got)
        });
        // ---- multipart in
        let b = *g.pick(&["graphql", "-", "b", "---x", "a.b c"]);
        let n = g.below(4);
        let mut text = String::new();
        let mut want = vec![];
        let style = g.below(3);
        if g.chance(1, 6) { text += "preamble --"; text += b; text += " not yet"; text += nl(&mut g, style); } else if g.bool() { text += nl(&mut g, style); }
        text += &format!("--{b}");
        for k in 0..n {
            text += nl(&mut g, style);
            let v = event(&mut g, k);
            let beat = g.chance(1, 5);
            if g.chance(4, 5) { text += "Content-Type: application/json"; text += nl(&mut g, style); if g.chance(1, 5) { text += "X-B: 1"; text += nl(&mut g, style); } }
            text += if style == 1 { "\r\n" } else { "\n" };
            let wrapped = g.chance(2, 3);
            if beat { text += "{}"; } else if g.chance(1, 8) { text += &json!({"payload": null, "errors": [{"message": "gone"}]}).to_string(); want.push(((J::Null, vec!["gone".to_string()]), k)); }
            else { let w = if wrapped { json!({ "payload": v }) } else { v.clone() }; text += &pretty(&mut g, &w); want.push((want_of(&v), k)); }
            text += nl(&mut g, style);
            text += &format!("--{b}");
            for x in want.iter_mut() { if x.1 == k { x.1 = usize::MAX - text.len(); } }
        }
        for x in want.iter_mut() { if x.1 > usize::MAX / 2 { x.1 = usize::MAX - x.1; } }
        let closed = g.chance(3, 4);
        if closed { text += "--"; }
        let end_at = text.len();
        if g.bool() { text += nl(&mut g, style); if closed && g.bool() { text += "epilogue"; } }
        let ends = cut(&mut g, text.as_bytes());
        // headers and bodies mixing line ends cannot be told apart by every reader: only uniform ones here
        if style != 2 {
            run.case("multipart-in", &|| format!("boundary {b:?} {text:?} cut at {ends:?}"), n > 0, || {
                let polled = Arc::new(AtomicUsize::new(0));
                let got = deliver(mp::parse_to_stream(b, body(text.as_bytes(), &ends, polled.clone()), None), polled);
                let read = if closed { covering(&ends, end_at) } else { ends.len() };
                Run::eq((want.iter().map(|(v, at)| (v.clone(), covering(&ends, *at))).collect(), "end".to_string(), read), got)
            });
        }
        // ---- the boundary parameter
        let quoted = g.bool();
        let name = *g.pick(&["boundary", "Boundary", "BOUNDARY"]);
        let b = *g.pick(if quoted { &["graphql", "-", "a b", "a;b", ""] as &[&str] } else { &["graphql", "-", "ABC--x", "'", ""] });
        let before = *g.pick(&["multipart/mixed;", "multipart/mixed; ", "multipart/mixed; charset=UTF-8; ", "multipart/mixed;subscriptionSpec=\"1.0\";"]);
        let after = *g.pick(&["", ";subscriptionSpec=1.0", "; charset=utf-8", "  "]);
        let h = if quoted { format!("{before}{name}=\"{b}\"{after}") } else { format!("{before}{name}={b}{after}") };
        run.case("boundary", &|| h.clone(), true, || Run::eq((b.is_empty(), (!b.is_empty()).then_some(b)), { let r = mp::parse_boundary_from_header(&h); (r.is_err(), r.ok()) }));
        // ---- streams out
        let n = g.below(4);
        let items: Vec<String> = (0..n).map(|k| { let v = event(&mut g, k); let p = pretty(&mut g, &v); if g.chance(1, 4) { p.replace('\n', "\r\n") } else { p } }).collect();
        let same = |a: &[String], b: &[String]| -> Result<(), (String, String)> { Run::eq(a.iter().map(|x| serde_json::from_str::<J>(x).unwrap()).collect::<Vec<_>>(), b.iter().map(|x| serde_json::from_str::<J>(x).unwrap_or(J::String(format!("unreadable: {x}")))).collect()) };
        let beat = std::time::Duration::from_secs(600);
        let input = futures::stream::iter(items.iter().map(|x| x.clone().into_bytes()).collect::<Vec<_>>());
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
        run.case("sse-out", &|| format!("{items:?}"), n > 0, || {
            let parts: Vec<_> = rt.block_on(hive_router::pipeline::sse::create_stream(input.clone(), beat).collect());
            let text: Vec<u8> = parts.into_iter().flat_map(|x| x.unwrap().to_vec()).collect();
            let mut evs = read_sse(std::str::from_utf8(&text).unwrap());
            Run::eq(Some("complete".to_string()), evs.pop().map(|x| x.0))?;
            if let Some(e) = evs.iter().find(|e| e.0 != "next") { return Err(("next".into(), e.0.clone())); }
            same(&items, &evs.into_iter().map(|e| e.1).collect::<Vec<_>>())
        });
        for apollo in [false, true] {
            run.case(if apollo { "apollo-out" } else { "incremental-out" }, &|| format!("{items:?}"), n > 0, || {
                let parts: Vec<_> = if apollo { rt.block_on(hive_router::pipeline::multipart_subscribe::create_apollo_multipart_http_stream(input.clone(), beat).collect()) } else { rt.block_on(hive_router::pipeline::multipart_subscribe::create_incremental_delivery_stream(input.clone()).collect()) };
                let text: Vec<u8> = parts.into_iter().flat_map(|x| x.unwrap().to_vec()).collect();
                let (bodies, closed) = read_multipart(std::str::from_utf8(&text).unwrap(), if apollo { "graphql" } else { "-" });
                Run::eq(true, closed)?;
                let want: Vec<String> = items.iter().map(|x| if apollo { format!("{{\"payload\":{x}}}") } else { x.clone() }).collect();
                same(&want, &bodies)
            });
        }
    }
    // end to end: the events of a subgraph reach the client, whichever framing either side speaks
    use vh::e2e::{sdl, Resp, Router, Subgraphs};
    let sdl = sdl(&["a"], "type Query @join__type(graph: A) { v: Int }\ntype Subscription @join__type(graph: A) { e: E }\ntype E @join__type(graph: A) { n: Int t: String any: Any }\nscalar Any @join__type(graph: A)");
    let answer = Arc::new(std::sync::Mutex::new((String::new(), Vec::<u8>::new())));
    let a2 = answer.clone();
    let subs = Subgraphs::start(move |_| { let (k, b) = a2.lock().unwrap().clone(); Resp { status: 200, headers: vec![("content-type".into(), k)], body: b } });
    match Router::start("subscriptions: { enabled: true }\n", &sdl, Some(&subs)) {
        Err(e) => { run.case("e2e", &|| "start".into(), true, || Err(("the router starts".into(), e.clone()))); }
        Ok(r) => for _ in 0..run.n(60) {
            if !run.time_left() { break; }
            let n = 1 + g.below(3);
            let evs: Vec<J> = (0..n).map(|k| json!({"data": {"e": {"n": k, "t": *g.pick(TEXTS), "any": if g.bool() { json!({"x": [1, {"y": *g.pick(TEXTS)}], "z": *g.pick(TEXTS)}) } else { J::Null }}}})).collect();
            let from = g.below(2);
            let texts: Vec<String> = evs.iter().map(|v| pretty(&mut g, v)).collect();
            let (kind, body) = if from == 0 { ("text/event-stream", texts.iter().map(|t| format!("event: next\n{}\n\n", t.split('\n').map(|l| format!("data: {l}")).collect::<Vec<_>>().join("\n"))).collect::<String>() + "event: complete\n\n") }
                else { ("multipart/mixed; boundary=graphql", "--graphql".to_string() + &texts.iter().map(|t| format!("\r\nContent-Type: application/json\r\n\r\n{{\"payload\":{t}}}\r\n--graphql")).collect::<String>() + "--\r\n") };
            *answer.lock().unwrap() = (kind.to_string(), body.clone().into_bytes());
            let to = *g.pick(&["text/event-stream", "multipart/mixed;subscriptionSpec=\"1.0\", application/json", "multipart/mixed, application/json"]);
            run.case("e2e", &|| format!("to {to}: {body}"), true, || {
                let resp = r.send("POST", "/graphql", &[("content-type", "application/json"), ("accept", to)], br#"{"query":"subscription { e { n t any } }"}"#);
                let t = resp.text();
                let got: Vec<J> = if to.starts_with("text") {
                    let mut e = read_sse(&t);
                    Run::eq(Some("complete".to_string()), e.pop().map(|x| x.0))?;
                    e.into_iter().map(|x| serde_json::from_str(&x.1).unwrap_or(J::String(x.1))).collect()
                } else {
                    let apollo = to.contains("Spec");
                    let (b, closed) = read_multipart(&t, if apollo { "graphql" } else { "-" });
                    if !closed { return Err(("a closing delimiter".into(), t.clone())); }
                    b.iter().map(|x| serde_json::from_str::<J>(x).map(|j| if apollo { j["payload"].clone() } else { j }).unwrap_or(J::String(x.clone()))).collect()
                };
                Run::eq(evs.clone(), got)
            });
        }
    }
    // heartbeats are not events
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    for k in 0..3u64 {
        run.case("heartbeat", &|| format!("{k}"), true, || {
            let input = || futures::stream::iter(0..2).then(move |i| async move { tokio::time::sleep(std::time::Duration::from_millis(25)).await; json!({"data": {"n": i + k}}).to_string().into_bytes() }).boxed();
            let beat = std::time::Duration::from_millis(10);
            let want: Vec<J> = (0..2).map(|i| json!({"data": {"n": i + k}})).collect();
            let text: Vec<u8> = rt.block_on(hive_router::pipeline::sse::create_stream(input(), beat).collect::<Vec<_>>()).into_iter().flat_map(|x| x.unwrap().to_vec()).collect();
            let t = String::from_utf8(text).unwrap();
            let evs: Vec<J> = read_sse(&t).into_iter().filter(|e| e.0 == "next").map(|e| serde_json::from_str(&e.1).unwrap()).collect();
            Run::eq((want.clone(), true), (evs, t.contains(":\n\n")))?;
            let text: Vec<u8> = rt.block_on(hive_router::pipeline::multipart_subscribe::create_apollo_multipart_http_stream(input(), beat).collect::<Vec<_>>()).into_iter().flat_map(|x| x.unwrap().to_vec()).collect();
            let (bodies, closed) = read_multipart(std::str::from_utf8(&text).unwrap(), "graphql");
            let evs: Vec<J> = bodies.iter().map(|b| serde_json::from_str::<J>(b).unwrap()).filter(|b| *b != json!({})).map(|b| b["payload"].clone()).collect();
            Run::eq((want, true, true), (evs, closed, bodies.len() > 2))
        });
    }
    run.finish()
}
