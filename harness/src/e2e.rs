//! The compiled router as a black box: a process running /repo's entry point, programmable
//! subgraphs on loopback, and a small HTTP/1.1 client. Everything stays in a scratch directory.
use serde_json::{json, Value as J};
use std::collections::BTreeMap;
use std::io::{BufRead, BufReader, Write};
use std::net::{TcpListener, TcpStream};
use std::process::{Child, Command, Stdio};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub type Headers = Vec<(String, String)>;

#[derive(Clone, Debug, Default)]
pub struct Req { pub method: String, pub path: String, pub headers: Headers, pub body: Vec<u8> }
impl Req {
    pub fn header(&self, n: &str) -> Option<&str> { self.headers.iter().find(|(k, _)| k.eq_ignore_ascii_case(n)).map(|x| x.1.as_str()) }
    pub fn all(&self, n: &str) -> Vec<&str> { self.headers.iter().filter(|(k, _)| k.eq_ignore_ascii_case(n)).map(|x| x.1.as_str()).collect() }
    pub fn json(&self) -> J { serde_json::from_slice(&self.body).unwrap_or(J::Null) }
    pub fn query(&self) -> String { self.json()["query"].as_str().unwrap_or("").to_string() }
}
#[derive(Clone, Debug, Default)]
pub struct Resp { pub status: u16, pub headers: Headers, pub body: Vec<u8> }
impl Resp {
    pub fn json_of(v: J) -> Resp { Resp { status: 200, headers: vec![("content-type".into(), "application/json".into())], body: v.to_string().into_bytes() } }
    pub fn with(mut self, k: &str, v: &str) -> Resp { self.headers.push((k.into(), v.into())); self }
    pub fn header(&self, n: &str) -> Option<&str> { self.headers.iter().find(|(k, _)| k.eq_ignore_ascii_case(n)).map(|x| x.1.as_str()) }
    pub fn all(&self, n: &str) -> Vec<&str> { self.headers.iter().filter(|(k, _)| k.eq_ignore_ascii_case(n)).map(|x| x.1.as_str()).collect() }
    pub fn text(&self) -> String { String::from_utf8_lossy(&self.body).into_owned() }
    pub fn json(&self) -> J { serde_json::from_slice(&self.body).unwrap_or(J::Null) }
    /// data present and not null, and no errors
    pub fn clean(&self) -> bool { let j = self.json(); !j["data"].is_null() && j.get("errors").is_none_or(|e| e.as_array().is_some_and(|a| a.is_empty())) }
    pub fn error_codes(&self) -> Vec<String> {
        self.json()["errors"].as_array().map(|a| a.iter().map(|e| e["extensions"]["code"].as_str().unwrap_or("").to_string()).collect()).unwrap_or_default()
    }
}

fn read_head(r: &mut impl BufRead) -> Option<(String, Headers)> {
    let mut first = String::new();
    if r.read_line(&mut first).ok()? == 0 { return None; }
    let mut hs = vec![];
    loop {
        let mut raw = vec![];
        r.read_until(b'\n', &mut raw).ok()?;
        let l: String = raw.iter().map(|b| *b as char).collect();
        let l = l.trim_end_matches(['\r', '\n']);
        if l.is_empty() { break; }
        if let Some((k, v)) = l.split_once(':') { hs.push((k.to_string(), v.trim_start().to_string())); }
    }
    Some((first.trim_end().to_string(), hs))
}
fn read_body(r: &mut impl BufRead, hs: &Headers, to_eof: bool) -> Option<Vec<u8>> {
    let get = |n: &str| hs.iter().find(|(k, _)| k.eq_ignore_ascii_case(n)).map(|x| x.1.clone());
    if get("transfer-encoding").is_some_and(|v| v.to_ascii_lowercase().contains("chunked")) {
        let mut out = vec![];
        loop {
            let mut l = String::new();
            if r.read_line(&mut l).ok()? == 0 { return Some(out); }
            let n = usize::from_str_radix(l.trim().split(';').next()?, 16).ok()?;
            let mut b = vec![0; n + 2];
            r.read_exact(&mut b).ok()?;
            if n == 0 { return Some(out); }
            out.extend_from_slice(&b[..n]);
        }
    }
    if let Some(n) = get("content-length").and_then(|v| v.parse::<usize>().ok()) {
        let mut b = vec![0; n];
        r.read_exact(&mut b).ok()?;
        return Some(b);
    }
    let mut b = vec![];
    if to_eof { let _ = r.read_to_end(&mut b); }
    Some(b)
}

type Handler = Arc<dyn Fn(&Req) -> Resp + Send + Sync>;
pub struct Subgraphs { pub port: u16, pub log: Arc<Mutex<Vec<Req>>>, handler: Arc<Mutex<Handler>> }
impl Subgraphs {
    pub fn start(h: impl Fn(&Req) -> Resp + Send + Sync + 'static) -> Subgraphs {
        let l = TcpListener::bind("127.0.0.1:0").unwrap();
        let port = l.local_addr().unwrap().port();
        let log: Arc<Mutex<Vec<Req>>> = Default::default();
        let handler: Arc<Mutex<Handler>> = Arc::new(Mutex::new(Arc::new(h)));
        let (lg, hd) = (log.clone(), handler.clone());
        std::thread::spawn(move || {
            for s in l.incoming().flatten() {
                let (lg, hd) = (lg.clone(), hd.clone());
                std::thread::Builder::new().stack_size(1 << 20).spawn(move || {
                    let _ = s.set_nodelay(true);
                    let mut w = s.try_clone().unwrap();
                    let mut r = BufReader::new(s);
                    while let Some((first, headers)) = read_head(&mut r) {
                        let mut p = first.split(' ');
                        let method = p.next().unwrap_or("").to_string();
                        let path = p.next().unwrap_or("").to_string();
                        let Some(body) = read_body(&mut r, &headers, false) else { break };
                        let q = Req { method, path, headers, body };
                        let h = hd.lock().unwrap().clone();
                        lg.lock().unwrap().push(q.clone());
                        let a = h(&q);
                        if a.status == 0 { break; } // connection dropped
                        let mut o = format!("HTTP/1.1 {} X\r\n", a.status).into_bytes();
                        for (k, v) in &a.headers { o.extend(k.bytes()); o.extend(b": "); o.extend(v.chars().map(|c| c as u32 as u8)); o.extend(b"\r\n"); }
                        o.extend(format!("content-length: {}\r\n\r\n", a.body.len()).bytes());
                        o.extend(&a.body);
                        if w.write_all(&o).is_err() { break; }
                    }
                }).ok();
            }
        });
        Subgraphs { port, log, handler }
    }
    pub fn set(&self, h: impl Fn(&Req) -> Resp + Send + Sync + 'static) { *self.handler.lock().unwrap() = Arc::new(h); }
    pub fn take_log(&self) -> Vec<Req> { std::mem::take(&mut *self.log.lock().unwrap()) }
    pub fn url(&self, name: &str) -> String { format!("http://127.0.0.1:{}/{name}", self.port) }
}

pub struct Router { child: Child, pub port: u16, dir: std::path::PathBuf, pub graphql: String }
impl Drop for Router {
    fn drop(&mut self) { let _ = self.child.kill(); let _ = self.child.wait(); let _ = std::fs::remove_dir_all(&self.dir); }
}
fn free_port() -> u16 { TcpListener::bind("127.0.0.1:0").unwrap().local_addr().unwrap().port() }

impl Router {
    /// `config`: YAML without `http.port` and `supergraph`; `SUBGRAPHS` in the SDL stands for the
    /// mock's base URL. Err: the router did not come up (its output is returned).
    pub fn start(config: &str, sdl: &str, subs: Option<&Subgraphs>) -> Result<Router, String> { Self::start_env(config, sdl, subs, &[], &[]) }
    pub fn start_env(config: &str, sdl: &str, subs: Option<&Subgraphs>, env: &[(&str, &str)], files: &[(&str, &str)]) -> Result<Router, String> {
        static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        let k = N.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        let mut last = String::new();
        for attempt in 0..4 {
            let dir = std::env::temp_dir().join(format!("vh-{}-{k}-{attempt}", std::process::id()));
            std::fs::create_dir_all(&dir).unwrap();
            let port = free_port();
            let base = subs.map(|s| format!("http://127.0.0.1:{}", s.port)).unwrap_or("http://127.0.0.1:9".into());
            std::fs::write(dir.join("supergraph.graphql"), sdl.replace("SUBGRAPHS", &base)).unwrap();
            for (n, t) in files { std::fs::write(dir.join(n), t).unwrap(); }
            // `http:` settings of the caller are given as a line `http_extra: <flow mapping body>`
            let mut extra = String::new();
            let mut rest = String::new();
            for l in config.lines() { match l.strip_prefix("http_extra:") { Some(x) => extra = format!(", {}", x.trim()), None => { rest.push_str(l); rest.push('\n'); } } }
            let rest = rest.replace("SCRATCH", dir.to_str().unwrap()).replace("SUBGRAPHS", &base);
            let cfg = format!("http: {{ host: 127.0.0.1, port: {port}, workers: 1{extra} }}\nsupergraph: {{ source: file, path: {} }}\n{rest}", dir.join("supergraph.graphql").display());
            std::fs::write(dir.join("router.yaml"), &cfg).unwrap();
            let exe = std::env::current_exe().unwrap().parent().unwrap().join("router");
            let log = std::fs::File::create(dir.join("out.log")).unwrap();
            let mut c = Command::new(exe);
            c.env_clear().env("PATH", "/usr/bin:/bin").env("HOME", &dir).env("CARGO", "1").env("RUST_MIN_STACK", "16777216")
                .env("ROUTER_CONFIG_FILE_PATH", dir.join("router.yaml")).current_dir(&dir)
                .stdin(Stdio::null()).stdout(log.try_clone().unwrap()).stderr(log);
            for (k, v) in env { c.env(k, v); }
            let mut child = c.spawn().expect("router binary is built");
            let t = Instant::now();
            let mut up = false;
            let mut exited = None;
            while t.elapsed() < Duration::from_secs(25) {
                if let Ok(Some(st)) = child.try_wait() { exited = Some(st); break; }
                if let Ok(r) = http(port, "GET", "/readiness", &[], b"") { if r.status == 200 { up = true; break; } }
                std::thread::sleep(Duration::from_millis(20));
            }
            let gp = "/graphql".to_string();
            let mut r = Router { child, port, dir: dir.clone(), graphql: gp };
            if up { return Ok(r); }
            let _ = r.child.kill();
            last = std::fs::read_to_string(dir.join("out.log")).unwrap_or_default();
            let tail: String = last.chars().rev().take(3000).collect::<Vec<_>>().into_iter().rev().collect();
            last = format!("exited={exited:?} {tail}");
            if !last.contains("ddress already in use") && exited.is_some() { return Err(last); }
        }
        Err(last)
    }
    pub fn log(&self) -> String { std::fs::read_to_string(self.dir.join("out.log")).unwrap_or_default() }
    pub fn alive(&mut self) -> bool { matches!(self.child.try_wait(), Ok(None)) }
    pub fn send(&self, method: &str, path: &str, headers: &[(&str, &str)], body: &[u8]) -> Resp {
        for _ in 0..3 { if let Ok(r) = http(self.port, method, path, headers, body) { return r; } }
        Resp::default()
    }
    pub fn post(&self, body: &J, headers: &[(&str, &str)]) -> Resp {
        let mut h = vec![("content-type", "application/json")];
        h.extend_from_slice(headers);
        self.send("POST", &self.graphql, &h, body.to_string().as_bytes())
    }
    pub fn query(&self, q: &str) -> Resp { self.post(&json!({ "query": q }), &[]) }
}

/// One request on a connection of its own.
pub fn http(port: u16, method: &str, path: &str, headers: &[(&str, &str)], body: &[u8]) -> Result<Resp, String> {
    let mut s = TcpStream::connect(("127.0.0.1", port)).map_err(|e| e.to_string())?;
    let _ = s.set_nodelay(true);
    s.set_read_timeout(Some(Duration::from_secs(20))).ok();
    let mut o = format!("{method} {path} HTTP/1.1\r\nhost: localhost\r\nconnection: close\r\n").into_bytes();
    for (k, v) in headers { o.extend(k.bytes()); o.extend(b": "); o.extend(v.chars().map(|c| c as u32 as u8)); o.extend(b"\r\n"); }
    if !headers.iter().any(|(k, _)| k.eq_ignore_ascii_case("transfer-encoding") || k.eq_ignore_ascii_case("content-length")) && (method == "POST" || !body.is_empty()) {
        o.extend(format!("content-length: {}\r\n", body.len()).bytes());
    }
    o.extend(b"\r\n");
    o.extend(body);
    let _ = s.write_all(&o);
    let mut r = BufReader::new(s);
    let (first, hs) = read_head(&mut r).ok_or("no response")?;
    let status = first.split(' ').nth(1).and_then(|x| x.parse().ok()).unwrap_or(0);
    let body = if method == "HEAD" || status == 204 || status == 304 { vec![] } else { read_body(&mut r, &hs, true).ok_or("truncated body")? };
    Ok(Resp { status, headers: hs, body })
}

// ---------------------------------------------------------------------------------------------
// A subgraph that answers any operation from data: fields are looked up by name in JSON objects,
// `_entities` by __typename and the key fields given.
pub mod data {
    use super::*;
    use graphql_tools::parser::query::*;
    pub struct Data { pub root: J, pub mutation: J, pub entities: Vec<J> }
    type V = Value<'static, String>;
    fn val(v: &V, vars: &J) -> J {
        match v {
            Value::Variable(n) => vars.get(n.as_str()).cloned().unwrap_or(J::Null),
            Value::Int(i) => json!(i.as_i64()),
            Value::Float(f) => json!(f),
            Value::String(s) => json!(s),
            Value::Boolean(b) => json!(b),
            Value::Null => J::Null,
            Value::Enum(s) => json!(s),
            Value::List(l) => J::Array(l.iter().map(|x| val(x, vars)).collect()),
            Value::Object(o) => J::Object(o.iter().map(|(k, v)| (k.to_string(), val(v, vars))).collect()),
        }
    }
    fn on(d: &[Directive<'static, String>], vars: &J) -> bool {
        d.iter().all(|d| {
            let c = d.arguments.iter().find(|a| a.0 == "if").map(|a| val(&a.1, vars));
            match (d.name.as_str(), c) { ("skip", Some(v)) => v != json!(true), ("include", Some(v)) => v == json!(true), _ => true }
        })
    }
    pub struct Ctx<'a> { data: &'a Data, frags: BTreeMap<String, FragmentDefinition<'static, String>>, vars: J, pub is_type: &'a dyn Fn(&str, &str) -> bool }
    fn collect(c: &Ctx, set: &SelectionSet<'static, String>, obj: &J, out: &mut serde_json::Map<String, J>) {
        for s in &set.items {
            match s {
                Selection::Field(f) => {
                    if !on(&f.directives, &c.vars) { continue; }
                    let key = f.alias.clone().unwrap_or(f.name.clone());
                    let v = if f.name == "_entities" {
                        let reps = f.arguments.iter().find(|a| a.0 == "representations").map(|a| val(&a.1, &c.vars)).unwrap_or(J::Null);
                        J::Array(reps.as_array().cloned().unwrap_or_default().iter().map(|r| {
                            let hit = c.data.entities.iter().find(|e| r.as_object().is_some_and(|o| o.iter().all(|(k, v)| { let w = &e[k.as_str()]; w == v || !w.is_null() && w.to_string() == v.to_string() || (k != "__typename" && k != "id" && k != "upc" && k != "sku") })));
                            match hit { Some(e) => shape(c, &f.selection_set, e), None => J::Null }
                        }).collect())
                    } else { shape(c, &f.selection_set, &obj[f.name.as_str()]) };
                    match (out.get_mut(&key), v) { (Some(old), v) => merge(old, v), (None, v) => { out.insert(key, v); } }
                }
                Selection::InlineFragment(i) => {
                    if !on(&i.directives, &c.vars) { continue; }
                    let ok = match &i.type_condition { Some(TypeCondition::On(t)) => applies(c, obj, t), None => true };
                    if ok { collect(c, &i.selection_set, obj, out); }
                }
                Selection::FragmentSpread(f) => {
                    if !on(&f.directives, &c.vars) { continue; }
                    if let Some(d) = c.frags.get(&f.fragment_name) { let TypeCondition::On(t) = &d.type_condition; if applies(c, obj, t) { collect(c, &d.selection_set, obj, out); } }
                }
            }
        }
    }
    fn merge(a: &mut J, b: J) { match (a, b) { (J::Object(a), J::Object(b)) => for (k, v) in b { match a.get_mut(&k) { Some(o) => merge(o, v), None => { a.insert(k, v); } } }, (J::Array(a), J::Array(b)) => for (x, y) in a.iter_mut().zip(b) { merge(x, y) }, _ => {} } }
    fn applies(c: &Ctx, obj: &J, t: &str) -> bool { match obj["__typename"].as_str() { Some(n) => n == t || (c.is_type)(n, t), None => true } }
    fn shape(c: &Ctx, set: &SelectionSet<'static, String>, v: &J) -> J {
        match v {
            J::Array(a) => J::Array(a.iter().map(|x| shape(c, set, x)).collect()),
            J::Object(_) if !set.items.is_empty() => { let mut m = serde_json::Map::new(); collect(c, set, v, &mut m); J::Object(m) }
            x => x.clone(),
        }
    }
    /// Executes the request's operation; None if it does not parse.
    pub fn execute(d: &Data, q: &J, is_type: &dyn Fn(&str, &str) -> bool) -> Option<J> {
        let doc = parse_query::<String>(q["query"].as_str()?).ok()?.into_static();
        let mut frags = BTreeMap::new();
        let mut ops = vec![];
        for x in &doc.definitions { match x { Definition::Fragment(f) => { frags.insert(f.name.clone(), f.clone()); } Definition::Operation(o) => ops.push(o.clone()) } }
        let want = q["operationName"].as_str();
        let op = ops.iter().find(|o| { let n = match o { OperationDefinition::Query(q) => &q.name, OperationDefinition::Mutation(m) => &m.name, OperationDefinition::Subscription(s) => &s.name, _ => &None }; want.is_none() || n.as_deref() == want })?;
        let mut vars = q["variables"].clone();
        if vars.is_null() { vars = json!({}); }
        let (set, root, defs) = match op { OperationDefinition::Query(q) => (&q.selection_set, &d.root, q.variable_definitions.clone()), OperationDefinition::Mutation(m) => (&m.selection_set, &d.mutation, m.variable_definitions.clone()), OperationDefinition::Subscription(s) => (&s.selection_set, &d.root, vec![]), OperationDefinition::SelectionSet(s) => (s, &d.root, vec![]) };
        for v in &defs { if let (true, Some(x)) = (vars.get(&v.name).is_none(), &v.default_value) { vars[v.name.as_str()] = val(x, &json!({})); } }
        let c = Ctx { data: d, frags, vars, is_type };
        let mut m = serde_json::Map::new();
        collect(&c, set, root, &mut m);
        Some(json!({ "data": J::Object(m) }))
    }
}

/// A supergraph SDL: the join boilerplate for the named graphs (uppercase enum values, lowercase
/// names and paths) followed by `body`.
pub fn sdl(graphs: &[&str], body: &str) -> String { sdl_with(graphs, "", body) }
pub fn sdl_with(graphs: &[&str], links: &str, body: &str) -> String {
    let mut s = String::from(r#"
schema @link(url: "https://specs.apollo.dev/link/v1.0") @link(url: "https://specs.apollo.dev/join/v0.3", for: EXECUTION) LINKS { ROOTS }
directive @join__enumValue(graph: join__Graph!) repeatable on ENUM_VALUE
directive @join__field(graph: join__Graph, requires: join__FieldSet, provides: join__FieldSet, type: String, external: Boolean, override: String, usedOverridden: Boolean) repeatable on FIELD_DEFINITION | INPUT_FIELD_DEFINITION
directive @join__graph(name: String!, url: String!) on ENUM_VALUE
directive @join__implements(graph: join__Graph!, interface: String!) repeatable on OBJECT | INTERFACE
directive @join__type(graph: join__Graph!, key: join__FieldSet, extension: Boolean! = false, resolvable: Boolean! = true, isInterfaceObject: Boolean! = false) repeatable on OBJECT | INTERFACE | UNION | ENUM | INPUT_OBJECT | SCALAR
directive @join__unionMember(graph: join__Graph!, member: String!) repeatable on UNION
directive @link(url: String, as: String, for: link__Purpose, import: [link__Import]) repeatable on SCHEMA
scalar join__FieldSet
scalar link__Import
enum link__Purpose { SECURITY EXECUTION }
"#);
    let mut roots = "query: Query".to_string();
    if body.contains("type Mutation") { roots += " mutation: Mutation"; }
    if body.contains("type Subscription") { roots += " subscription: Subscription"; }
    s = s.replace("ROOTS", &roots).replace("LINKS", links);
    s += "enum join__Graph {\n";
    for g in graphs { s += &format!("  {} @join__graph(name: \"{g}\", url: \"SUBGRAPHS/{g}\")\n", g.to_uppercase()); }
    s + "}\n" + body
}
