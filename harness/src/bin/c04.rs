// C04: authorization directives. Oracle: the operation executed on the whole data with every
// unauthorized field null, null propagation as in the specification.
use serde_json::{json, Value as J};
use std::collections::{BTreeMap, BTreeSet};
use vh::e2e::*;
use vh::*;

const LINKS: &str = r#"@link(url: "https://specs.apollo.dev/requiresScopes/v0.1", for: SECURITY) @link(url: "https://specs.apollo.dev/authenticated/v0.1", for: SECURITY)"#;
#[derive(Clone, Debug)]
enum Rule { Auth, Scopes(Vec<Vec<&'static str>>) }
type Rules = BTreeMap<String, Rule>;
fn dir(r: &Rules, k: &str) -> String {
    match r.get(k) { None => String::new(), Some(Rule::Auth) => " @authenticated".into(), Some(Rule::Scopes(s)) => format!(" @requiresScopes(scopes: {})", serde_json::to_string(s).unwrap()) }
}
// (type, field, output type, list, non-null, owner graph)
const FIELDS: &[(&str, &str, &str, u8, bool, &str)] = &[
    ("Query", "me", "User", 0, false, "a"), ("Query", "you", "User", 0, true, "a"), ("Query", "nodes", "Node", 1, false, "a"),
    ("Query", "node", "Node", 0, false, "a"), ("Query", "anys", "Any", 2, false, "a"), ("Query", "q", "String", 0, false, "a"), ("Query", "bq", "Int", 0, false, "b"),
    ("Node", "id", "ID", 0, false, ""), ("Node", "label", "String", 0, false, ""),
    ("User", "id", "ID", 0, false, ""), ("User", "label", "String", 0, false, "a"), ("User", "uname", "String", 0, false, "a"), ("User", "email", "String", 0, true, "a"),
    ("User", "best", "User", 0, false, "a"), ("User", "pals", "User", 1, true, "a"), ("User", "udoc", "Doc", 0, false, "a"), ("User", "docs", "Doc", 2, false, "a"),
    ("User", "level", "Level", 0, false, "a"), ("User", "bval", "Int", 0, false, "b"), ("User", "bdoc", "Doc", 0, true, "b"), ("User", "tok", "Tok", 0, false, "a"),
    ("Doc", "id", "ID", 0, false, ""), ("Doc", "label", "String", 0, false, "a"), ("Doc", "title", "String", 0, false, "a"), ("Doc", "author", "User", 0, true, "a"), ("Doc", "btitle", "String", 0, true, "b"),
    ("Org", "id", "ID", 0, false, ""), ("Org", "label", "String", 0, false, "a"), ("Org", "oname", "String", 0, false, "a"), ("Org", "bname", "String", 0, false, "b"),
];
fn composite(t: &str) -> bool { ["User", "Doc", "Org", "Node", "Any", "Query"].contains(&t) }
fn sdl_of(r: &Rules) -> String {
    let mut s = String::from("directive @requiresScopes(scopes: [[federation__Scope!]!]!) on OBJECT | FIELD_DEFINITION | INTERFACE | SCALAR | ENUM\ndirective @authenticated on OBJECT | FIELD_DEFINITION | INTERFACE | SCALAR | ENUM\nscalar federation__Scope\n");
    let head = [("Query", "type Query @join__type(graph: A) @join__type(graph: B)"), ("Node", "interface Node @join__type(graph: A)"),
        ("User", "type User implements Node @join__implements(graph: A, interface: \"Node\") @join__type(graph: A, key: \"id\") @join__type(graph: B, key: \"id\")"),
        ("Doc", "type Doc implements Node @join__implements(graph: A, interface: \"Node\") @join__type(graph: A, key: \"id\") @join__type(graph: B, key: \"id\")"),
        ("Org", "type Org implements Node @join__implements(graph: A, interface: \"Node\") @join__type(graph: A, key: \"id\") @join__type(graph: B, key: \"id\")")];
    for (t, h) in head {
        s += &format!("{h}{} {{\n", dir(r, t));
        for f in FIELDS.iter().filter(|f| f.0 == t) {
            let ty = match (f.3, f.4) { (0, n) => format!("{}{}", f.2, if n { "!" } else { "" }), (1, n) => format!("[{}!]{}", f.2, if n { "!" } else { "" }), (_, n) => format!("[{}]{}", f.2, if n { "!" } else { "" }) };
            let j = if f.5.is_empty() { String::new() } else { format!(" @join__field(graph: {})", f.5.to_uppercase()) };
            s += &format!("  {}: {ty}{}{j}\n", f.1, dir(r, &format!("{t}.{}", f.1)));
        }
        s += "}\n";
    }
    s + &format!("union Any @join__type(graph: A) @join__unionMember(graph: A, member: \"User\") @join__unionMember(graph: A, member: \"Doc\") = User | Doc\nenum Level @join__type(graph: A){} {{ LOW @join__enumValue(graph: A) HIGH @join__enumValue(graph: A) }}\nscalar Tok @join__type(graph: A){}\n", dir(r, "Level"), dir(r, "Tok"))
}
fn user(k: u32, d: u32) -> J {
    let mut o = json!({"__typename": "User", "id": format!("u{k}"), "label": format!("ul{k}"), "uname": format!("un{k}"), "email": format!("ue{k}"), "level": if k % 2 == 0 { "LOW" } else { "HIGH" }, "bval": 100 + k, "tok": format!("tk{k}")});
    if d > 0 { o["best"] = user(k + 1, d - 1); o["pals"] = json!([user(k + 2, d - 1), user(k + 3, d - 1)]); o["udoc"] = doc(k, d - 1); o["docs"] = json!([doc(k + 1, d - 1), J::Null, doc(k + 2, d - 1)]); o["bdoc"] = doc(k + 4, d - 1); }
    o
}
fn doc(k: u32, d: u32) -> J {
    let mut o = json!({"__typename": "Doc", "id": format!("d{k}"), "label": format!("dl{k}"), "title": format!("dt{k}"), "btitle": format!("db{k}")});
    if d > 0 { o["author"] = user(k + 7, d - 1); }
    o
}
fn org(k: u32) -> J { json!({"__typename": "Org", "id": format!("o{k}"), "label": format!("ol{k}"), "oname": format!("on{k}"), "bname": format!("ob{k}")}) }
fn root() -> J { json!({"__typename": "Query", "q": "qq", "bq": 5, "me": user(1, 4), "you": user(2, 4), "nodes": [user(3, 4), org(1), doc(5, 4)], "node": org(2), "anys": [doc(6, 4), J::Null, user(9, 4)]}) }

#[derive(Clone, Debug)]
enum S { F { id: usize, key: String, name: &'static str, cond: Option<(bool, usize)>, sub: Vec<S> }, I { ty: &'static str, cond: Option<(bool, usize)>, sub: Vec<S> } }
struct G<'a> { r: &'a mut Rng, n: usize }
impl G<'_> {
    fn cond(&mut self) -> Option<(bool, usize)> { if self.r.chance(1, 8) { Some((self.r.bool(), self.r.below(2))) } else { None } }
    fn set(&mut self, ty: &'static str, depth: usize) -> Vec<S> {
        let n = 1 + self.r.below(4);
        let mut out: Vec<S> = vec![];
        for _ in 0..n {
            if matches!(ty, "Node" | "Any") && self.r.chance(1, 2) || ty == "Any" {
                let t = if ty == "Any" { *self.r.pick(&["User", "Doc"]) } else { *self.r.pick(&["User", "Doc", "Org"]) };
                let cond = self.cond();
                let sub = self.set(t, depth);
                out.push(S::I { ty: t, cond, sub });
                continue;
            }
            let fs: Vec<_> = FIELDS.iter().filter(|f| f.0 == ty && (depth > 0 || !composite(f.2))).collect();
            let f = *self.r.pick(&fs);
            self.n += 1;
            let id = self.n;
            // plain keys collide across fragments of different types; sub-selections and conditions only where the key is unique
            let plain = !composite(f.2) && self.r.chance(2, 3);
            let key = if plain { f.1.to_string() } else { format!("k{id}") };
            let cond = if plain { None } else { self.cond() };
            let sub = if composite(f.2) { self.set(f.2, depth.saturating_sub(1)) } else { vec![] };
            out.push(S::F { id, key, name: f.1, cond, sub });
        }
        out
    }
}
fn text(s: &[S]) -> String {
    let c = |c: &Option<(bool, usize)>| c.map(|(i, v)| format!(" @{}(if: $v{v})", if i { "include" } else { "skip" })).unwrap_or_default();
    let v: Vec<String> = s.iter().map(|x| match x {
        S::F { key, name, cond, sub, .. } => format!("{}{name}{}{}", if key == name { String::new() } else { format!("{key}: ") }, c(cond), if sub.is_empty() { String::new() } else { text(sub) }),
        S::I { ty, cond, sub } => format!("... on {ty}{}{}", c(cond), text(sub)),
    }).collect();
    format!(" {{ {} }}", v.join(" "))
}
struct O<'a> { rules: &'a Rules, auth: bool, scopes: &'a [&'static str], vars: [bool; 2], rejected: BTreeSet<usize>, seen: BTreeMap<&'static str, bool>, errors: BTreeSet<String> }
impl O<'_> {
    fn on(&self, c: &Option<(bool, usize)>) -> bool { c.is_none_or(|(i, v)| self.vars[v] == i) }
    fn ok(&self, k: &str) -> bool { match self.rules.get(k) { None => true, Some(Rule::Auth) => self.auth, Some(Rule::Scopes(s)) => self.auth && s.iter().any(|g| g.iter().all(|x| self.scopes.contains(x))) } }
    fn all(&mut self, s: &[S]) { for x in s { match x { S::F { id, .. } => { self.rejected.insert(*id); } S::I { sub, .. } => self.all(sub) } } }
    fn set(&mut self, ty: &str, s: &[S], path: &str) -> bool {
        let mut up = false;
        for x in s {
            match x {
                S::F { id, key, name, cond, sub } => {
                    if !self.on(cond) { continue; }
                    let f = FIELDS.iter().find(|f| f.0 == ty && f.1 == *name).unwrap();
                    let p = if path.is_empty() { key.clone() } else { format!("{path}.{key}") };
                    let own = self.ok(ty) && self.ok(&format!("{ty}.{name}")) && self.ok(f.2);
                    let bad = if !own { self.errors.insert(p); true } else if sub.is_empty() { false } else { self.set(f.2, sub, &p) };
                    if bad { self.rejected.insert(*id); up |= f.4; }
                }
                S::I { ty: t, cond, sub } => {
                    if !self.on(cond) { continue; }
                    if self.ok(t) { up |= self.set(t, sub, path); } else { self.errors.insert(path.to_string()); self.all(sub); }
                }
            }
        }
        up
    }
    fn names(&mut self, s: &[S]) { for x in s { match x { S::F { id, name, sub, .. } => if !self.rejected.contains(id) { self.seen.insert(name, true); self.names(sub); }, S::I { sub, .. } => self.names(sub) } } }
    // a selection of which nothing is left to ask for
    fn gone(&self, s: &[S]) -> bool { s.iter().all(|x| match x { S::F { id, sub, .. } => self.rejected.contains(id) || !sub.is_empty() && self.gone(sub), S::I { sub, .. } => self.gone(sub) }) }
    // (key, field, allowed selections) in order
    fn collect<'s>(&self, s: &'s [S], ty: &str, out: &mut Vec<(String, &'static str, Vec<&'s S>)>) {
        for x in s { match x {
            S::F { key, name, cond, .. } => if self.on(cond) { match out.iter_mut().find(|o| o.0 == *key) { Some(o) => o.2.push(x), None => out.push((key.clone(), name, vec![x])) } },
            S::I { ty: t, cond, sub } => if self.on(cond) && *t == ty { self.collect(sub, ty, out) },
        } }
    }
    // None: null that must propagate
    fn exec(&self, sets: &[&[S]], obj: &J) -> Option<J> {
        let ty = obj["__typename"].as_str().unwrap().to_string();
        let mut v = vec![];
        for s in sets { self.collect(s, &ty, &mut v); }
        let mut m = serde_json::Map::new();
        for (k, name, sels) in v {
            let f = FIELDS.iter().find(|f| f.0 == ty && f.1 == name).unwrap();
            let live: Vec<&[S]> = sels.iter().filter_map(|x| match x { S::F { id, sub, .. } if !self.rejected.contains(id) && (sub.is_empty() || !self.gone(sub)) => Some(&sub[..]), _ => None }).collect();
            let val = if live.is_empty() { None } else { self.value(&live, f, &obj[name]) };
            match val { Some(x) => { m.insert(k, x); } None => { if f.4 { return None; } m.insert(k, J::Null); } }
        }
        Some(J::Object(m))
    }
    fn value(&self, sets: &[&[S]], f: &(&str, &str, &str, u8, bool, &str), v: &J) -> Option<J> {
        match v {
            J::Null => None,
            J::Array(a) => { let mut o = vec![]; for x in a { match if x.is_null() { None } else { self.exec(sets, x) } { Some(x) => o.push(x), None => { if f.3 == 1 { return None; } o.push(J::Null) } } } Some(J::Array(o)) }
            J::Object(_) => self.exec(sets, v),
            x => Some(x.clone()),
        }
    }
}
fn rules(r: &mut Rng, k: usize) -> Rules {
    let mut m = Rules::new();
    let mut one = |r: &mut Rng| match r.below(5) { 0 | 1 => Rule::Auth, 2 => Rule::Scopes(vec![vec!["s0"]]), 3 => Rule::Scopes(vec![vec!["s0", "s1"], vec!["s2"]]), _ => Rule::Scopes(vec![vec!["s1"], vec!["s3"]]) };
    let mut fix = |k: &str, x: Rule| { m.insert(k.into(), x); };
    match k {
        0 => { fix("User.email", Rule::Auth); fix("Tok", Rule::Scopes(vec![vec!["s0"]])); }
        1 => { fix("Node.id", Rule::Auth); fix("Org.id", Rule::Auth); fix("Doc.id", Rule::Scopes(vec![vec!["s0"]])); fix("User.bval", Rule::Auth); }
        2 => { fix("User", Rule::Scopes(vec![vec!["s0", "s1"], vec!["s2"]])); fix("Level", Rule::Auth); }
        3 => { fix("Doc", Rule::Auth); fix("User.id", Rule::Scopes(vec![vec!["s3"]])); fix("Query.bq", Rule::Auth); }
        4 => { fix("Doc.btitle", Rule::Scopes(vec![vec!["s0"]])); fix("Query.you", Rule::Scopes(vec![vec!["s1"]])); fix("Org", Rule::Auth); }
        5 => { fix("User.uname", Rule::Auth); fix("Doc.title", Rule::Auth); }
        _ => {}
    }
    if k > 5 || k == 4 { for f in FIELDS { if r.chance(1, 6) { let x = one(r); m.insert(format!("{}.{}", f.0, f.1), x); } } }
    m
}
fn main() {
    let mut run = Run::from_args("nontrivial: at least one selection is unauthorized; random operations (aliases, fragments, @skip/@include, entity fetches over two subgraphs) under fixed and random rule assignments, users with and without tokens and scopes, both modes");
    let whole = root();
    let mut ents = vec![];
    for k in 0..40 { ents.push(user(k, 4)); ents.push(doc(k, 4)); ents.push(org(k)); }
    let d = data::Data { root: whole.clone(), mutation: J::Null, entities: ents };
    let subs = Subgraphs::start(move |q| Resp::json_of(data::execute(&d, &q.json(), &|n, t| t == "Node" || t == "Any" && n != "Org" || n == t).unwrap_or(json!({"errors": [{"message": "bad"}]}))));
    let mut r = run.rng(4);
    for k in 0..if run.thorough { 24 } else { 8 } {
        let ru = rules(&mut r, k);
        let s = sdl_with(&["a", "b"], LINKS, &sdl_of(&ru));
        let mode = if k % 4 == 3 { "reject" } else { "filter" };
        let cfg = format!("jwt: {{ enabled: true, require_authentication: false, jwks_providers: [ {{ source: file, path: SCRATCH/jwks.json }} ] }}\nauthorization: {{ directives: {{ enabled: true, unauthorized: {{ mode: {mode} }} }} }}\n");
        let rt = match Router::start_env(&cfg, &s, Some(&subs), &[], &[("jwks.json", &jwt::default_jwks())]) { Ok(r) => r, Err(e) => { eprintln!("router: {e}"); std::process::exit(3) } };
        let fixed: Vec<Vec<S>> = vec![vec![S::F { id: 1, key: "nodes".into(), name: "nodes", cond: None, sub: vec![
            S::F { id: 2, key: "id".into(), name: "id", cond: None, sub: vec![] },
            S::I { ty: "User", cond: None, sub: vec![S::F { id: 3, key: "id".into(), name: "id", cond: None, sub: vec![] }] },
            S::I { ty: "Org", cond: None, sub: vec![S::F { id: 4, key: "bname".into(), name: "bname", cond: None, sub: vec![] }] }] }]];
        for i in 0..run.n(60) {
            if !run.time_left() { break; }
            let mut g = G { r: &mut r, n: 10 };
            let q = if (i as usize) < fixed.len() { fixed[i as usize].clone() } else { g.set("Query", 3) };
            let vars = [r.bool(), r.bool()];
            let auth = r.chance(2, 3);
            let scopes: Vec<&'static str> = ["s0", "s1", "s2", "s3"].into_iter().filter(|_| r.chance(1, 3)).collect();
            let mut claims = json!({"sub": "x", "exp": 4000000000u64});
            let mut tok = None;
            if auth {
                let mut sc: Vec<&str> = scopes.clone();
                if r.bool() { sc.push("other"); }
                match r.below(3) { 0 if sc.is_empty() => {} 0 | 1 => claims["scope"] = json!(sc.join(" ")), _ => claims["scope"] = json!(sc) }
                tok = Some(format!("Bearer {}", jwt::token(&claims)));
            }
            let none: Vec<&'static str> = vec![];
            let mut o = O { rules: &ru, auth, scopes: if auth { &scopes } else { &none }, vars, rejected: Default::default(), seen: Default::default(), errors: Default::default() };
            o.set("Query", &q, "");
            o.names(&q);
            let body = text(&q);
            let decl: Vec<String> = (0..2).filter(|v| body.contains(&format!("$v{v}"))).map(|v| format!("$v{v}: Boolean!")).collect();
            let mut vs = serde_json::Map::new();
            for v in 0..2 { if body.contains(&format!("$v{v}")) { vs.insert(format!("v{v}"), json!(vars[v])); } }
            let qs = format!("query{}{body}", if decl.is_empty() { String::new() } else { format!(" ({})", decl.join(", ")) });
            let req = json!({"query": qs, "variables": vs});
            let hs: Vec<(&str, &str)> = tok.iter().map(|t| ("authorization", t.as_str())).collect();
            let resp = rt.post(&req, &hs);
            let log = subs.take_log();
            let show = || format!("{mode} rules {ru:?} user auth={auth} scopes={:?} | {req}", claims["scope"]);
            run.case(mode, &show, !o.errors.is_empty(), || {
                let j = resp.json();
                let got: BTreeSet<String> = j["errors"].as_array().map(|a| a.iter().filter(|e| e["extensions"]["code"] == "UNAUTHORIZED_FIELD_OR_TYPE").map(|e| e["extensions"]["affectedPath"].as_str().unwrap_or("").to_string()).collect()).unwrap_or_default();
                let asked: Vec<String> = log.iter().map(|q| q.query()).collect();
                for f in FIELDS {
                    if ["id", "label"].contains(&f.1) || o.seen.contains_key(f.1) { continue; }
                    if asked.iter().any(|t| t.split(|c: char| !c.is_ascii_alphanumeric()).any(|w| w == f.1)) { return Err((format!("no subgraph is asked for {}", f.1), asked.join(" ;; "))); }
                }
                if mode == "reject" && !o.errors.is_empty() {
                    if !asked.is_empty() { return Err(("rejected before any subgraph call".into(), asked.join(" ;; "))); }
                    if !j["data"].is_null() { return Err(("no data".into(), resp.text())); }
                    return Run::eq(o.errors.clone(), got);
                }
                let want = o.exec(&[&q], &whole).unwrap_or(J::Null);
                if j["data"] != want { return Err((want.to_string(), resp.text())); }
                Run::eq(o.errors.clone(), got)
            });
        }
    }
    run.finish()
}
