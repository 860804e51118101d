// C10: JWT authentication. Oracle: lookup, key, algorithm and claims rules as documented, on HMAC tokens.
use jsonwebtoken::Algorithm as Alg;
use serde_json::{json, Value as J};
use vh::e2e::*;
use vh::*;

const SECRETS: [&[u8]; 3] = [b"0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef", b"fedcba9876543210fedcba9876543210fedcba9876543210fedcba9876543210", b"another-secret-of-sixty-four-bytes-another-secret-of-sixty-four-"];
const ALGS: [(Alg, &str); 3] = [(Alg::HS256, "HS256"), (Alg::HS384, "HS384"), (Alg::HS512, "HS512")];
#[derive(Clone, Debug)]
struct Key { secret: usize, kid: Option<&'static str>, alg: Option<usize> }
#[derive(Clone, Debug)]
enum Loc { Header(&'static str, Option<&'static str>), Cookie(&'static str) }
#[derive(Clone, Debug)]
struct Cfg { sets: Vec<Vec<Key>>, issuers: Option<Vec<&'static str>>, auds: Option<Vec<&'static str>>, allowed: Option<Vec<usize>>, locs: Option<Vec<Loc>>, require: Option<bool>, scopes: Option<&'static str> }
fn cfg(r: &mut Rng) -> Cfg {
    let kids = [None, Some("k1"), Some("k2"), Some("k3")];
    let sets = (0..1 + r.below(3)).map(|_| (0..1 + r.below(3)).map(|_| Key { secret: r.below(2), kid: *r.pick(&kids), alg: if r.bool() { Some(r.below(3)) } else { None } }).collect()).collect();
    let sub = |r: &mut Rng, xs: &[&'static str]| -> Option<Vec<&'static str>> { if r.chance(1, 2) { None } else { let v: Vec<_> = xs.iter().filter(|_| r.bool()).copied().collect(); if v.is_empty() { Some(vec![xs[0]]) } else { Some(v) } } };
    let locs = if r.chance(1, 4) { None } else { Some((0..1 + r.below(3)).map(|_| match r.below(6) { 0 => Loc::Header("authorization", Some("Bearer")), 1 => Loc::Header("x-token", None), 2 => Loc::Header("x-auth", Some("Tok ")), 3 => Loc::Cookie("auth"), 4 => Loc::Cookie("tok"), _ => Loc::Header("x-auth", None) }).collect()) };
    Cfg { sets, issuers: sub(r, &["https://iss", "me", "iss2"]), auds: sub(r, &["a1", "a2", "a3"]), allowed: if r.bool() { None } else { Some((0..3).filter(|_| r.chance(2, 3)).collect()) }, locs, require: *r.pick(&[None, Some(true), Some(true), Some(false)]), scopes: *r.pick(&[None, None, Some("roles"), Some("scope")]) }
}
impl Cfg {
    fn locs(&self) -> Vec<Loc> { self.locs.clone().unwrap_or(vec![Loc::Header("authorization", Some("Bearer"))]) }
    fn yaml(&self) -> String {
        let providers = (0..self.sets.len()).map(|i| format!("{{ source: file, path: SCRATCH/k{i}.json }}")).collect::<Vec<_>>().join(", ");
        let mut s = format!("jwt: {{ enabled: true, forward_claims_to_upstream_extensions: {{ enabled: true, field_name: who }}, jwks_providers: [ {providers} ]");
        if let Some(x) = &self.issuers { s += &format!(", issuers: {}", json!(x)); }
        if let Some(x) = &self.auds { s += &format!(", audiences: {}", json!(x)); }
        if let Some(x) = &self.allowed { s += &format!(", allowed_algorithms: {}", json!(x.iter().map(|a| ALGS[*a].1).collect::<Vec<_>>())); }
        if let Some(x) = self.require { s += &format!(", require_authentication: {x}"); }
        if let Some(x) = self.scopes { s += &format!(", scopes_claim: {x}"); }
        if let Some(x) = &self.locs { s += &format!(", lookup_locations: {}", json!(x.iter().map(|l| match l { Loc::Header(n, Some(p)) => json!({"source": "header", "name": n, "prefix": p}), Loc::Header(n, None) => json!({"source": "header", "name": n}), Loc::Cookie(n) => json!({"source": "cookies", "name": n}) }).collect::<Vec<_>>())); }
        s + " }\nauthorization: { directives: { enabled: true, unauthorized: { mode: filter } } }\n"
    }
    fn jwks(&self, i: usize) -> String { jwt::jwks(&self.sets[i].iter().map(|k| jwt::oct(SECRETS[k.secret], k.kid, k.alg.map(|a| ALGS[a].1))).collect::<Vec<_>>()) }
    // the text of the token that the locations give
    fn lookup(&self, hs: &[(String, String)]) -> Option<String> {
        let get = |n: &str| hs.iter().find(|h| h.0 == n).map(|h| h.1.clone());
        for l in self.locs() {
            match l {
                Loc::Header(n, p) => if let Some(v) = get(n) { return match p { None => Some(v), Some(p) => v.strip_prefix(p).map(|x| x.trim().to_string()) }; },
                Loc::Cookie(n) => if let Some(v) = get("cookie") { for c in v.split(';') { if let Some((k, x)) = c.split_once('=') { if k.trim() == n { return Some(x.trim().trim_matches('"').to_string()); } } } },
            }
        }
        None
    }
    fn accepts(&self, t: &Tok, now: i64) -> bool {
        let set = t.kid.and_then(|k| self.sets.iter().find(|s| s.iter().any(|x| x.kid == Some(k)))).or_else(|| self.sets.iter().find(|s| s.iter().any(|x| x.alg == Some(t.alg))));
        let Some(set) = set else { return false };
        let signed = !t.broken && set.iter().any(|k| k.secret == t.secret && k.alg.is_none_or(|a| a == t.alg) && self.allowed.as_ref().is_none_or(|v| v.contains(&t.alg)));
        let c = &t.claims;
        let aud: Option<Vec<&str>> = match &c["aud"] { J::String(s) => Some(vec![s]), J::Array(a) => Some(a.iter().map(|x| x.as_str().unwrap()).collect()), _ => None };
        signed && c["exp"].as_i64().is_some_and(|e| e >= now - 60) && c["nbf"].as_i64().is_none_or(|e| e <= now + 60)
            && self.issuers.as_ref().is_none_or(|v| c["iss"].as_str().is_some_and(|i| v.contains(&i)))
            && self.auds.as_ref().is_none_or(|v| aud.is_some_and(|a| !a.is_empty() && a.iter().all(|x| v.contains(x))))
    }
}
#[derive(Clone, Debug)]
struct Tok { secret: usize, alg: usize, kid: Option<&'static str>, claims: J, broken: bool, text: String }
// a token with a part changed
fn tampered(r: &mut Rng, mut t: Tok) -> Tok {
    t.broken = true;
    let p: Vec<&str> = t.text.split('.').collect();
    if p.len() < 3 || p[2].len() < 4 { return t; }
    let mut other = t.claims.clone(); other["sub"] = json!("admin");
    t.text = match r.below(6) {
        0 => format!("{}.{}.", p[0], p[1]),
        1 => format!("{}.{}.{}", p[0], jwt::b64(other.to_string().as_bytes()), p[2]),
        2 => format!("{}.{}.{}", jwt::b64(json!({"alg": "none", "typ": "JWT", "kid": t.kid}).to_string().as_bytes()), p[1], p[2]),
        3 => format!("{}.{}.{}", jwt::b64(json!({"alg": "none"}).to_string().as_bytes()), p[1], ""),
        4 => "not-a-token".into(),
        _ => format!("{}.{}.{}A", p[0], p[1], &p[2][..p[2].len() - 3]),
    };
    t
}
fn tok(r: &mut Rng, c: &Cfg, now: i64) -> Tok {
    let mut cl = json!({ "sub": format!("u{}", r.below(3)) });
    if !r.chance(1, 15) { cl["exp"] = json!(now + *r.pick(&[3600, 3600, 3600, 3600, 20, 100000, -20, -3600, -70])); }
    if r.chance(1, 4) { cl["nbf"] = json!(now + *r.pick(&[-3600, -5, 20, 3600, 90])); }
    let iss = ["https://iss", "me", "iss2", "other", "m", "ME"]; let auds = ["a1", "a2", "a3", "a4", "a", "A1"];
    // mostly what the configuration wants
    if r.chance(4, 5) { cl["iss"] = json!(if r.chance(3, 4) { c.issuers.as_ref().map_or("me", |v| *r.pick(v)) } else { *r.pick(&iss) }); }
    let one = |r: &mut Rng| if r.chance(3, 4) { c.auds.as_ref().map_or("a1", |v| *r.pick(v)) } else { *r.pick(&auds) };
    match r.below(8) { 0 => {} 1..=3 => { cl["aud"] = json!(one(r)); } _ => { let n = r.below(10).min(3); cl["aud"] = json!((0..n).map(|_| one(r)).collect::<Vec<_>>()); } }
    let scopes = |r: &mut Rng| -> J { let v: Vec<&str> = ["read", "write", "reader"].iter().filter(|_| r.bool()).copied().collect(); match r.below(5) { 0 => json!(v.join(" ")), 1 => json!(v.join(",")), 2 => json!(7), _ => json!(v) } };
    for n in ["scope", "scopes", "roles"] { if r.bool() { cl[n] = scopes(r); } }
    let all: Vec<&Key> = c.sets.iter().flatten().collect();
    let k = *r.pick(&all);
    let mut t = Tok { secret: k.secret, alg: k.alg.unwrap_or(r.below(3)), kid: k.kid, claims: cl, broken: false, text: String::new() };
    match r.below(8) { 0 => t.secret = r.below(3), 1 => t.alg = r.below(3), 2 => t.kid = *r.pick(&[None, Some("k1"), Some("k2"), Some("k3"), Some("k9"), Some("K1")]), 3 => t.broken = true, _ => {} }
    t.text = jwt::sign(ALGS[t.alg].0, SECRETS[t.secret], t.kid, &t.claims);
    if t.broken { t = tampered(r, t); }
    t
}
fn now() -> i64 { std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs() as i64 }
fn scopes(c: &Cfg, cl: &J) -> Vec<String> {
    let v = match c.scopes { Some(n) => cl.get(n), None => cl.get("scope").or(cl.get("scopes")) };
    match v { Some(J::String(s)) => s.split(' ').map(|x| x.to_string()).collect(), Some(J::Array(a)) => a.iter().filter_map(|x| x.as_str().map(|x| x.to_string())).collect(), _ => vec![] }
}
fn main() {
    let mut run = Run::from_args("nontrivial: a token is sent; random key sets, issuers, audiences, algorithms, lookup locations; valid, foreign, tampered, unsigned and expired tokens, each sent again; claims forwarded and scopes observed through authorization directives");
    let mut r = run.rng(10);
    let s = sdl_with(&["a"], r#"@link(url: "https://specs.apollo.dev/authenticated/v0.1", for: SECURITY) @link(url: "https://specs.apollo.dev/requiresScopes/v0.1", for: SECURITY)"#, r#"directive @authenticated on FIELD_DEFINITION | OBJECT | INTERFACE | SCALAR | ENUM
scalar requiresScopes__Scope
directive @requiresScopes(scopes: [[requiresScopes__Scope!]!]!) on FIELD_DEFINITION | OBJECT | INTERFACE | SCALAR | ENUM
type Query @join__type(graph: A) { v: Int w: Int @authenticated s: Int @requiresScopes(scopes: [["read"]]) }"#);
    let subs = Subgraphs::start(|q| { let t = q.query(); let mut o = json!({}); for n in ["v", "w", "s"] { if t.replace("query", "").contains(n) { o[n] = json!(1); } } Resp::json_of(json!({ "data": o })) });
    for k in 0..run.n(14) {
        if !run.time_left() { break; }
        let c = cfg(&mut r);
        let y = c.yaml();
        let files: Vec<(String, String)> = (0..c.sets.len()).map(|i| (format!("k{i}.json"), c.jwks(i))).collect();
        let fr: Vec<(&str, &str)> = files.iter().map(|f| (f.0.as_str(), f.1.as_str())).collect();
        let rt = match Router::start_env(&y, &s, Some(&subs), &[], &fr) { Ok(r) => r, Err(e) => { run.case("start", &|| y.clone(), true, || Err(("the router starts".into(), e.clone()))); continue; } };
        let mut old: Vec<Tok> = vec![];
        for _ in 0..60 {
            if !run.time_left() { break; }
            let t = if !old.is_empty() && r.chance(1, 3) { let o = r.pick(&old).clone(); if r.chance(1, 4) { tampered(&mut r, o) } else { o } } else { tok(&mut r, &c, now()) };
            let mut hs: Vec<(String, String)> = vec![];
            let second = if r.chance(1, 6) { Some(tok(&mut r, &c, now())) } else { None };
            for (i, t) in [Some(&t), second.as_ref()].into_iter().flatten().enumerate() {
                let l = if r.chance(5, 6) { r.pick(&c.locs()).clone() } else { Loc::Header("x-auth", Some("Bearer ")) };
                match l {
                    Loc::Header(n, p) => if !hs.iter().any(|h| h.0 == n) {
                        let p = if r.chance(1, 12) { *r.pick(&["", "bearer ", "Basic ", "Token"]) } else { p.unwrap_or("") };
                        hs.push((n.into(), format!("{p}{}{}", if p == "Bearer" { *r.pick(&[" ", "", "  "]) } else { "" }, t.text)));
                    },
                    Loc::Cookie(n) => if i == 0 { let junk = *r.pick(&["", "a=b; ", "xauth=zz; ; ", "auth2=1;", "bad; "]); hs.push(("cookie".into(), format!("{junk}{n}={}{}", t.text, r.pick(&["", "; z=1", " "])))); },
                }
            }
            if r.chance(1, 12) { hs.clear(); }
            let text = c.lookup(&hs);
            let who = text.as_ref().and_then(|x| [Some(&t), second.as_ref()].into_iter().flatten().find(|t| t.text == *x));
            let good = who.filter(|t| c.accepts(t, now())).cloned();
            let sent = !hs.is_empty();
            run.case("token", &|| format!("config {k} {y} keys {:?} headers {hs:?} token {t:?}", c.sets), sent, || {
                let h: Vec<(&str, &str)> = hs.iter().map(|(a, b)| (a.as_str(), b.as_str())).collect();
                subs.take_log();
                let resp = rt.post(&json!({"query": "{ v w s }"}), &h);
                let log = subs.take_log();
                match &good {
                    None if c.require == Some(true) => Run::eq((if text.is_none() { 401 } else { 403 }, 0, true), (resp.status, log.len(), resp.json()["data"].is_null())),
                    None => Run::eq((200, json!({"v": 1, "w": null, "s": null}), vec![J::Null]), (resp.status, resp.json()["data"].clone(), log.iter().map(|q| q.json()["extensions"]["who"].clone()).collect())),
                    Some(t) => {
                        let s = if scopes(&c, &t.claims).iter().any(|x| x == "read") { json!(1) } else { J::Null };
                        Run::eq((200, json!({"v": 1, "w": 1, "s": s}), vec![t.claims.clone()]), (resp.status, resp.json()["data"].clone(), log.iter().map(|q| q.json()["extensions"]["who"].clone()).collect()))
                    }
                }
            });
            old.push(t);
        }
    }
    // a token that was accepted is not accepted after its time (60 seconds of leeway), cached or not
    let y = "jwt: { enabled: true, require_authentication: true, jwks_providers: [ { source: file, path: SCRATCH/k.json } ] }";
    if let Ok(rt) = Router::start_env(y, &s, Some(&subs), &[], &[("k.json", &jwt::default_jwks())]) {
        let t = jwt::token(&json!({"sub": "x", "exp": now() - 57}));
        let b = format!("Bearer {t}");
        let ask = || rt.post(&json!({"query": "{ v }"}), &[("authorization", &b)]).status;
        run.case("expiry", &|| "a token 57 seconds past exp, twice, and once more after 5 seconds".into(), true, || { let a = (ask(), ask()); std::thread::sleep(std::time::Duration::from_secs(5)); Run::eq(((200, 200), 403), (a, ask())) });
    }
    run.finish()
}
