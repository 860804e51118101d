//! Shared part of the replay / bounded harnesses.
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

pub mod e2e;
pub use hive_router::sonic_rs;

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(s: u64) -> Self { Rng(s.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03) }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.next() % n as u64) as usize } }
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.next() % den < num }
    pub fn bool(&mut self) -> bool { self.next() & 1 == 1 }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len())] }
}

pub struct Run {
    pub seed: u64,
    pub thorough: bool,
    pub replay: Option<String>,
    out: String,
    deadline: Instant,
    pub evaluations: u64,
    distinct: HashSet<u64>,
    samples: Vec<String>,
    failures: Vec<(String, String, String, String)>,
    groups: std::collections::BTreeMap<String, u64>,
    pub rule: String,
    pub exhaustive: bool,
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

impl Run {
    pub fn from_args(rule: &str) -> Run {
        let a: Vec<String> = std::env::args().collect();
        let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned());
        let budget: u64 = get("--budget").and_then(|s| s.parse().ok()).unwrap_or(20);
        std::panic::set_hook(Box::new(|_| {}));
        Run {
            seed: get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1),
            thorough: get("--tier").as_deref() == Some("thorough"),
            replay: get("--replay"),
            out: get("--out").unwrap_or("/dev/stdout".into()),
            deadline: Instant::now() + Duration::from_secs(budget),
            evaluations: 0,
            distinct: HashSet::new(),
            samples: vec![],
            failures: vec![],
            groups: Default::default(),
            rule: rule.to_string(),
            exhaustive: false,
        }
    }
    pub fn rng(&self, salt: u64) -> Rng { Rng::new(self.seed.wrapping_mul(1_000_003).wrapping_add(salt)) }
    pub fn time_left(&self) -> bool { Instant::now() < self.deadline && self.failures.len() < 40 }
    pub fn n(&self, quick: u64) -> u64 { if self.thorough { quick * 20 } else { quick } }
    /// One case. `input` is its written form, `nontrivial` whether it counts as such by the rule;
    /// `f` returns Ok or Err((expected, got)). A panic of the real code is a failure.
    pub fn case(&mut self, group: &str, input: &dyn Fn() -> String, nontrivial: bool, f: impl FnOnce() -> Result<(), (String, String)>) -> bool {
        self.evaluations += 1;
        *self.groups.entry(group.to_string()).or_default() += 1;
        let r = catch_unwind(AssertUnwindSafe(f));
        let s = input();
        if nontrivial {
            let mut h = std::collections::hash_map::DefaultHasher::new();
            (group, &s).hash(&mut h);
            if self.distinct.insert(h.finish()) && self.samples.len() < 6 && self.distinct.len() % 37 == 1 {
                self.samples.push(format!("{group}: {}", s.chars().take(400).collect::<String>()));
            }
        }
        let (e, g) = match r {
            Ok(Ok(())) => return true,
            Ok(Err(x)) => x,
            Err(p) => {
                let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                ("no panic".into(), format!("panic: {m}"))
            }
        };
        self.failures.push((format!("{group}|{s}"), s, e, g));
        false
    }
    pub fn eq<T: PartialEq + std::fmt::Debug>(want: T, got: T) -> Result<(), (String, String)> {
        if want == got { Ok(()) } else { Err((format!("{want:?}"), format!("{got:?}"))) }
    }
    pub fn finish(self) -> ! {
        let mut o = String::from("{\n");
        o += &format!(" \"evaluations\": {},\n \"distinct_nontrivial\": {},\n \"rule\": {},\n \"exhaustive\": {},\n", self.evaluations, self.distinct.len(), esc(&self.rule), self.exhaustive);
        o += &format!(" \"groups\": {{{}}},\n", self.groups.iter().map(|(k, v)| format!("{}: {v}", esc(k))).collect::<Vec<_>>().join(", "));
        o += &format!(" \"samples\": [{}],\n", self.samples.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", "));
        let mut f = self.failures.clone();
        f.sort_by_key(|x| x.1.len());
        f.truncate(20);
        o += &format!(" \"failures\": [{}]\n}}\n", f.iter().map(|(k, i, e, g)| format!("{{\"key\": {}, \"input\": {}, \"expected\": {}, \"got\": {}}}", esc(k), esc(i), esc(e), esc(g))).collect::<Vec<_>>().join(",\n  "));
        std::fs::write(&self.out, o).unwrap();
        std::process::exit(if self.failures.is_empty() { 0 } else { 1 })
    }
}

/// HS256 tokens and the key set that verifies them.
pub mod jwt {
    use base64::Engine;
    use serde_json::{json, Value as J};
    pub const SECRET: &[u8] = b"0123456789abcdef0123456789abcdef";
    pub fn b64(b: &[u8]) -> String { base64::engine::general_purpose::URL_SAFE_NO_PAD.encode(b) }
    pub fn oct(secret: &[u8], kid: Option<&str>, alg: Option<&str>) -> J {
        let mut k = json!({"kty": "oct", "k": b64(secret), "use": "sig"});
        if let Some(x) = kid { k["kid"] = json!(x); }
        if let Some(x) = alg { k["alg"] = json!(x); }
        k
    }
    pub fn jwks(keys: &[J]) -> String { json!({ "keys": keys }).to_string() }
    pub fn sign(alg: jsonwebtoken::Algorithm, secret: &[u8], kid: Option<&str>, claims: &J) -> String {
        let mut h = jsonwebtoken::Header::new(alg);
        h.kid = kid.map(|s| s.to_string());
        jsonwebtoken::encode(&h, claims, &jsonwebtoken::EncodingKey::from_secret(secret)).unwrap()
    }
    pub fn token(claims: &J) -> String { sign(jsonwebtoken::Algorithm::HS256, SECRET, Some("k1"), claims) }
    pub fn default_jwks() -> String { jwks(&[oct(SECRET, Some("k1"), Some("HS256"))]) }
}
