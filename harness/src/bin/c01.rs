// C01: merging of Cache-Control. Oracle: the rule of the contract, read off the list of headers.
use hive_router::executor::headers::{cache_control::finalize, plan::HeaderAggregationStrategy as S, response::ResponseHeaderAggregator};
use http::{header::CACHE_CONTROL, HeaderName, HeaderValue};
use std::collections::BTreeSet;
use vh::*;

#[derive(Clone, Debug, Default, PartialEq)]
struct D { poison: bool, public: bool, must: bool, age: Option<u32> }

fn understand(raw: &[u8]) -> Option<D> {
    let s = HeaderValue::from_bytes(raw).ok()?.to_str().ok()?.to_string();
    if s.trim().is_empty() { return None; }
    let mut d = D::default();
    for part in s.split(',').map(|p| p.trim()).filter(|p| !p.is_empty()) {
        let (n, v) = match part.find('=') { Some(i) => (part[..i].trim(), Some(part[i + 1..].trim())), None => (part, None) };
        match n.to_ascii_lowercase().as_str() {
            "no-store" | "no-cache" | "private" => d.poison = true,
            "public" => d.public = true,
            "must-revalidate" => d.must = true,
            "max-age" => d.age = Some(v?.parse().ok()?),
            _ => return None,
        }
    }
    Some(d)
}
fn want(vs: &[Vec<u8>], force: bool, total: usize) -> Option<BTreeSet<String>> {
    if vs.is_empty() { return None; }
    let set = |v: &[&str]| v.iter().map(|s| s.to_string()).collect::<BTreeSet<_>>();
    if force { return Some(set(&["no-store", "no-cache", "must-revalidate"])); }
    let ds: Vec<D> = vs.iter().filter_map(|v| understand(v)).collect();
    if ds.is_empty() { return None; }
    if ds.iter().any(|d| d.poison) { return Some(set(&["no-store", "no-cache"])); }
    let mut out = BTreeSet::new();
    if ds.len() == vs.len() && ds.len() >= total && ds.iter().all(|d| d.public) { out.insert("public".to_string()); }
    if ds.iter().any(|d| d.must) { out.insert("must-revalidate".to_string()); }
    if let Some(a) = ds.iter().filter_map(|d| d.age).min() { out.insert(format!("max-age={a}")); }
    Some(out)
}
fn one(run: &mut Run, g: &str, vs: &[Vec<u8>], force: bool, total: usize) {
    let show = || format!("{:?} force_no_store={force} responses={total}", vs.iter().map(|v| String::from_utf8_lossy(v).into_owned()).collect::<Vec<_>>());
    run.case(g, &show, !vs.is_empty(), || {
        let mut a = ResponseHeaderAggregator::default();
        let other = HeaderName::from_static("x-other");
        a.entries.insert(other.clone(), (S::Append, vec![HeaderValue::from_static("1"), HeaderValue::from_static("2")]));
        if !vs.is_empty() { a.entries.insert(CACHE_CONTROL, (S::Append, vs.iter().map(|v| HeaderValue::from_bytes(v).unwrap()).collect())); }
        finalize(&mut a, force, total);
        let got = a.entries.get(&CACHE_CONTROL).map(|(_, v)| {
            assert_eq!(v.len(), 1, "exactly one value is left");
            v[0].to_str().unwrap().split(',').map(|s| s.trim().to_string()).filter(|s| !s.is_empty()).collect::<BTreeSet<_>>()
        });
        Run::eq(2, a.entries.get(&other).map(|x| x.1.len()).unwrap_or(0))?;
        Run::eq(want(vs, force, total), got)
    });
}
fn main() {
    let mut run = Run::from_args("nontrivial: at least one Cache-Control value collected; exhaustive over all ordered lists of up to 3 of the listed header texts (2 for the full list), x force_no_store x responses 0..=4, then random lists of up to 6");
    let core: Vec<&str> = vec!["private=\"x-user\", max-age=8", "public", "max-age=60", "public, max-age=30", "must-revalidate, max-age=5", "no-store", "private, max-age=9", "bogus", "public, must-revalidate"];
    let full: Vec<Vec<u8>> = ["public", "public, max-age=60", "public, max-age=0", "max-age=4294967295", "max-age=4294967296", "max-age=abc", "max-age", "MAX-AGE = 7 , PUBLIC", "must-revalidate",
        "no-cache", "no-store", "private", "Private", "No-Store, public, max-age=10", "public, no-cache", "", "  ", ",", " , public,, ", "bogus", "public, bogus", "s-maxage=3", "max-age=10, max-age=3", "max-age=3, max-age=10",
        "public, must-revalidate, max-age=77", "immutable", "max-age=-1", "max-age=", "public=1", "private=\"x-user\", max-age=30", "no-cache=\"set-cookie\", max-age=30", "no-cache=x", "public, no-cache=\"a\"", "no-store=1", "must-revalidate=1, max-age=4", "s-maxage=5, private"].iter().map(|s| s.as_bytes().to_vec()).chain([b"public, \xff".to_vec()]).collect();
    let core: Vec<Vec<u8>> = core.iter().map(|s| s.as_bytes().to_vec()).collect();
    let combos = [(false, 0), (false, 1), (false, 2), (false, 3), (false, 4), (true, 2)];
    for (f, t) in combos {
        one(&mut run, "0", &[], f, t);
        for a in &full { one(&mut run, "1", &[a.clone()], f, t); }
        for a in &full { for b in &full { one(&mut run, "2", &[a.clone(), b.clone()], f, t); } }
        for a in &core { for b in &core { for c in &core { one(&mut run, "3", &[a.clone(), b.clone(), c.clone()], f, t); } } }
    }
    let mut r = run.rng(1);
    for _ in 0..run.n(6000) {
        if !run.time_left() { break; }
        let n = 1 + r.below(6);
        let vs: Vec<Vec<u8>> = (0..n).map(|_| if r.chance(1, 5) { r.pick(&full).clone() } else {
            let mut parts = vec![];
            for p in ["public", "must-revalidate", "no-store", "private", "no-cache"] { if r.chance(if p.starts_with("no") || p == "private" { 1 } else { 8 }, 16) { parts.push(p.to_string()); } }
            if r.chance(2, 3) { parts.push(format!("max-age={}", r.below(500))); }
            for i in (1..parts.len()).rev() { let j = r.below(i + 1); parts.swap(i, j); }
            parts.join(if r.bool() { "," } else { ", " }).into_bytes()
        }).collect();
        let t = if r.bool() { n } else { r.below(8) };
        one(&mut run, "random", &vs, r.chance(1, 10), t);
    }
    run.exhaustive = false;
    run.finish()
}
