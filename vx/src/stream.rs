//! Rewrites, at the level of tokens and before the file is parsed, the two macros whose bodies are
//! control flow:
//!   `async_stream::stream! { B }`          => `stream_body({ B })`, `yield E` in B => `yields(E)`
//!   `tokio::select! { P = E => B .. }`     => `match any_branch() { 0 => { let P = E; B } .. }`
//! Everything else of the file stays as it is, byte for byte.
use crate::*;
use proc_macro2::{Delimiter, Group, TokenStream, TokenTree};

type Ed = Vec<(Range<usize>, String)>;

fn is_p(t: &TokenTree, c: char) -> bool { matches!(t, TokenTree::Punct(p) if p.as_char() == c) }
fn is_i(t: &TokenTree, n: &str) -> bool { matches!(t, TokenTree::Ident(i) if i == n) }
fn brace(t: Option<&TokenTree>) -> Option<&Group> {
    match t { Some(TokenTree::Group(g)) if g.delimiter() == Delimiter::Brace => Some(g), _ => None }
}

fn walk(ts: TokenStream, inside: bool, ed: &mut Ed) {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut i = 0;
    while i < v.len() {
        for (krate, name) in [("async_stream", "stream"), ("tokio", "select")] {
            if i + 5 < v.len() && is_i(&v[i], krate) && is_p(&v[i + 1], ':') && is_p(&v[i + 2], ':') && is_i(&v[i + 3], name) && is_p(&v[i + 4], '!') {
                if let Some(g) = brace(v.get(i + 5)) {
                    let head = rng(v[i].span()).start..rng(v[i + 4].span()).end;
                    if name == "stream" {
                        ed.push((head, "stream_body(".into()));
                        let e = rng(g.span_close()).end;
                        ed.push((e..e, ")".into()));
                        walk(g.stream(), true, ed);
                    } else {
                        ed.push((head, "match any_branch()".into()));
                        select(g, inside, ed);
                    }
                    i += 6;
                }
            }
            if i >= v.len() { return; }
        }
        if i >= v.len() { return; }
        if inside && is_i(&v[i], "yield") {
            let mut j = i + 1;
            while j < v.len() && !is_p(&v[j], ';') && !is_p(&v[j], ',') { j += 1; }
            ed.push((rng(v[i].span()), "yields(".into()));
            let e = rng(v[j - 1].span()).end;
            ed.push((e..e, ")".into()));
        }
        if let TokenTree::Group(g) = &v[i] { walk(g.stream(), inside, ed); }
        i += 1;
    }
}

fn select(g: &Group, inside: bool, ed: &mut Ed) {
    let v: Vec<TokenTree> = g.stream().into_iter().collect();
    let mut i = 0;
    if v.len() > 1 && is_i(&v[0], "biased") { 
        ed.push((rng(v[0].span()).start..rng(v[1].span()).end, String::new()));
        i = 2;
    }
    let mut k = 0;
    let mut arms = vec![];
    while i < v.len() {
        let start = i;
        // PATTERN = EXPR => BODY
        let mut eq = start;
        while eq < v.len() && !(is_p(&v[eq], '=') && !v.get(eq + 1).map_or(false, |t| is_p(t, '>'))) { eq += 1; }
        let mut ar = eq + 1;
        while ar + 1 < v.len() && !(is_p(&v[ar], '=') && is_p(&v[ar + 1], '>')) { ar += 1; }
        if ar + 2 >= v.len() { break; }
        let body = ar + 2;
        let mut end = body;
        if brace(v.get(body)).is_none() { while end + 1 < v.len() && !is_p(&v[end + 1], ',') { end += 1; } }
        arms.push((start, ar, body, end));
        i = end + 1;
        if i < v.len() && is_p(&v[i], ',') { i += 1; }
        k += 1;
    }
    for (n, (start, ar, body, end)) in arms.iter().enumerate() {
        let s = rng(v[*start].span()).start;
        let label = if n + 1 == k { "_".to_string() } else { n.to_string() };
        ed.push((s..s, format!("{label} => {{ let ")));
        ed.push((rng(v[*ar].span()).start..rng(v[*ar + 1].span()).end, ";".into()));
        let e = rng(v[*end].span()).end;
        walk(v[*start..*end + 1].iter().cloned().collect(), inside, ed);
        let _ = body;
        ed.push((e..e, "}".into()));
    }
}

pub fn expand(src: &str) -> String {
    if !src.contains("stream!") && !src.contains("select!") { return src.to_string(); }
    let ts: TokenStream = match src.parse() { Ok(t) => t, Err(_) => return src.to_string() };
    let mut ed: Ed = vec![];
    walk(ts, false, &mut ed);
    // stable: insertions at one place stay in the order they were made, outer closings last
    let mut idx: Vec<usize> = (0..ed.len()).collect();
    idx.sort_by_key(|i| (ed[*i].0.start, ed[*i].0.end));
    let mut out = String::new();
    let mut pos = 0;
    for i in idx {
        let (r, t) = &ed[i];
        out.push_str(&src[pos..r.start]);
        out.push_str(t);
        pos = r.end;
    }
    out.push_str(&src[pos..]);
    out
}
