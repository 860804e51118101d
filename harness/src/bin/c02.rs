// C02: operation limits. Oracle: counts over the document with every fragment written out.
use serde_json::json;
use vh::e2e::*;
use vh::*;

#[derive(Clone, Debug)]
enum Sel { F { alias: Option<String>, name: &'static str, dirs: usize, sub: Vec<Sel> }, I { cond: bool, dirs: usize, sub: Vec<Sel> }, S { frag: usize, dirs: usize } }
struct Doc { ops: Vec<(usize, Vec<Sel>)>, frags: Vec<(usize, Vec<Sel>)> }
const DIRS: [&str; 3] = [" @include(if: true)", " @skip(if: false)", " @zz"];

fn gen(r: &mut Rng, lo: usize, nf: usize, depth: usize, al: &mut usize, plain: bool) -> Vec<Sel> {
    let n = 1 + r.below(3);
    (0..n).map(|_| {
        let dirs = if r.chance(1, 4) { r.below(3) } else { 0 };
        match r.below(10) {
            0 | 1 if lo < nf => Sel::S { frag: lo + r.below(nf - lo), dirs },
            2 | 3 if depth > 0 => Sel::I { cond: r.bool(), dirs, sub: gen(r, lo, nf, depth - 1, al, plain) },
            4..=7 if depth > 0 => { let name = *r.pick(&["a", "b"]); Sel::F { alias: alias(r, al, plain), name, dirs, sub: gen(r, lo, nf, depth - 1, al, plain) } }
            _ => { let name = *r.pick(&["x", "x", "__typename"]); Sel::F { alias: alias(r, al, plain), name, dirs, sub: vec![] } }
        }
    }).collect()
}
fn alias(r: &mut Rng, al: &mut usize, plain: bool) -> Option<String> { if !plain && r.chance(1, 4) { *al += 1; Some(format!("k{al}")) } else { None } }
fn text(s: &[Sel]) -> String {
    let d = |n: usize| DIRS[..n].concat();
    let v: Vec<String> = s.iter().map(|x| match x {
        Sel::F { alias, name, dirs, sub } => format!("{}{name}{}{}", alias.as_ref().map(|a| format!("{a}: ")).unwrap_or_default(), d(*dirs), if sub.is_empty() { String::new() } else { text(sub) }),
        Sel::I { cond, dirs, sub } => format!("...{}{}{}", if *cond { " on Node" } else { "" }, d(*dirs), text(sub)),
        Sel::S { frag, dirs } => format!("...G{frag}{}", d(*dirs)),
    }).collect();
    format!(" {{ {} }}", v.join(" "))
}
fn aliases(d: &Doc, s: &[Sel]) -> usize { s.iter().map(|x| match x { Sel::F { alias, sub, .. } => alias.is_some() as usize + aliases(d, sub), Sel::I { sub, .. } => aliases(d, sub), Sel::S { frag, .. } => aliases(d, &d.frags[*frag].1) }).sum() }
fn dirs(d: &Doc, s: &[Sel]) -> usize { s.iter().map(|x| match x { Sel::F { dirs: k, sub, .. } => k + dirs(d, sub), Sel::I { dirs: k, sub, .. } => k + dirs(d, sub), Sel::S { frag, dirs: k } => k + d.frags[*frag].0 + dirs(d, &d.frags[*frag].1) }).sum() }
// depth of a selection set whose owner is at depth p
fn depth(d: &Doc, s: &[Sel], p: usize, flat: bool, ign: bool) -> usize {
    let f = if flat { 0 } else { 1 };
    s.iter().map(|x| match x {
        Sel::F { name, .. } if ign && (*name == "__schema" || *name == "__type") => 0,
        Sel::F { sub, .. } => depth(d, sub, p + 1, flat, ign),
        Sel::I { sub, .. } => depth(d, sub, p + f, flat, ign),
        Sel::S { frag, .. } => depth(d, &d.frags[*frag].1, p + f + f, flat, ign),
    }).max().unwrap_or(0).max(p)
}
fn lex(q: &str) -> usize {
    let c: Vec<char> = q.chars().collect();
    let (mut i, mut n) = (0, 0);
    while i < c.len() {
        if c[i].is_whitespace() || c[i] == ',' { i += 1; continue; }
        n += 1;
        if c[i] == '.' { i += 3; } else if c[i].is_alphanumeric() || c[i] == '_' { while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_') { i += 1; } } else { i += 1; }
    }
    n
}
const SDL: &str = "type Query @join__type(graph: A) { node: Node }\ntype Node @join__type(graph: A) { a: Node b: Node x: Int }\n";
fn render(d: &Doc) -> String {
    let mut q = String::new();
    for (i, (k, s)) in d.ops.iter().enumerate() { q += &format!("query Q{i}{} {} ", DIRS[..*k].concat(), text(s)); }
    for (i, (k, s)) in d.frags.iter().enumerate() { q += &format!("fragment G{i} on Node{}{} ", DIRS[..*k].concat(), text(s)); }
    q
}
fn main() {
    let mut run = Run::from_args("nontrivial: the document spreads at least one fragment; random documents of up to 4 fragments (each may spread the later ones, repeatedly), 1-2 operations, against 4 routers (flatten_fragments x ignore_introspection), limits drawn at, one below and one above the count");
    let subs = Subgraphs::start(|_| Resp::json_of(json!({"data": {"node": null}})));
    let mut r = run.rng(2);
    let mut docs: Vec<Doc> = vec![];
    while docs.len() < 700 {
        let nf = r.below(5);
        let mut al = 0;
        let plain = r.bool();
        let frags: Vec<(usize, Vec<Sel>)> = (0..nf).map(|i| (if r.chance(1, 6) { 1 } else { 0 }, gen(&mut r, i + 1, nf, 3, &mut al, plain))).collect();
        let nops = 1 + r.chance(1, 4) as usize;
        let ops = (0..nops).map(|_| {
            let mut s = gen(&mut r, 0, nf, 4, &mut al, plain);
            for g in 0..nf { if r.bool() { s.push(Sel::S { frag: g, dirs: 0 }); if r.chance(1, 3) { for _ in 0..1 + r.below(2) { s.push(Sel::S { frag: g, dirs: if r.bool() { r.below(3) } else { 0 } }); } } } }
            let mut top = vec![Sel::F { alias: alias(&mut r, &mut al, plain), name: "node", dirs: 0, sub: s }];
            if r.chance(1, 5) { top.push(Sel::F { alias: None, name: "__schema", dirs: 0, sub: vec![Sel::F { alias: None, name: "types", dirs: 0, sub: vec![Sel::F { alias: None, name: "fields", dirs: 0, sub: vec![Sel::F { alias: None, name: "type", dirs: 0, sub: vec![Sel::F { alias: None, name: "ofType", dirs: 0, sub: vec![Sel::F { alias: None, name: "ofType", dirs: 0, sub: vec![Sel::F { alias: None, name: "name", dirs: 0, sub: vec![] }] }] }] }] }] }] }); }
            (if r.chance(1, 6) { 1 } else { 0 }, top)
        }).collect();
        docs.push(Doc { ops, frags });
    }
    // limits spread over the range of counts seen
    for (flat, ign, nd, na, nr, nt) in [(false, true, 5usize, 3usize, 3usize, 60usize), (true, true, 4, 2, 2, 40), (false, false, 7, 6, 5, 80), (true, false, 5, 1, 8, 120)] {
        let cfg = format!("limits: {{ max_depth: {{ n: {nd}, ignore_introspection: {ign}, flatten_fragments: {flat} }}, max_aliases: {{ n: {na} }}, max_directives: {{ n: {nr} }}, max_tokens: {{ n: {nt} }} }}\n");
        let rt = match Router::start(&cfg, &sdl(&["a"], SDL), Some(&subs)) { Ok(r) => r, Err(e) => { eprintln!("router: {e}"); std::process::exit(3) } };
        for d in docs.iter().take(if run.thorough { 700 } else { 260 }) {
            if !run.time_left() { break; }
            let q = render(d);
            let any = |f: &dyn Fn(&(usize, Vec<Sel>)) -> usize, n: usize| d.ops.iter().any(|o| f(o) > n);
            let wd = any(&|o| depth(d, &o.1, 0, flat, ign), nd);
            let wa = any(&|o| aliases(d, &o.1), na);
            let wr = any(&|o| o.0 + dirs(d, &o.1), nr);
            let wt = lex(&q) > nt;
            let resp = rt.post(&json!({"query": q, "operationName": "Q0"}), &[]);
            let codes = resp.error_codes();
            let has = |c: &str| codes.iter().any(|x| x == c);
            let got = (has("MAX_DEPTH_EXCEEDED"), has("MAX_ALIASES_EXCEEDED"), has("MAX_DIRECTIVES_EXCEEDED"), has("TOKEN_LIMIT_EXCEEDED") || has("GRAPHQL_PARSE_FAILED"));
            let want = if wt { (false, false, false, true) } else { (wd, wa, wr, false) };
            let show = || format!("flatten={flat} ignore_introspection={ign} depth<={nd} aliases<={na} directives<={nr} tokens<={nt} | {q}");
            run.case(if flat { "flat" } else { "nested" }, &show, !d.frags.is_empty(), || {
                if resp.status == 0 { return Err(("an answer".into(), "connection closed".into())); }
                if want != got { return Err((format!("{want:?}"), format!("{got:?} {}", resp.text()))); }
                Ok(())
            });
            let calls = subs.take_log().len();
            run.case("not-executed", &show, wd || wa || wr || wt, || if (wd || wa || wr || wt) && calls > 0 { Err(("no subgraph call for a refused operation".into(), format!("{calls} calls"))) } else { Ok(()) });
        }
    }
    run.finish()
}
