// C03: demand control. Oracle: the cost of the operation computed over the operation's own tree.
use serde_json::{json, Value as J};
use vh::e2e::*;
use vh::*;

const LINKS: &str = "";
const BODY: &str = r#"
directive @cost(weight: Int!) on ARGUMENT_DEFINITION | ENUM | FIELD_DEFINITION | INPUT_FIELD_DEFINITION | OBJECT | SCALAR
directive @listSize(assumedSize: Int, slicingArguments: [String!], sizedFields: [String!], requireOneSlicingArgument: Boolean = true) on FIELD_DEFINITION
input Leaf @join__type(graph: A) { n: Int @cost(weight: 2) @join__field(graph: A) m: Int @join__field(graph: A) big: Int @cost(weight: 9000000000000000000) @join__field(graph: A) }
input In @join__type(graph: A) { first: Int @join__field(graph: A) leaf: Leaf @cost(weight: 1) @join__field(graph: A) leaves: [Leaf!] @join__field(graph: A) }
scalar Sc @cost(weight: 2) @join__type(graph: A)
type Heavy @cost(weight: 5) @join__type(graph: A) { h: Int @join__field(graph: A) }
type T @join__type(graph: A, key: "id") @join__type(graph: B, key: "id") {
  id: ID!
  x: Int @join__field(graph: A)
  y: Int @cost(weight: 3) @join__field(graph: A)
  s: Sc @join__field(graph: A)
  child: T @join__field(graph: A)
  heavy: Heavy @join__field(graph: A)
  heavies: [Heavy!]! @join__field(graph: A)
  kids: [T!] @join__field(graph: A)
  few(first: Int, last: Int @cost(weight: 4)): [T] @listSize(slicingArguments: ["first", "last"], requireOneSlicingArgument: false) @join__field(graph: A)
  bx: Int @cost(weight: 2) @join__field(graph: B)
  bkid: T @join__field(graph: B)
}
type Conn @join__type(graph: A) { nodes: [T!] @join__field(graph: A) other: [T] @join__field(graph: A) total: Int @join__field(graph: A) }
type Wrap @join__type(graph: A) { conn: Conn @join__field(graph: A) n: Int @join__field(graph: A) }
type Query @join__type(graph: A) @join__type(graph: B) {
  t(k: Int @cost(weight: 6)): T @join__field(graph: A)
  costly: Int @cost(weight: 5) @join__field(graph: A)
  list: [T] @join__field(graph: A)
  assumed: [T] @listSize(assumedSize: 7) @join__field(graph: A)
  one(first: Int, last: Int): [T] @listSize(slicingArguments: ["first", "last"]) @join__field(graph: A)
  most(first: Int, last: Int): [T] @listSize(slicingArguments: ["first", "last"], requireOneSlicingArgument: false) @join__field(graph: A)
  conn(first: Int): Conn @listSize(slicingArguments: ["first"], sizedFields: ["nodes"], requireOneSlicingArgument: false) @join__field(graph: A)
  deep(first: Int): Wrap @listSize(slicingArguments: ["first"], sizedFields: ["conn { nodes }"], requireOneSlicingArgument: false) @join__field(graph: A)
  byin(input: In): [T] @listSize(slicingArguments: ["input.first"], requireOneSlicingArgument: false) @join__field(graph: A)
  ids(ids: [ID!]): [T] @listSize(slicingArguments: ["ids"], requireOneSlicingArgument: false) @join__field(graph: A)
  bt: T @join__field(graph: B)
}
type Mutation @join__type(graph: A) { doit(input: In): T @join__field(graph: A) }
"#;

#[derive(Clone, Debug)]
enum Arg { Lit(J), Var(String) }
#[derive(Clone, Debug)]
struct F { name: &'static str, alias: usize, args: Vec<(&'static str, Arg)>, include: Option<String>, skip: Option<String>, sub: Vec<F> }
// (field, return type, is list, base weight, slicing args, requireOne, sized path)
struct Def { ret: &'static str, list: bool, weight: u128, args: &'static [(&'static str, u128)], slice: Option<(&'static [&'static str], bool)>, assumed: Option<u128>, sized: Option<&'static [&'static str]> }
fn def(ty: &str, f: &str) -> Def {
    let d = Def { ret: "Int", list: false, weight: 0, args: &[], slice: None, assumed: None, sized: None };
    match (ty, f) {
        ("Query", "t") => Def { ret: "T", args: &[("k", 6)], ..d },
        ("Query", "costly") => Def { weight: 5, ..d },
        ("Query", "list") => Def { ret: "T", list: true, ..d },
        ("Query", "assumed") => Def { ret: "T", list: true, assumed: Some(7), ..d },
        ("Query", "one") => Def { ret: "T", list: true, slice: Some((&["first", "last"], true)), args: &[("first", 0), ("last", 0)], ..d },
        ("Query", "most") => Def { ret: "T", list: true, slice: Some((&["first", "last"], false)), args: &[("first", 0), ("last", 0)], ..d },
        ("Query", "conn") => Def { ret: "Conn", slice: Some((&["first"], false)), args: &[("first", 0)], sized: Some(&["nodes"]), ..d },
        ("Query", "deep") => Def { ret: "Wrap", slice: Some((&["first"], false)), args: &[("first", 0)], sized: Some(&["conn", "nodes"]), ..d },
        ("Query", "byin") => Def { ret: "T", list: true, slice: Some((&["input.first"], false)), args: &[("input", 0)], ..d },
        ("Query", "ids") => Def { ret: "T", list: true, slice: Some((&["ids"], false)), args: &[("ids", 0)], ..d },
        ("Query", "bt") => Def { ret: "T", ..d },
        ("Mutation", "doit") => Def { ret: "T", args: &[("input", 0)], ..d },
        ("T", "y") => Def { weight: 3, ..d },
        ("T", "s") => Def { ret: "Sc", ..d },
        ("T", "child") | ("T", "bkid") => Def { ret: "T", ..d },
        ("T", "heavy") => Def { ret: "Heavy", ..d },
        ("T", "heavies") => Def { ret: "Heavy", list: true, ..d },
        ("T", "kids") => Def { ret: "T", list: true, ..d },
        ("T", "few") => Def { ret: "T", list: true, slice: Some((&["first", "last"], false)), args: &[("first", 0), ("last", 4)], ..d },
        ("T", "bx") => Def { weight: 2, ..d },
        ("Conn", "nodes") | ("Conn", "other") => Def { ret: "T", list: true, ..d },
        ("Wrap", "conn") => Def { ret: "Conn", ..d },
        _ => d,
    }
}
fn type_cost(t: &str) -> u128 { match t { "T" | "Conn" | "Wrap" => 1, "Heavy" => 5, "Sc" => 2, _ => 0 } }
fn in_cost(t: &str, v: &J) -> u128 {
    match v {
        J::Array(a) => a.iter().map(|x| in_cost(t, x)).sum(),
        J::Object(o) => 1 + o.iter().map(|(k, v)| match (t, k.as_str()) { ("In", "leaf") => 1 + in_cost("Leaf", v), ("In", "leaves") => in_cost("Leaf", v), ("Leaf", "n") => 2, ("Leaf", "big") => 9000000000000000000, _ => 0 }).sum::<u128>(),
        _ => 0,
    }
}
// the cost itself: exact; None: a required slicing argument is not exactly one
struct Env<'a> { vars: &'a J, dls: u128 }
fn arg_value(e: &Env, a: &Arg) -> J { match a { Arg::Lit(v) => v.clone(), Arg::Var(n) => e.vars.get(n).cloned().unwrap_or(J::Null) } }
fn on(e: &Env, f: &F) -> bool { f.include.as_ref().is_none_or(|v| e.vars[v.as_str()] == json!(true)) && f.skip.as_ref().is_none_or(|v| e.vars[v.as_str()] != json!(true)) }
fn cost_set(e: &Env, ty: &str, s: &[F], sized: &[(Vec<String>, Option<u128>)]) -> Option<u128> {
    let mut n = 0u128;
    for f in s { n = n.saturating_add(cost(e, ty, f, sized)?); }
    Some(n)
}
fn cost(e: &Env, ty: &str, f: &F, sized: &[(Vec<String>, Option<u128>)]) -> Option<u128> {
    if !on(e, f) || f.name == "__typename" { return Some(0); }
    let d = def(ty, f.name);
    let mut base = d.weight;
    for (n, a) in &f.args {
        base += d.args.iter().find(|x| x.0 == *n).map(|x| x.1).unwrap_or(0);
        if *n == "input" { base += in_cost("In", &arg_value(e, a)); }
    }
    let size: Option<Option<u128>> = if let Some(a) = d.assumed { Some(Some(a)) } else if let Some((names, one)) = d.slice {
        let mut got = vec![];
        for n in names {
            let (root, path) = n.split_once('.').map(|(a, b)| (a, Some(b))).unwrap_or((n, None));
            if let Some((_, a)) = f.args.iter().find(|x| x.0 == root) {
                let mut v = arg_value(e, a);
                if let Some(p) = path { v = v[p].clone(); }
                if let Some(i) = v.as_i64() { got.push(i.max(0) as u128); } else if let Some(l) = v.as_array() { got.push(l.len() as u128); }
            }
        }
        Some(if one { if got.len() == 1 { Some(got[0]) } else { None } } else { Some(got.into_iter().max().unwrap_or(e.dls)) })
    } else { None };
    let inherited = sized.iter().find(|(p, _)| p.len() == 1 && p[0] == f.name).map(|x| x.1);
    let mut below: Vec<(Vec<String>, Option<u128>)> = sized.iter().filter(|(p, _)| p.len() > 1 && p[0] == f.name).map(|(p, s)| (p[1..].to_vec(), *s)).collect();
    if let (Some(p), Some(s)) = (d.sized, size) { below.push((p.iter().map(|x| x.to_string()).collect(), s)); }
    let each = type_cost(d.ret).saturating_add(cost_set(e, d.ret, &f.sub, &below)?);
    let own = if let Some(i) = inherited { Some(i) } else if d.list { Some(if d.sized.is_none() { size.unwrap_or(Some(e.dls)) } else { Some(e.dls) }) } else { None };
    Some(base.saturating_add(match own { Some(n) => n?.saturating_mul(each), None => each }))
}
struct G<'a> { r: &'a mut Rng, al: usize, vars: Vec<(String, &'static str, J)> }
impl G<'_> {
    fn cond(&mut self) -> Option<String> { if !self.r.chance(1, 6) { return None; } let n = *self.r.pick(&["c0", "c1"]); Some(n.into()) }
    fn num(&mut self) -> Arg {
        let v = match self.r.below(12) { 0 => J::Null, 1 => json!(0), 2 => json!(-4), 3 => json!(2147483647), k => json!(k) };
        if self.r.bool() { Arg::Lit(v) } else { let n = format!("v{}", self.vars.len()); self.vars.push((n.clone(), "Int", v)); Arg::Var(n) }
    }
    // lists of lists of lists with huge slices: products far above 2^64, powers of two among them
    fn tower(&mut self) -> Vec<F> {
        let big = |r: &mut Rng| Arg::Lit(match r.below(6) { 0 => json!(65536), 1 => json!(1 << 30), 2 => json!(2147483647), 3 => json!(1 << 20), 4 => json!(3), _ => json!(1 << 16) });
        let depth = 2 + self.r.below(5);
        let mut sub = { let n = *self.r.pick(&["x", "y", "s", "y"]); self.al += 1; vec![F { name: n, alias: self.al, args: vec![], include: None, skip: None, sub: vec![] }] };
        for _ in 0..depth {
            self.al += 1; let a = big(self.r);
            sub = vec![F { name: "few", alias: self.al, args: vec![(*self.r.pick(&["first", "last"]), a)], include: None, skip: None, sub }];
            if self.r.chance(1, 4) { self.al += 1; let h = vec![F { name: "h", alias: 0, args: vec![], include: None, skip: None, sub: vec![] }]; sub.push(F { name: "heavies", alias: self.al, args: vec![], include: None, skip: None, sub: h }); }
        }
        self.al += 1; let a = big(self.r);
        vec![F { name: *self.r.pick(&["most", "one"]), alias: self.al, args: vec![("first", a)], include: None, skip: None, sub }]
    }
    fn input(&mut self, huge: bool) -> Arg {
        let mut o = serde_json::Map::new();
        if self.r.bool() { o.insert("first".into(), json!(self.r.below(9))); }
        let leaf = |r: &mut Rng| { let mut l = serde_json::Map::new(); if r.bool() { l.insert("n".into(), json!(1)); } if r.bool() { l.insert("m".into(), json!(1)); } if huge { l.insert("big".into(), json!(1)); } J::Object(l) };
        if self.r.bool() { let v = leaf(self.r); o.insert("leaf".into(), v); }
        if self.r.bool() || huge { let n = 2 + self.r.below(4); o.insert("leaves".into(), J::Array((0..n).map(|_| leaf(self.r)).collect())); }
        let v = J::Object(o);
        if self.r.bool() { Arg::Lit(v) } else { let n = format!("v{}", self.vars.len()); self.vars.push((n.clone(), "In", v)); Arg::Var(n) }
    }
    fn set(&mut self, ty: &str, depth: usize) -> Vec<F> { let n = 1 + self.r.below(3); (0..n).map(|_| self.field(ty, depth)).collect() }
    fn field(&mut self, ty: &str, depth: usize) -> F {
        let name = match ty {
            "Query" => *self.r.pick(&["t", "costly", "list", "assumed", "one", "most", "conn", "deep", "byin", "ids", "most", "one"]),
            "T" if depth > 0 => *self.r.pick(&["x", "y", "s", "child", "heavy", "heavies", "kids", "few", "__typename"]),
            "T" => *self.r.pick(&["x", "y", "s", "id"]),
            "Conn" => *self.r.pick(&["nodes", "nodes", "other", "total"]),
            "Wrap" => *self.r.pick(&["conn", "conn", "n"]),
            "Heavy" => "h",
            _ => "x",
        };
        self.al += 1;
        let alias = self.al;
        let mut args = vec![];
        for (a, p) in match (ty, name) { ("Query", "one") => vec![("first", 3), ("last", 1)], ("Query", "most") | ("T", "few") => vec![("first", 2), ("last", 2)], ("Query", "conn") | ("Query", "deep") => vec![("first", 3)], ("Query", "t") => vec![("k", 2)], _ => vec![] } {
            if self.r.chance(p, 4) { args.push((a, self.num())); }
        }
        if name == "byin" && self.r.chance(4, 5) { args.push(("input", self.input(false))); }
        if name == "ids" { let n = self.r.below(6); let l = json!((0..n).map(|i| i.to_string()).collect::<Vec<_>>()); args.push(("ids", if self.r.bool() { Arg::Lit(l) } else { let n = format!("v{}", self.vars.len()); self.vars.push((n.clone(), "[ID!]", l)); Arg::Var(n) })); }
        let d = def(ty, name);
        let sub = if ["T", "Conn", "Wrap", "Heavy"].contains(&d.ret) { self.set(d.ret, depth.saturating_sub(1)) } else { vec![] };
        F { name, alias, args, include: self.cond(), skip: self.cond(), sub }
    }
}
fn lit(v: &J) -> String { match v { J::Object(o) => format!("{{ {} }}", o.iter().map(|(k, v)| format!("{k}: {}", lit(v))).collect::<Vec<_>>().join(" ")), J::Array(a) => format!("[{}]", a.iter().map(lit).collect::<Vec<_>>().join(", ")), x => x.to_string() } }
fn text(s: &[F]) -> String {
    let v: Vec<String> = s.iter().map(|f| {
        let a = if f.args.is_empty() { String::new() } else { format!("({})", f.args.iter().map(|(n, a)| format!("{n}: {}", match a { Arg::Lit(v) => lit(v), Arg::Var(v) => format!("${v}") })).collect::<Vec<_>>().join(", ")) };
        format!("a{}: {}{a}{}{}{}", f.alias, f.name, f.include.as_ref().map(|v| format!(" @include(if: ${v})")).unwrap_or_default(), f.skip.as_ref().map(|v| format!(" @skip(if: ${v})")).unwrap_or_default(), if f.sub.is_empty() { String::new() } else { text(&f.sub) })
    }).collect();
    format!(" {{ {} }}", v.join(" "))
}
fn uses(s: &[F], v: &str) -> bool { s.iter().any(|f| f.include.as_deref() == Some(v) || f.skip.as_deref() == Some(v) || uses(&f.sub, v)) }
fn sat(n: u128) -> u128 { n.min(u64::MAX as u128) }
fn main() {
    let mut run = Run::from_args("nontrivial: the expected cost is above 3 or the operation is refused; random operations over a schema using every cost directive, with literal and variable arguments, @skip/@include, three settings of default list size, limits drawn around the cost; plus entity fetches with per-subgraph budgets, input objects with huge weights, and one operation planned under two progressive overrides");
    let subs = Subgraphs::start(|q| if q.query().contains("_entities") { Resp::json_of(json!({"data": {"_entities": [{"__typename": "T", "bx": 1, "bkid": {"__typename": "T", "id": "2"}}]}})) } else { Resp::json_of(json!({"data": {"t": {"__typename": "T", "id": "1"}, "list": [{"__typename": "T", "id": "1"}], "bt": {"__typename": "T", "id": "1"}}})) });
    let s = sdl_with(&["a", "b"], LINKS, BODY);
    let mut r = run.rng(3);
    let start = |cfg: &str, s: &str| match Router::start(cfg, s, Some(&subs)) { Ok(r) => r, Err(e) => { eprintln!("router: {e}"); std::process::exit(3) } };
    // 1. estimated cost and the refusal
    for (dls, dcfg, max) in [(10u128, "{ all: 10 }", 60u128), (3, "{ all: 9, subgraphs: { a: 3 } }", 25), (0, "{ subgraphs: { b: 4 } }", 8)] {
        let rt = start(&format!("demand_control: {{ enabled: true, operation_cost: {{ max: {max}, mode: enforce, expose_headers: {{ estimated: true, max: true }} }}, default_list_size: {dcfg}, subgraphs_budget: {{ mode: enforce }} }}\n"), &s);
        for k in 0..run.n(350) {
            if !run.time_left() { break; }
            let mutation = k % 9 == 8;
            let huge = k % 18 == 8;
            let mut g = G { r: &mut r, al: 0, vars: vec![] };
            let root = if mutation { let input = g.input(huge); let sub = g.set("T", 1); vec![F { name: "doit", alias: 0, args: vec![("input", input)], include: None, skip: None, sub }] } else if k % 9 == 4 { g.tower() } else { g.set("Query", 3) };
            let declared = g.vars;
            let mut vars = serde_json::Map::new();
            let mut decl: Vec<String> = vec![];
            for (n, t, v) in &declared {
                match r.below(6) { 0 if *v == J::Null => decl.push(format!("${n}: {t}")), 1 => { decl.push(format!("${n}: {t} = {}", lit(v))); } _ => { decl.push(format!("${n}: {t}")); vars.insert(n.clone(), v.clone()); } }
            }
            let mut seen = vars.clone();
            for (n, _, v) in &declared { seen.insert(n.clone(), v.clone()); }
            for c in ["c0", "c1"] { if uses(&root, c) { decl.push(format!("${c}: Boolean!")); let b = json!(r.bool()); vars.insert(c.into(), b.clone()); seen.insert(c.into(), b); } }
            let q = format!("{} Op{k}{}{}", if mutation { "mutation" } else { "query" }, if decl.is_empty() { String::new() } else { format!("({})", decl.join(", ")) }, text(&root));
            let seen = J::Object(seen);
            let e = Env { vars: &seen, dls };
            let want = cost_set(&e, if mutation { "Mutation" } else { "Query" }, &root, &[]).map(|n| sat(n + if mutation { 10 } else { 0 }));
            let body = json!({"query": q, "variables": vars});
            let resp = rt.post(&body, &[]);
            let calls = subs.take_log().len();
            let codes = resp.error_codes();
            let show = || format!("default {dcfg} max {max} | {body}");
            run.case("estimate", &show, want.is_none_or(|n| n > 3), || {
                if resp.status == 0 { return Err(("an answer".into(), "connection closed".into())); }
                let refused = codes.iter().any(|c| c == "COST_ESTIMATED_TOO_EXPENSIVE");
                match want {
                    None => if codes.iter().any(|c| c == "COST_INVALID_SLICING_ARGUMENTS") && calls == 0 { Ok(()) } else { Err(("COST_INVALID_SLICING_ARGUMENTS, no call".into(), format!("{} calls={calls}", resp.text()))) },
                    Some(n) => {
                        let h = resp.header("x-cost-estimated").unwrap_or("").to_string();
                        if refused != (n > max) { return Err((format!("cost {n}, refused={}", n > max), format!("refused={refused} header={h} {}", resp.text()))); }
                        if refused && calls > 0 { return Err(("no subgraph call".into(), format!("{calls} calls"))); }
                        Run::eq((n.to_string(), max.to_string()), (h, resp.header("x-cost-max").unwrap_or("").to_string()))
                    }
                }
            });
        }
    }
    // 2. entity fetches, per-subgraph budgets
    for (mode, all, b, dls) in [("enforce", Some(6u128), None, 2u128), ("enforce", Some(3), Some(9u128), 3), ("enforce", None, Some(4), 2), ("measure", Some(1), None, 2)] {
        let sub = b.map(|x| format!(", subgraphs: {{ b: {x} }}")).unwrap_or_default();
        let alls = all.map(|x| format!(", all: {x}")).unwrap_or_default();
        let rt = start(&format!("demand_control: {{ enabled: true, operation_cost: {{ max: 100000, mode: enforce, expose_headers: {{ estimated: true }} }}, default_list_size: {{ all: {dls} }}, subgraphs_budget: {{ mode: {mode}{alls}{sub} }} }}\n"), &s);
        for k in 0..run.n(70) {
            if !run.time_left() { break; }
            let root = *r.pick(&["t", "list", "bt"]);
            let mut g = G { r: &mut r, al: 0, vars: vec![] };
            let a: Vec<F> = if root == "bt" { vec![] } else { (0..g.r.below(3)).map(|_| { g.al += 1; F { name: *g.r.pick(&["x", "y", "s", "heavy"]), alias: g.al, args: vec![], include: None, skip: None, sub: vec![] } }).map(|mut f| { if f.name == "heavy" { f.sub = vec![F { name: "h", alias: 99, args: vec![], include: None, skip: None, sub: vec![] }]; } f }).collect() };
            let mut bsel: Vec<F> = (0..1 + g.r.below(3)).map(|_| { g.al += 1; if g.r.bool() { F { name: "bx", alias: g.al, args: vec![], include: None, skip: None, sub: vec![] } } else { F { name: "bkid", alias: g.al, args: vec![], include: None, skip: None, sub: vec![F { name: "id", alias: 98, args: vec![], include: None, skip: None, sub: vec![] }] } } }).collect();
            let no_b = g.r.chance(1, 5) && root != "bt";
            if no_b { bsel.clear(); }
            let mut both = a.clone(); both.extend(bsel.clone());
            if both.is_empty() { both.push(F { name: "id", alias: 97, args: vec![], include: None, skip: None, sub: vec![] }); }
            let e = Env { vars: &J::Null, dls };
            let (ca, cb) = if root == "bt" { (None, Some(1 + cost_set(&e, "T", &bsel, &[]).unwrap())) } else {
                let one = 1 + cost_set(&e, "T", &a, &[]).unwrap();
                (Some(if root == "list" { dls * one } else { one }), if bsel.is_empty() { None } else { Some(dls.max(1) * (1 + cost_set(&e, "T", &bsel, &[]).unwrap())) })
            };
            let q = format!("query E{k} {{ {root} {} }}", text(&both));
            let resp = rt.query(&q);
            let log = subs.take_log();
            let (na, nb) = (log.iter().any(|r| r.path == "/a"), log.iter().any(|r| r.path == "/b"));
            let over = |c: Option<u128>, m: Option<u128>| matches!((c, m), (Some(c), Some(m)) if c > m) && mode == "enforce";
            let (xa, xb) = (over(ca, all), over(cb, b.or(all)));
            let show = || format!("{mode} all={all:?} b={b:?} default={dls} costs a={ca:?} b={cb:?} | {q}");
            run.case("budget", &show, xa || xb, || {
                let want_h = (ca.unwrap_or(0) + cb.unwrap_or(0)).to_string();
                if resp.header("x-cost-estimated") != Some(&want_h) { return Err((want_h, format!("{:?}", resp.header("x-cost-estimated")))); }
                if xa && na || xb && nb { return Err(("no call to a subgraph over its budget".into(), format!("called a={na} b={nb}"))); }
                if !xa && ca.is_some() && !na || !xb && cb.is_some() && !xa && !nb { return Err(("a call to a subgraph within its budget".into(), format!("called a={na} b={nb}: {}", resp.text()))); }
                let told = resp.error_codes().iter().any(|c| c == "SUBGRAPH_COST_ESTIMATED_TOO_EXPENSIVE" || c.contains("COST_ESTIMATED_TOO_EXPENSIVE"));
                Run::eq(xa || (xb && cb.is_some()), told)
            });
        }
    }
    // 3. one operation, two plans: each plan is charged for itself
    let body = r#"
directive @cost(weight: Int!) on FIELD_DEFINITION | OBJECT
type Query @join__type(graph: A) @join__type(graph: B) { p: P @join__field(graph: A) }
type P @join__type(graph: A, key: "id") @join__type(graph: B, key: "id") {
  id: ID!
  v: Int @cost(weight: 2) @join__field(graph: A, usedOverridden: true, overrideLabel: "flag") @join__field(graph: B, override: "a", overrideLabel: "flag")
}
"#;
    let s3 = sdl(&["a", "b"], body).replace("override: String, usedOverridden: Boolean", "override: String, usedOverridden: Boolean, overrideLabel: String");
    for order in 0..4 {
        let rt = start("override_labels: { flag: { expression: '.request.headers.\"x-flag\" == \"1\"' } }\ndemand_control: { enabled: true, operation_cost: { max: 3, mode: enforce, expose_headers: { estimated: true } }, default_list_size: { all: 10 }, subgraphs_budget: { mode: measure } }\n", &s3);
        for k in 0..6 {
            let on = ((k + order) / (1 + order / 2)) % 2 == 0;
            let resp = rt.post(&json!({"query": "{ p { v } }"}), if on { &[("x-flag", "1")] } else { &[("x-flag", "0")] });
            let called = !subs.take_log().is_empty();
            // without the override: p (1) + v (2) from a; with it: p (1), then 10 entities of (1 + 2)
            let want = if on { 31 } else { 3 };
            run.case("override", &|| format!("order {order} request {k} override={on} {{ p {{ v }} }}"), true, || Run::eq((want.to_string(), want <= 3), (resp.header("x-cost-estimated").unwrap_or("none").to_string(), called)));
        }
    }
    run.finish()
}
