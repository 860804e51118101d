//! vx: mechanical extraction of real functions of /repo into a Verus file.
//!
//!   vx TEMPLATE REPO_ROOT OUT.rs OUT.json
//!
//! A template is a Verus file (spec functions, lemmas, verified shims) in which
//! `//@ extract ...` blocks stand for items of /repo.  On every run each block is
//! replaced by the text of the item as it is in /repo now, with the contract and the
//! loop/closure annotations of the block woven in.  The text of the item is kept
//! byte for byte except for the edits that are listed in OUT.json (attributes and
//! doc comments dropped, tracing macros dropped, visibility widened, declared
//! rewrites applied).
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::ops::Range;
use syn::spanned::Spanned;
use syn::visit::Visit;

mod find;
mod stream;
mod pat;

#[derive(Debug)]
pub struct Fail(pub String);
pub type Res<T> = Result<T, Fail>;
fn fail<T>(s: impl Into<String>) -> Res<T> {
    Err(Fail(s.into()))
}

#[derive(Clone, Debug)]
pub enum Part {
    Lit(String),
    Src(Range<usize>),
}

#[derive(Clone, Debug)]
pub struct Edit {
    pub range: Range<usize>,
    pub prio: i32,
    pub parts: Vec<Part>,
}

pub fn render(src: &str, range: Range<usize>, edits: &[Edit], skip: Option<usize>) -> String {
    let mut used = vec![false; edits.len()];
    render_in(src, range, edits, skip, &mut used)
}

/// Applies the edits that lie inside `range`, outermost first, each at most once.
fn render_in(src: &str, range: Range<usize>, edits: &[Edit], skip: Option<usize>, used: &mut Vec<bool>) -> String {
    let mut idx: Vec<usize> = (0..edits.len())
        .filter(|i| {
            if used[*i] || Some(*i) == skip {
                return false;
            }
            let e = &edits[*i].range;
            e.start >= range.start && e.end <= range.end
        })
        .collect();
    idx.sort_by_key(|i| {
        let e = &edits[*i];
        (e.range.start, !e.range.is_empty(), std::cmp::Reverse(e.range.end), -e.prio, *i)
    });
    let mut out = String::new();
    let mut pos = range.start;
    for i in idx {
        let e = &edits[i];
        if used[i] || e.range.start < pos {
            continue;
        }
        out.push_str(&src[pos..e.range.start]);
        used[i] = true;
        for p in &e.parts {
            match p {
                Part::Lit(s) => out.push_str(s),
                Part::Src(r) => out.push_str(&render_in(src, r.clone(), edits, Some(i), used)),
            }
        }
        pos = e.range.end;
    }
    out.push_str(&src[pos..range.end]);
    out
}

#[derive(Clone, Default, Debug)]
pub struct Rules {
    pub expr: Vec<(synwrap::ExprWrap, String, String)>,
    pub types: Vec<(String, String)>,
    pub drop_macros: Vec<String>,
    pub macros: Vec<(String, String)>,
    pub paths: Vec<(String, String)>,
}

// small wrapper so Rules can be Clone+Debug without pulling syn internals around
pub mod synwrap {
    #[derive(Clone, Debug)]
    pub struct ExprWrap(pub syn::Expr);
}
use synwrap::ExprWrap;

#[derive(Default, Debug, Clone)]
pub struct Block {
    pub what: String,
    pub opts: BTreeMap<String, String>,
    pub secs: Vec<(String, String)>,
}

pub fn rng(s: proc_macro2::Span) -> Range<usize> {
    s.byte_range()
}

pub fn norm<T: quote::ToTokens>(t: &T) -> String {
    quote::quote!(#t).to_string().replace(' ', "")
}

struct Weaver<'a> {
    rules: &'a Rules,
    block: &'a Block,
    edits: Vec<Edit>,
    loops: usize,
    closures: usize,
    loop_kinds: Vec<String>,
    callees: Vec<String>,
    notes: Vec<String>,
    used: Vec<bool>,
    stmt_stack: Vec<Range<usize>>,
    call_counts: BTreeMap<String, usize>,
    errors: Vec<String>,
    this: bool,
}

impl<'a> Weaver<'a> {
    fn sec(&mut self, name: &str) -> Option<String> {
        let mut r: Option<String> = None;
        for (i, (n, t)) in self.block.secs.iter().enumerate() {
            if n == name {
                self.used[i] = true;
                r = Some(match r {
                    None => t.clone(),
                    Some(p) => p + "\n" + t,
                });
            }
        }
        r
    }
    fn sec_prefix(&mut self, name: &str) -> Option<(String, String)> {
        for (i, (n, t)) in self.block.secs.iter().enumerate() {
            if n == name {
                self.used[i] = true;
                return Some((String::new(), t.clone()));
            }
            if let Some(rest) = n.strip_prefix(name) {
                if rest.starts_with(' ') {
                    self.used[i] = true;
                    return Some((rest.trim().to_string(), t.clone()));
                }
            }
        }
        None
    }
    fn ins(&mut self, at: usize, prio: i32, text: String) {
        self.edits.push(Edit { range: at..at, prio, parts: vec![Part::Lit(text)] });
    }
    fn rep(&mut self, r: Range<usize>, prio: i32, parts: Vec<Part>) {
        self.edits.push(Edit { range: r, prio, parts });
    }
    fn note(&mut self, s: impl Into<String>) {
        let s = s.into();
        if !self.notes.contains(&s) {
            self.notes.push(s);
        }
    }
    fn do_loop(&mut self, kind: &str, header_end: usize, for_expr: Option<Range<usize>>, body: &syn::Block, whole: Range<usize>) -> () {
        let n = self.loops;
        self.loops += 1;
        self.loop_kinds.push(kind.to_string());
        if let Some((opt, text)) = self.sec_prefix(&format!("loop {n}")) {
            if let (Some(fe), Some(name)) = (&for_expr, opt.strip_prefix("iter ")) {
                self.ins(fe.start, 5, format!("{}: ", name.trim()));
            }
            self.ins(header_end, 0, format!("\n{}\n", text));
        }
        let open = rng(body.brace_token.span.open()).end;
        let close = rng(body.brace_token.span.close()).start;
        if let Some(t) = self.sec(&format!("loopstart {n}")) {
            self.ins(open, 0, format!("\n{t}\n"));
        }
        if let Some(t) = self.sec(&format!("loopend {n}")) {
            self.ins(close, 0, format!("\n{t}\n"));
        }
        if let Some(t) = self.sec(&format!("loopfinal {n}")) {
            self.ins(close, -3000, format!("\n{t}\n"));
        }
        if let Some(t) = self.sec(&format!("before-loop {n}")) {
            let at = self.stmt_stack.last().map(|r| r.start).unwrap_or(whole.start);
            self.ins(at, 0, format!("\n{t}\n"));
        }
        if let Some(t) = self.sec(&format!("after-loop {n}")) {
            let at = self.stmt_stack.last().map(|r| r.end).unwrap_or(whole.end);
            self.ins(at, 0, format!("\n{t}\n"));
        }
    }
    /// `if C { ..; continue; } REST` in tail position of a loop body becomes
    /// `if C { ..; } else { REST }` (Verus has no `continue` in `for`).
    fn wrap_continue(&mut self, b: &syn::Block) {
        let close = rng(b.brace_token.span.close()).start;
        let n = b.stmts.len();
        for (i, s) in b.stmts.iter().enumerate() {
            let last = i + 1 == n;
            if let syn::Stmt::Local(l) = s {
                // `let P = e else { ..; continue; }; REST` => `if let P = e { REST } else { ..; }`
                if let Some(init) = &l.init {
                    if let Some((el, d)) = &init.diverge {
                        if let syn::Expr::Block(db) = &**d {
                            if ends_in_continue(&db.block) && l.attrs.is_empty() {
                                let cs = db.block.stmts.last().unwrap();
                                self.ins(rng(l.let_token.span()).start, 20, "if ".into());
                                self.rep(rng(el.span()).start..rng(s.span()).end, 8, vec![Part::Lit("{".into())]);
                                let inner = rng(db.block.brace_token.span.open()).end..rng(cs.span()).start;
                                let e = Edit { range: close..close, prio: -2000 + i as i32, parts: vec![Part::Lit("} else {".into()), Part::Src(inner), Part::Lit("}".into())] };
                                self.edits.push(e);
                                self.note("`let P = e else { continue; }; rest` => `if let P = e { rest } else {}` in for loops");
                            }
                        }
                    }
                }
            }
            if let syn::Stmt::Expr(e, semi) = s {
                match e {
                    syn::Expr::If(f) => {
                        if f.else_branch.is_none() && ends_in_continue(&f.then_branch) {
                            let cs = f.then_branch.stmts.last().unwrap();
                            self.rep(rng(cs.span()), 8, vec![Part::Lit("".into())]);
                            if !last {
                                let at = rng(s.span()).end;
                                self.ins(at, 20, " else {".into());
                                self.ins(close, -2000 + i as i32, "}".into());
                            }
                            self.note("`if c { continue; } rest` => `if c {} else { rest }` in for loops");
                        } else if last { self.wrap_tail(e); }
                    }
                    syn::Expr::Continue(_) if last => {
                        let r = if semi.is_some() { rng(s.span()) } else { rng(e.span()) };
                        self.rep(r, 8, vec![Part::Lit("".into())]);
                        self.note("trailing `continue` of a for body dropped");
                    }
                    _ if last => self.wrap_tail(e),
                    _ => {}
                }
            }
        }
    }
    fn wrap_tail(&mut self, e: &syn::Expr) {
        match e {
            syn::Expr::If(f) => {
                self.wrap_continue(&f.then_branch);
                if let Some((_, el)) = &f.else_branch { self.wrap_tail(el); }
            }
            syn::Expr::Block(b) => self.wrap_continue(&b.block),
            syn::Expr::Match(m) => for a in &m.arms {
                match &*a.body {
                    syn::Expr::Continue(c) => { self.rep(rng(c.span()), 8, vec![Part::Lit("{}".into())]); self.note("trailing `continue` of a for body dropped"); }
                    o => self.wrap_tail(o),
                }
            },
            _ => {}
        }
    }
    fn call_hook(&mut self, name: &str) {
        self.callees.push(name.to_string());
        let c = self.call_counts.entry(name.to_string()).or_insert(0);
        let k = *c;
        *c += 1;
        if let Some(t) = self.sec(&format!("before call {name} {k}")) {
            if let Some(r) = self.stmt_stack.last().cloned() {
                self.ins(r.start, 0, format!("\n{t}\n"));
            }
        }
        if let Some(t) = self.sec(&format!("after call {name} {k}")) {
            if let Some(r) = self.stmt_stack.last().cloned() {
                self.ins(r.end, 0, format!("\n{t}\n"));
            }
        }
    }
    fn try_expr_rules(&mut self, e: &syn::Expr) {
        for (p, tmpl, raw) in &self.rules.expr {
            let mut b: BTreeMap<String, Range<usize>> = BTreeMap::new();
            if pat::matches(&p.0, e, &mut b) {
                let parts = template_parts(tmpl, &b);
                self.rep(rng(e.span()), 1, parts);
                self.notes.push(format!("rewrite expr `{raw}`"));
                return;
            }
        }
    }
    fn on_macro(&mut self, m: &syn::Macro, whole: Range<usize>, is_stmt: bool) {
        let name = m.path.segments.last().unwrap().ident.to_string();
        if self.rules.drop_macros.contains(&name) {
            self.rep(whole, 3, vec![Part::Lit(if is_stmt { "".into() } else { "()".into() })]);
            self.note(format!("dropped macro {name}!"));
            return;
        }
        for (n, t) in self.rules.macros.clone() {
            if n == name {
                let inner = rng(m.tokens.span());
                let mut b = BTreeMap::new();
                if !m.tokens.is_empty() {
                    b.insert("__args".to_string(), inner);
                }
                let mut parts = template_parts(&t, &b);
                if is_stmt { parts.push(Part::Lit(";".into())); }
                self.rep(whole, 3, parts);
                self.note(format!("rewrite macro {name}!"));
                return;
            }
        }
        if name == "matches" {
            if let Ok(mm) = m.parse_body::<MatchesArgs>() {
                let mut parts = vec![
                    Part::Lit("(match ".into()),
                    Part::Src(rng(mm.e.span())),
                    Part::Lit(" { ".into()),
                    Part::Src(rng(mm.p.span())),
                ];
                if let Some(g) = &mm.g {
                    parts.push(Part::Lit(" if ".into()));
                    parts.push(Part::Src(rng(g.span())));
                }
                parts.push(Part::Lit(" => true, _ => false })".into()));
                if is_stmt { parts.push(Part::Lit(";".into())); }
                self.rep(whole, 2, parts);
                self.visit_expr(&mm.e);
                self.visit_pat(&mm.p);
                if let Some(g) = &mm.g {
                    self.visit_expr(g);
                }
                self.note("matches! expanded to match");
            }
        } else {
            self.callees.push(format!("{name}!"));
            // visit comma separated expression arguments so that rewrites apply inside
            if let Ok(args) = m.parse_body_with(syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated) {
                for a in args.iter() {
                    self.visit_expr(a);
                }
            }
        }
    }
}

/// `match E { "a" | "b" => A, x => B }` => `match E { m => if str_eq(m, "a") || .. { A } else { let x = m; B } }`
fn str_match(m: &syn::ExprMatch) -> Option<Vec<Part>> {
    fn lits(p: &syn::Pat) -> Option<Vec<Range<usize>>> {
        match p {
            syn::Pat::Lit(l) => if let syn::Lit::Str(_) = &l.lit { Some(vec![rng(l.span())]) } else { None },
            syn::Pat::Or(o) => {
                let mut v = vec![];
                for c in &o.cases { v.extend(lits(c)?); }
                Some(v)
            }
            syn::Pat::Paren(p) => lits(&p.pat),
            _ => None,
        }
    }
    let mut parts = vec![Part::Lit("match ".into()), Part::Src(rng(m.expr.span())), Part::Lit(" { __m => ".into())];
    let mut any = false;
    let mut closed = false;
    for a in &m.arms {
        if closed { break; }
        if let Some(ls) = lits(&a.pat) {
            any = true;
            parts.push(Part::Lit("if (".into()));
            for (i, l) in ls.into_iter().enumerate() {
                if i > 0 { parts.push(Part::Lit(" || ".into())); }
                parts.push(Part::Lit("str_eq(__m, ".into()));
                parts.push(Part::Src(l));
                parts.push(Part::Lit(")".into()));
            }
            parts.push(Part::Lit(")".into()));
            if let Some((_, g)) = &a.guard {
                parts.push(Part::Lit(" && (".into()));
                parts.push(Part::Src(rng(g.span())));
                parts.push(Part::Lit(")".into()));
            }
            parts.push(Part::Lit(" { ".into()));
            parts.push(Part::Src(rng(a.body.span())));
            parts.push(Part::Lit(" } else ".into()));
        } else {
            if a.guard.is_some() { return None; }
            let bind = match &a.pat {
                syn::Pat::Wild(_) => String::new(),
                syn::Pat::Ident(i) if i.subpat.is_none() && i.by_ref.is_none() => format!("let {} = __m; ", i.ident),
                _ => return None,
            };
            parts.push(Part::Lit(format!("{{ {bind}")));
            parts.push(Part::Src(rng(a.body.span())));
            parts.push(Part::Lit(" }".into()));
            closed = true;
        }
    }
    if !any || !closed { return None; }
    parts.push(Part::Lit(" }".into()));
    Some(parts)
}

/// the slice/Vec an iterator expression walks in order, and whether it is enumerated
fn slice_iter_base(e: &syn::Expr) -> Option<(Range<usize>, bool)> {
    match e {
        syn::Expr::Paren(p) => slice_iter_base(&p.expr),
        syn::Expr::Reference(r) => Some((rng(r.expr.span()), false)),
        syn::Expr::Path(_) | syn::Expr::Field(_) => Some((rng(e.span()), false)),
        syn::Expr::MethodCall(m) if (m.method == "iter" || m.method == "iter_mut") && m.args.is_empty() => Some((rng(m.receiver.span()), false)),
        syn::Expr::MethodCall(m) if m.method == "enumerate" && m.args.is_empty() => slice_iter_base(&m.receiver).map(|(r, _)| (r, true)),
        _ => None,
    }
}

fn ends_in_continue(b: &syn::Block) -> bool {
    matches!(b.stmts.last(), Some(syn::Stmt::Expr(syn::Expr::Continue(c), _)) if c.label.is_none())
}

struct MatchesArgs {
    e: syn::Expr,
    p: syn::Pat,
    g: Option<syn::Expr>,
}
impl syn::parse::Parse for MatchesArgs {
    fn parse(input: syn::parse::ParseStream) -> syn::Result<Self> {
        let e: syn::Expr = input.parse()?;
        input.parse::<syn::Token![,]>()?;
        let p = syn::Pat::parse_multi_with_leading_vert(input)?;
        let g = if input.peek(syn::Token![if]) {
            input.parse::<syn::Token![if]>()?;
            Some(input.parse()?)
        } else {
            None
        };
        let _ = input.parse::<Option<syn::Token![,]>>()?;
        Ok(Self { e, p, g })
    }
}

pub fn template_parts(t: &str, b: &BTreeMap<String, Range<usize>>) -> Vec<Part> {
    let mut parts = vec![];
    let mut rest = t;
    'o: while !rest.is_empty() {
        if let Some(i) = rest.find("__") {
            parts.push(Part::Lit(rest[..i].to_string()));
            rest = &rest[i..];
            let mut names: Vec<&String> = b.keys().collect();
            names.sort_by_key(|n| std::cmp::Reverse(n.len()));
            for n in names {
                if rest.starts_with(n.as_str()) {
                    parts.push(Part::Src(b[n].clone()));
                    rest = &rest[n.len()..];
                    continue 'o;
                }
            }
            if let Some(r) = rest.strip_prefix("__args") {
                rest = r;
                continue 'o;
            }
            parts.push(Part::Lit("__".into()));
            rest = &rest[2..];
        } else {
            parts.push(Part::Lit(rest.to_string()));
            break;
        }
    }
    parts
}

impl<'ast, 'a> Visit<'ast> for Weaver<'a> {
    fn visit_attribute(&mut self, a: &'ast syn::Attribute) {
        self.rep(rng(a.span()), 9, vec![Part::Lit("".into())]);
    }
    fn visit_visibility(&mut self, v: &'ast syn::Visibility) {
        if let syn::Visibility::Restricted(r) = v {
            self.rep(rng(r.span()), 9, vec![Part::Lit("pub".into())]);
        }
    }
    fn visit_stmt(&mut self, s: &'ast syn::Stmt) {
        self.stmt_stack.push(rng(s.span()));
        match s {
            syn::Stmt::Macro(m) => {
                for a in &m.attrs { self.visit_attribute(a); }
                self.on_macro(&m.mac, rng(s.span()), true);
            }
            _ => syn::visit::visit_stmt(self, s),
        }
        self.stmt_stack.pop();
    }
    fn visit_expr(&mut self, e: &'ast syn::Expr) {
        self.try_expr_rules(e);
        match e {
            syn::Expr::Macro(m) => {
                self.on_macro(&m.mac, rng(e.span()), false);
                return;
            }
            syn::Expr::ForLoop(f) => {
                let key = format!("loop {} index ", self.loops);
                let hit = self.block.secs.iter().position(|(n, _)| n.starts_with(&key));
                if let Some(i) = hit {
                    // sec `loop N index IDX [copy]`: for PAT in E { B } =>
                    // { let it = &E'; let mut IDX: usize = 0; while IDX < it.len() inv { let PAT = it[IDX]; IDX = IDX + 1; B } }
                    self.used[i] = true;
                    let (nm, tx) = self.block.secs[i].clone();
                    let mut ws = nm[key.len()..].split_whitespace();
                    let idx = ws.next().unwrap_or("i").to_string();
                    let flags: Vec<&str> = ws.collect();
                    // `&x` as the pattern takes a copy, too
                    let (copy, pat) = match &*f.pat {
                        syn::Pat::Reference(r) if matches!(&*r.pat, syn::Pat::Ident(_)) => (true, &*r.pat),
                        p => (flags.contains(&"copy"), p),
                    };
                    // `reborrow`: the base is itself a `&mut`
                    let reborrow = flags.contains(&"reborrow");
                    let mutable = reborrow || flags.contains(&"mut");
                    let n = self.loops;
                    let (base, enumerate) = match slice_iter_base(&f.expr) {
                        Some(x) => x,
                        None => { self.errors.push(format!("LOST-ANCHOR loop {n} iterates over `{}`", norm(&*f.expr))); return; }
                    };
                    self.loops += 1;
                    self.loop_kinds.push("for".into());
                    let head = rng(f.for_token.span()).start..rng(f.body.brace_token.span.open()).end;
                    let ls = self.sec(&format!("loopstart {n}")).unwrap_or_default();
                    let bl = self.sec(&format!("before-loop {n}")).unwrap_or_default();
                    let mut el = if copy { format!("__it{n}[{idx}]") } else if mutable { format!("&mut __it{n}[{idx}]") } else { format!("&__it{n}[{idx}]") };
                    if enumerate { el = format!("({idx}, {el})"); }
                    self.rep(head, 7, vec![
                        Part::Lit(format!("{{ let __it{n} = {}(", if reborrow { "&mut *" } else if mutable { "&mut " } else { "&" })),
                        Part::Src(base),
                        Part::Lit(format!("); let mut {idx}: usize = 0;\n{bl}\nwhile {idx} < __it{n}.len()\n{tx}\n{{\nlet ")),
                        Part::Src(rng(pat.span())),
                        Part::Lit(format!(" = {el}; {idx} = {idx} + 1;\n{ls}\n")),
                    ]);
                    if let Some(t) = self.sec(&format!("loopend {n}")) {
                        self.ins(rng(f.body.brace_token.span.close()).start, 0, format!("\n{t}\n"));
                    }
                    let al = self.sec(&format!("after-loop {n}")).unwrap_or_default();
                    self.ins(rng(e.span()).end, -60, format!("\n{al}\n}}"));
                    self.notes.push(format!("loop {n}: `for {} in {}` => loop over the index", norm(&*f.pat), norm(&*f.expr)));
                    self.note("for over a slice/Vec => while over its index");
                    for a in &f.attrs { self.visit_attribute(a); }
                    self.visit_pat(&f.pat);
                    self.visit_expr(&f.expr);
                    self.visit_block(&f.body);
                    return;
                }
                // sec `loop N zip IDX`: for (A, B) in X.iter_mut().zip(Y) { .. } => while over the index of X and the
                // front of Y
                let zkey = format!("loop {} zip ", self.loops);
                if let Some(i) = self.block.secs.iter().position(|(n, _)| n.starts_with(&zkey)) {
                    self.used[i] = true;
                    let (nm, tx) = self.block.secs[i].clone();
                    let idx = nm[zkey.len()..].trim().to_string();
                    let n = self.loops;
                    let parts = (|| {
                        let syn::Expr::MethodCall(z) = &*f.expr else { return None };
                        if z.method != "zip" || z.args.len() != 1 { return None }
                        let syn::Expr::MethodCall(x) = &*z.receiver else { return None };
                        if x.method != "iter_mut" { return None }
                        let syn::Pat::Tuple(t) = &*f.pat else { return None };
                        if t.elems.len() != 2 { return None }
                        Some((rng(x.receiver.span()), rng(z.args[0].span()), rng(t.elems[0].span()), rng(t.elems[1].span())))
                    })();
                    let Some((x, y, a, b)) = parts else { self.errors.push(format!("LOST-ANCHOR loop {n} is not a zip of iter_mut: `{}`", norm(&*f.expr))); return; };
                    self.loops += 1;
                    self.loop_kinds.push("for".into());
                    let head = rng(f.for_token.span()).start..rng(f.body.brace_token.span.open()).end;
                    let ls = self.sec(&format!("loopstart {n}")).unwrap_or_default();
                    let bl = self.sec(&format!("before-loop {n}")).unwrap_or_default();
                    self.rep(head, 7, vec![
                        Part::Lit(format!("{{ let __x{n} = &mut *")), Part::Src(x), Part::Lit(format!("; let mut __y{n} = fronts(")), Part::Src(y),
                        Part::Lit(format!("); let mut {idx}: usize = 0;\n{bl}\nwhile {idx} < __x{n}.len() && !__y{n}.v.is_empty()\n{tx}\n{{\nlet ")),
                        Part::Src(a), Part::Lit(format!(" = &mut __x{n}[{idx}]; let ")), Part::Src(b), Part::Lit(format!(" = must(__y{n}.next()); {idx} = {idx} + 1;\n{ls}\n")),
                    ]);
                    if let Some(t) = self.sec(&format!("loopend {n}")) {
                        self.ins(rng(f.body.brace_token.span.close()).start, 0, format!("\n{t}\n"));
                    }
                    let al = self.sec(&format!("after-loop {n}")).unwrap_or_default();
                    self.ins(rng(e.span()).end, -60, format!("\n{al}\n}}"));
                    self.note("for over iter_mut().zip(owned) => while over the index and the front");
                    self.visit_block(&f.body);
                    return;
                }
                self.wrap_continue(&f.body);
                self.do_loop("for", rng(f.expr.span()).end, Some(rng(f.expr.span())), &f.body, rng(e.span()));
            }
            syn::Expr::While(f) => {
                self.do_loop("while", rng(f.cond.span()).end, None, &f.body, rng(e.span()));
            }
            syn::Expr::Loop(f) => {
                self.do_loop("loop", rng(f.loop_token.span()).end, None, &f.body, rng(e.span()));
            }
            syn::Expr::Closure(c) => {
                let n = self.closures;
                self.closures += 1;
                if let Some(t) = self.sec(&format!("closure {n}")) {
                    let hdr = rng(c.span()).start..rng(c.body.span()).start;
                    self.rep(hdr, 6, vec![Part::Lit(format!("{} ", t.trim()))]);
                    // a pattern for the one parameter is bound inside: the header names it __p
                    let mut bind = None;
                    if c.inputs.len() == 1 {
                        let p = match &c.inputs[0] { syn::Pat::Type(t) => &*t.pat, p => p };
                        if !matches!(p, syn::Pat::Ident(_)) && t.contains("__p") {
                            let (p, by) = match p { syn::Pat::Reference(r) => (&*r.pat, "*__p"), p => (p, "__p") };
                            bind = Some(format!("let {} = {by}; ", norm(p)));
                            self.note("a pattern as a closure's parameter => a let in its body");
                        }
                    }
                    let bind = bind.unwrap_or_default();
                    if !matches!(&*c.body, syn::Expr::Block(_)) {
                        let b = rng(c.body.span());
                        self.ins(b.start, 100, format!("{{ {bind}"));
                        self.ins(b.end, -100, " }".into());
                    } else if !bind.is_empty() {
                        if let syn::Expr::Block(bl) = &*c.body { self.ins(rng(bl.block.brace_token.span.open()).end, 100, bind); }
                    }
                }
            }
            // `if let Some(&x) = e` => `if let Some(x) = opt_copied(e)` (verified shim)
            syn::Expr::Let(l) => {
                if let syn::Pat::TupleStruct(t) = &*l.pat {
                    if t.path.is_ident("Some") && t.elems.len() == 1 {
                        if let syn::Pat::Reference(r) = &t.elems[0] {
                            if let (syn::Pat::Ident(_), None) = (&*r.pat, &r.mutability) {
                                self.rep(rng(t.elems[0].span()), 3, vec![Part::Src(rng(r.pat.span()))]);
                                self.ins(rng(l.expr.span()).start, 200, "opt_copied(".into());
                                self.ins(rng(l.expr.span()).end, -200, ")".into());
                                self.note("if let Some(&x) = e => if let Some(x) = opt_copied(e)");
                            }
                        }
                    }
                }
            }
            syn::Expr::Match(m) => {
                if let Some(parts) = str_match(m) {
                    self.rep(rng(e.span()), 0, parts);
                    self.note("match on string literals => if chain over str_eq");
                    self.visit_expr(&m.expr);
                    for a in &m.arms {
                        if let Some((_, g)) = &a.guard { self.visit_expr(g); }
                        self.visit_expr(&a.body);
                    }
                    return;
                }
            }
            syn::Expr::Call(c) => {
                if let syn::Expr::Path(p) = &*c.func {
                    let name = p.path.segments.last().unwrap().ident.to_string();
                    self.call_hook(&name);
                }
            }
            syn::Expr::MethodCall(c) => {
                let name = c.method.to_string();
                self.call_hook(&name);
            }
            _ => {}
        }
        syn::visit::visit_expr(self, e);
    }
    fn visit_type(&mut self, t: &'ast syn::Type) {
        let n = norm(t);
        for (a, b) in &self.rules.types {
            if *a == n {
                self.rep(rng(t.span()), 2, vec![Part::Lit(b.clone())]);
                self.notes.push(format!("rewrite type `{a}` => `{b}`"));
                return;
            }
        }
        syn::visit::visit_type(self, t);
    }
    fn visit_path(&mut self, p: &'ast syn::Path) {
        let n = norm(p);
        if self.this && n == "self" { self.rep(rng(p.span()), 2, vec![Part::Lit("__this".into())]); return; }
        for (a, b) in &self.rules.paths {
            if let Some(pre) = a.strip_suffix("::*") {
                // strip a module prefix
                let pre = format!("{pre}::");
                if n.starts_with(&pre) {
                    let k = pre.matches("::").count();
                    if p.segments.len() > k {
                        let s = rng(p.span()).start;
                        let e = rng(p.segments[k].span()).start;
                        self.rep(s..e, 2, vec![Part::Lit(b.clone())]);
                        self.notes.push(format!("rewrite path `{a}`"));
                        break;
                    }
                }
            } else if *a == n {
                self.rep(rng(p.span()), 2, vec![Part::Lit(b.clone())]);
                self.notes.push(format!("rewrite path `{a}` => `{b}`"));
                return;
            } else {
                // match on the bare path with generic args kept
                let bare: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
                if bare.join("::") == *a {
                    let s = rng(p.span()).start;
                    let e = rng(p.segments.last().unwrap().ident.span()).end;
                    self.rep(s..e, 2, vec![Part::Lit(b.clone())]);
                    self.notes.push(format!("rewrite path `{a}` => `{b}`"));
                    break;
                }
            }
        }
        syn::visit::visit_path(self, p);
    }
    fn visit_item_fn(&mut self, f: &'ast syn::ItemFn) {
        // nested fn items are left alone
        let _ = f;
    }
}

fn parse_template(t: &str) -> Res<Vec<Result<String, Block>>> {
    let mut out: Vec<Result<String, Block>> = vec![];
    let mut cur: Option<Block> = None;
    for line in t.lines() {
        let tl = line.trim_start();
        if let Some(d) = tl.strip_prefix("//@") {
            let d = d.trim();
            if let Some(w) = d.strip_prefix("extract ") {
                if cur.is_some() { return fail(format!("nested extract {w}")); }
                cur = Some(Block { what: w.trim().to_string(), ..Default::default() });
                continue;
            }
            if d == "end" {
                match cur.take() {
                    Some(b) => out.push(Err(b)),
                    None => return fail("end without extract"),
                }
                continue;
            }
            if let Some(b) = cur.as_mut() {
                if let Some(o) = d.strip_prefix("opt ") {
                    let (k, v) = o.trim().split_once(' ').unwrap_or((o.trim(), ""));
                    let e = b.opts.entry(k.to_string()).or_default();
                    if !e.is_empty() { e.push('\n'); }
                    e.push_str(v.trim());
                } else if let Some(s) = d.strip_prefix("sec ") {
                    b.secs.push((s.trim().to_string(), String::new()));
                } else {
                    return fail(format!("unknown directive in extract: {d}"));
                }
                continue;
            }
            out.push(Ok(format!("//@ {d}\n")));
        } else if let Some(b) = cur.as_mut() {
            if let Some(l) = b.secs.last_mut() {
                l.1.push_str(line);
                l.1.push('\n');
            } else if !line.trim().is_empty() {
                return fail(format!("text before section in extract {}: {line}", b.what));
            }
        } else {
            out.push(Ok(format!("{line}\n")));
        }
    }
    if let Some(b) = cur { return fail(format!("unterminated extract {}", b.what)); }
    Ok(out)
}

fn lines(s: &str) -> usize { s.matches('\n').count() }

fn include(text: &str, dir: &std::path::Path, depth: usize) -> Res<String> {
    if depth > 8 { return fail("include too deep"); }
    let mut full = String::new();
    for l in text.lines() {
        if let Some(f) = l.trim().strip_prefix("//@ include ") {
            let p = dir.join(f.trim());
            let t = std::fs::read_to_string(&p).map_err(|e| Fail(format!("{}: {e}", p.display())))?;
            full.push_str(&include(&t, p.parent().unwrap(), depth + 1)?);
        } else {
            full.push_str(l);
            full.push('\n');
        }
    }
    Ok(full)
}

fn run() -> Res<()> {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 5 { return fail("usage: vx TEMPLATE REPO OUT.rs OUT.json [--vacuity]"); }
    let vac = a.iter().any(|x| x == "--vacuity");
    let tmpl = std::fs::read_to_string(&a[1]).map_err(|e| Fail(format!("{}: {e}", a[1])))?;
    // includes
    let dir = std::path::Path::new(&a[1]).parent().unwrap().to_path_buf();
    let full = include(&tmpl, &dir, 0)?;
    let parts = parse_template(&full)?;
    let mut rules = Rules::default();
    let mut file = String::new();
    let mut cache: RefCell<BTreeMap<String, (String, syn::File)>> = RefCell::new(BTreeMap::new());
    let mut out = String::new();
    let mut meta: Vec<serde_json::Value> = vec![];
    let mut errs: Vec<String> = vec![];
    for p in parts {
        match p {
            Ok(text) => {
                if let Some(d) = text.strip_prefix("//@ ") {
                    let d = d.trim();
                    if let Some(f) = d.strip_prefix("file ") {
                        file = f.trim().to_string();
                    } else if let Some(r) = d.strip_prefix("rewrite expr ") {
                        let (l, rr) = r.split_once("==>>").or_else(|| r.split_once("=>")).ok_or(Fail(format!("bad rule {d}")))?;
                        let e: syn::Expr = syn::parse_str(l.trim()).map_err(|e| Fail(format!("bad pattern {l}: {e}")))?;
                        rules.expr.push((ExprWrap(e), rr.trim().to_string(), l.trim().to_string()));
                    } else if let Some(r) = d.strip_prefix("rewrite type ") {
                        let (l, rr) = r.split_once("=>").ok_or(Fail(format!("bad rule {d}")))?;
                        rules.types.push((l.replace(' ', ""), rr.trim().to_string()));
                    } else if let Some(r) = d.strip_prefix("rewrite path ") {
                        let (l, rr) = r.split_once("=>").ok_or(Fail(format!("bad rule {d}")))?;
                        rules.paths.push((l.replace(' ', ""), rr.trim().to_string()));
                    } else if let Some(r) = d.strip_prefix("rewrite macro ") {
                        let (l, rr) = r.split_once("=>").ok_or(Fail(format!("bad rule {d}")))?;
                        rules.macros.push((l.trim().to_string(), rr.trim().to_string()));
                    } else if let Some(r) = d.strip_prefix("dropmacro ") {
                        rules.drop_macros.extend(r.split_whitespace().map(|s| s.to_string()));
                    } else if d == "norules" {
                        rules = Rules { drop_macros: rules.drop_macros.clone(), ..Default::default() };
                    } else if let Some(r) = d.strip_prefix("--") { let _ = r; }
                    else { return fail(format!("unknown directive {d}")); }
                } else {
                    out.push_str(&text);
                }
            }
            Err(b) => {
                let path = format!("{}/{}", a[2], file);
                if !cache.get_mut().contains_key(&file) {
                    let s = std::fs::read_to_string(&path).map_err(|e| Fail(format!("LOST-ANCHOR {file}: {e}")))?;
                    let s = stream::expand(&s);
                    let f = syn::parse_file(&s).map_err(|e| Fail(format!("PARSE {file}: {e}")))?;
                    cache.get_mut().insert(file.clone(), (s, f));
                }
                let c = cache.borrow();
                let (src, ast) = &c[&file];
                let start_line = lines(&out) + 1;
                let lifted = if b.what.starts_with("closure ") { Some(find::lift(&b, src, ast)) } else if b.what.starts_with("if with ") { Some(find::lift_if(&b, src, ast)) } else { None };
                let emitted = match &lifted {
                    None => emit(&b, &rules, src, ast, vac),
                    Some(Err(Fail(e))) => fail(e.clone()),
                    Some(Ok((b2, s2, a2))) => emit(b2, &rules, s2, a2, vac),
                };
                match emitted {
                    Ok((text, mut m)) => {
                        out.push_str(&text);
                        out.push('\n');
                        m["gen_start"] = start_line.into();
                        m["gen_end"] = (lines(&out) + 1).into();
                        m["file"] = file.clone().into();
                        meta.push(m);
                    }
                    Err(Fail(e)) => errs.push(format!("{file}: {e}")),
                }
            }
        }
    }
    std::fs::write(&a[3], &out).map_err(|e| Fail(e.to_string()))?;
    let j = serde_json::json!({"items": meta, "errors": errs});
    std::fs::write(&a[4], serde_json::to_string_pretty(&j).unwrap()).map_err(|e| Fail(e.to_string()))?;
    if !errs.is_empty() { return fail(errs.join("\n")); }
    Ok(())
}

fn emit(b: &Block, rules: &Rules, src: &str, ast: &syn::File, vac: bool) -> Res<(String, serde_json::Value)> {
    let found = find::find(&b.what, ast)?;
    let mut w = Weaver {
        rules, block: b, edits: vec![], loops: 0, closures: 0, loop_kinds: vec![], callees: vec![],
        notes: vec![], used: vec![false; b.secs.len()], stmt_stack: vec![], call_counts: BTreeMap::new(), errors: vec![], this: false,
    };
    let mut text;
    let whole;
    let mut is_fn = false;
    let mut sigtxt = String::new();
    match found {
        find::Found::Fn { attrs, vis, sig, block, imp } => {
            is_fn = true;
            for at in attrs { w.visit_attribute(at); }
            whole = rng(sig.span()).start..rng(block.span()).end;
            sigtxt = norm(sig);
            let _ = vis;
            if sig.asyncness.is_some() {
                if b.opts.contains_key("sync") {
                    let r = rng(sig.asyncness.unwrap().span());
                    w.rep(r, 9, vec![Part::Lit("".into())]);
                    w.note("async dropped");
                } else {
                    return fail(format!("{}: async fn", b.what));
                }
            }
            // signature
            w.visit_generics(&sig.generics);
            for i in &sig.inputs { w.visit_fn_arg(i); }
            match &sig.output {
                syn::ReturnType::Default => {}
                syn::ReturnType::Type(_, t) if b.opts.contains_key("returns") => {
                    w.rep(rng(t.span()), 9, vec![Part::Lit(b.opts["returns"].clone())]);
                    w.note("return type rewritten");
                }
                syn::ReturnType::Type(_, t) => {
                    w.visit_type(t);
                    let r = rng(t.span());
                    let name = b.opts.get("ret").cloned().unwrap_or("r".into());
                    w.ins(r.start, 50, format!("({name}: "));
                    w.ins(r.end, -50, ")".into());
                }
            }
            if let Some(p) = b.opts.get("params") {
                w.ins(rng(sig.paren_token.span.close()).start, 9, if sig.inputs.empty_or_trailing() { p.clone() } else { format!(", {p}") });
                w.note("parameter added");
            }
            if let Some(n) = b.opts.get("as") {
                w.rep(rng(sig.ident.span()), 9, vec![Part::Lit(n.clone())]);
            }
            if let Some(g) = b.opts.get("generics") {
                if sig.generics.params.is_empty() {
                    w.ins(rng(sig.ident.span()).end, 9, g.clone());
                } else {
                    w.rep(rng(sig.generics.span()), 9, vec![Part::Lit(g.clone())]);
                }
                if let Some(wc) = &sig.generics.where_clause {
                    w.rep(rng(wc.span()), 9, vec![Part::Lit("".into())]);
                }
                w.note("generics rewritten");
            }
            let open = rng(block.brace_token.span.open());
            // `mut self` is not in Verus' subset: the body works on a mutable copy of the same name but for the spelling
            if let Some(syn::FnArg::Receiver(r)) = sig.inputs.first() {
                if let (None, Some(m)) = (&r.reference, &r.mutability) {
                    w.rep(rng(m.span()), 9, vec![Part::Lit("".into())]);
                    w.ins(open.end, 20, "\nlet mut __this = self;\n".into());
                    w.this = true;
                    w.note("mut self as a local");
                }
            }
            let close = rng(block.brace_token.span.close());
            if let Some(s) = w.sec("spec") {
                w.ins(open.start, 0, format!("\n{s}\n"));
            }
            if let Some(s) = w.sec("start") {
                w.ins(open.end, 10, format!("\n{s}\n"));
            }
            if vac { w.ins(open.end, 9, "\nproof { assert(false); }\n".into()); }
            if let Some(s) = w.sec("tail") {
                let at = match block.stmts.last() {
                    Some(syn::Stmt::Expr(e, None)) => rng(e.span()).start,
                    _ => close.start,
                };
                w.ins(at, 0, format!("\n{s}\n"));
            }
            w.visit_block(block);
            let body = render(src, whole.clone(), &w.edits, None);
            let vis = if imp.as_ref().map_or(false, |i| i.trait_.is_some() && b.opts.contains_key("keeptrait")) { "" } else { "pub " };
            let attr = b.opts.get("attr").cloned().unwrap_or_default();
            text = format!("{attr}\n{vis}{body}");
            if let Some(i) = imp {
                if !b.opts.contains_key("free") {
                    let (ge, ty) = find::impl_header(i, src, rules, b);
                    if let Some((_, tp, _)) = &i.trait_ {
                        if b.opts.contains_key("keeptrait") {
                            text = format!("impl{ge} {} for {ty} {{\n{text}\n}}", &src[rng(tp.span())]);
                        } else {
                            w.note(format!("trait impl method of {} emitted as inherent method", norm(tp)));
                            text = format!("impl{ge} {ty} {{\n{text}\n}}");
                        }
                    } else {
                        text = format!("impl{ge} {ty} {{\n{text}\n}}");
                    }
                }
            }
        }
        find::Found::Item(it) => {
            whole = rng(it.span());
            match it {
                syn::Item::Struct(s) => {
                    for at in &s.attrs { w.visit_attribute(at); }
                    set_pub(&mut w, &s.vis, rng(s.struct_token.span()).start);
                    let keep = b.opts.get("keepfields").map(|k| k.split_whitespace().map(|s| s.to_string()).collect::<Vec<_>>());
                    let fty: Vec<(String, String)> = b.opts.get("field").map(|k| k.lines().filter_map(|l| l.split_once(':').map(|(a, b)| (a.trim().into(), b.trim().into()))).collect()).unwrap_or_default();
                    let n = s.fields.len();
                    let fv: Vec<&syn::Field> = s.fields.iter().collect();
                    for (i, f) in fv.iter().enumerate() {
                        let name = f.ident.as_ref().map(|i| i.to_string()).unwrap_or(i.to_string());
                        if let Some(k) = &keep {
                            if !k.contains(&name) {
                                // drop the field with its trailing comma
                                let st = rng(f.span()).start;
                                let en = if i + 1 < n { rng(fv[i + 1].span()).start } else {
                                    let e = rng(f.span()).end; let rest = &src[e..]; 
                                    if rest.trim_start().starts_with(',') { e + rest.find(',').unwrap() + 1 } else { e } };
                                w.rep(st..en, 20, vec![Part::Lit("".into())]);
                                w.note(format!("field {name} dropped"));
                                continue;
                            }
                        }
                        for at in &f.attrs { w.visit_attribute(at); }
                        let st = f.ident.as_ref().map(|i| rng(i.span()).start).unwrap_or(rng(f.ty.span()).start);
                        set_pub(&mut w, &f.vis, st);
                        if let Some((_, t)) = fty.iter().find(|(a, _)| *a == name) {
                            w.rep(rng(f.ty.span()), 20, vec![Part::Lit(t.clone())]);
                            w.note(format!("field {name} type replaced by {t}"));
                        } else {
                            w.visit_type(&f.ty);
                        }
                    }
                    if let Some(g) = b.opts.get("generics") {
                        if !s.generics.params.is_empty() { w.rep(rng(s.generics.span()), 9, vec![Part::Lit(g.clone())]); }
                        w.note("generics rewritten");
                    } else { w.visit_generics(&s.generics); }
                }
                syn::Item::Enum(s) => {
                    for at in &s.attrs { w.visit_attribute(at); }
                    set_pub(&mut w, &s.vis, rng(s.enum_token.span()).start);
                    for v in &s.variants { 
                        for at in &v.attrs { w.visit_attribute(at); }
                        for f in &v.fields { for at in &f.attrs { w.visit_attribute(at); } w.visit_type(&f.ty); }
                        if let Some((_, d)) = &v.discriminant { w.visit_expr(d); }
                    }
                    if let Some(g) = b.opts.get("generics") {
                        if !s.generics.params.is_empty() { w.rep(rng(s.generics.span()), 9, vec![Part::Lit(g.clone())]); }
                        w.note("generics rewritten");
                    } else { w.visit_generics(&s.generics); }
                }
                syn::Item::Const(s) => {
                    for at in &s.attrs { w.visit_attribute(at); }
                    set_pub(&mut w, &s.vis, rng(s.const_token.span()).start);
                    w.visit_type(&s.ty);
                    w.visit_expr(&s.expr);
                }
                syn::Item::Type(s) => {
                    for at in &s.attrs { w.visit_attribute(at); }
                    set_pub(&mut w, &s.vis, rng(s.type_token.span()).start);
                    w.visit_type(&s.ty);
                }
                syn::Item::Static(s) => {
                    for at in &s.attrs { w.visit_attribute(at); }
                    w.rep(rng(s.static_token.span()), 9, vec![Part::Lit("pub const".into())]);
                    w.visit_type(&s.ty);
                    w.visit_expr(&s.expr);
                    w.note("static emitted as const");
                }
                _ => return fail(format!("{}: unsupported item kind", b.what)),
            }
            text = render(src, whole.clone(), &w.edits, None);
            if let Some(d) = b.opts.get("derive") { text = format!("#[derive({d})]\n{text}"); }
            if let Some(d) = b.opts.get("attr") { text = format!("{d}\n{text}"); }
            w.note("attributes, derives and docs dropped; visibility widened");
        }
    }
    if !w.errors.is_empty() { return fail(w.errors.join("; ")); }
    for (i, u) in w.used.iter().enumerate() {
        if !u { return fail(format!("LOST-ANCHOR {}: section `{}` has no place in the current text", b.what, b.secs[i].0)); }
    }
    let raw = &src[whole.clone()];
    let l0 = src[..whole.start].matches('\n').count() + 1;
    let l1 = src[..whole.end].matches('\n').count() + 1;
    w.callees.sort();
    w.notes.sort();
    w.notes.dedup();
    let m = serde_json::json!({
        "what": b.what, "lines": [l0, l1], "is_fn": is_fn,
        "has_contract": b.secs.iter().any(|s| s.0 == "spec"),
        "has_requires": b.secs.iter().any(|s| s.0 == "spec" && s.1.contains("requires")),
        "raw_len": raw.len(),
        "struct_fp": format!("{}|loops={}|closures={}", sigtxt, w.loop_kinds.join(","), w.closures),
        "notes": w.notes,
    });
    Ok((text, m))
}

fn set_pub(w: &mut Weaver, v: &syn::Visibility, at: usize) {
    match v {
        syn::Visibility::Inherited => w.ins(at, 30, "pub ".into()),
        syn::Visibility::Restricted(r) => w.rep(rng(r.span()), 30, vec![Part::Lit("pub".into())]),
        _ => {}
    }
}

fn main() {
    if let Err(Fail(e)) = run() {
        eprintln!("vx: {e}");
        std::process::exit(2);
    }
}
