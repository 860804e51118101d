//! Structural expression matching with metavariables `__x`.
use crate::*;

fn unparen(e: &syn::Expr) -> &syn::Expr {
    match e { syn::Expr::Paren(p) => unparen(&p.expr), syn::Expr::Group(p) => unparen(&p.expr),
        syn::Expr::Block(b) if b.label.is_none() && b.attrs.is_empty() => match b.block.stmts.as_slice() { [syn::Stmt::Expr(x, None)] => unparen(x), _ => e },
        _ => e }
}

fn metavar(e: &syn::Expr) -> Option<String> {
    if let syn::Expr::Path(p) = e {
        if let Some(i) = p.path.get_ident() {
            let s = i.to_string();
            if s.starts_with("__") { return Some(s); }
        }
    }
    None
}

pub fn matches(p: &syn::Expr, e: &syn::Expr, b: &mut BTreeMap<String, Range<usize>>) -> bool {
    if let Some(n) = metavar(p) {
        let r = rng(e.span());
        b.insert(n, r);
        return true;
    }
    let (p, e) = (unparen(p), unparen(e));
    if let Some(n) = metavar(p) { b.insert(n, rng(e.span())); return true; }
    match (p, e) {
        (syn::Expr::MethodCall(a), syn::Expr::MethodCall(c)) => {
            a.method == c.method && a.args.len() == c.args.len() && matches(&a.receiver, &c.receiver, b)
                && a.args.iter().zip(c.args.iter()).all(|(x, y)| matches(x, y, b))
                && a.turbofish.as_ref().map_or(true, |t| c.turbofish.as_ref().map_or(false, |u| norm(t) == norm(u)))
        }
        (syn::Expr::Call(a), syn::Expr::Call(c)) => {
            a.args.len() == c.args.len() && matches(&a.func, &c.func, b) && a.args.iter().zip(c.args.iter()).all(|(x, y)| matches(x, y, b))
        }
        (syn::Expr::Reference(a), syn::Expr::Reference(c)) => a.mutability.is_some() == c.mutability.is_some() && matches(&a.expr, &c.expr, b),
        (syn::Expr::Unary(a), syn::Expr::Unary(c)) => norm(&a.op) == norm(&c.op) && matches(&a.expr, &c.expr, b),
        (syn::Expr::Binary(a), syn::Expr::Binary(c)) => norm(&a.op) == norm(&c.op) && matches(&a.left, &c.left, b) && matches(&a.right, &c.right, b),
        (syn::Expr::Field(a), syn::Expr::Field(c)) => {
            let m = norm(&a.member);
            if m.starts_with("__") { b.insert(m, rng(c.member.span())); } else if m != norm(&c.member) { return false; }
            matches(&a.base, &c.base, b)
        }
        (syn::Expr::Range(a), syn::Expr::Range(c)) => {
            let side = |x: &Option<Box<syn::Expr>>, y: &Option<Box<syn::Expr>>, b: &mut BTreeMap<String, Range<usize>>| match (x, y) { (None, None) => true, (Some(x), Some(y)) => matches(x, y, b), _ => false };
            norm(&a.limits) == norm(&c.limits) && side(&a.start, &c.start, b) && side(&a.end, &c.end, b)
        }
        (syn::Expr::Match(a), syn::Expr::Match(c)) => matches(&a.expr, &c.expr, b) && a.arms.len() == c.arms.len()
            && a.arms.iter().zip(arms_like(a, c)).all(|(x, y)| norm(&x.pat) == norm(&y.pat)
                && match (&x.guard, &y.guard) { (None, None) => true, (Some(g), Some(h)) => matches(&g.1, &h.1, b), _ => false }
                && matches(&x.body, &y.body, b)),
        (syn::Expr::Index(a), syn::Expr::Index(c)) => matches(&a.expr, &c.expr, b) && matches(&a.index, &c.index, b),
        (syn::Expr::Assign(a), syn::Expr::Assign(c)) => matches(&a.left, &c.left, b) && matches(&a.right, &c.right, b),
        (syn::Expr::Array(a), syn::Expr::Array(c)) => a.elems.len() == c.elems.len() && a.elems.iter().zip(c.elems.iter()).all(|(x, y)| matches(x, y, b)),
        (syn::Expr::Tuple(a), syn::Expr::Tuple(c)) => a.elems.len() == c.elems.len() && a.elems.iter().zip(c.elems.iter()).all(|(x, y)| matches(x, y, b)),
        (syn::Expr::Try(a), syn::Expr::Try(c)) => matches(&a.expr, &c.expr, b),
        (syn::Expr::Await(a), syn::Expr::Await(c)) => matches(&a.base, &c.base, b),
        (syn::Expr::Cast(a), syn::Expr::Cast(c)) => norm(&a.ty) == norm(&c.ty) && matches(&a.expr, &c.expr, b),
        (syn::Expr::Closure(a), syn::Expr::Closure(c)) => norm(&a.inputs) == norm(&c.inputs) && a.capture.is_some() == c.capture.is_some() && matches(&a.body, &c.body, b),
        _ => norm(p) == norm(e),
    }
}

/// The arms of `c`, in the order of the patterns of `a` where all patterns but the last `_` are
/// distinct literals (the order of such arms means nothing).
fn arms_like<'a>(a: &syn::ExprMatch, c: &'a syn::ExprMatch) -> Vec<&'a syn::Arm> {
    let lit = |x: &syn::Arm, last: bool| matches!(x.pat, syn::Pat::Lit(_)) && x.guard.is_none() || last && norm(&x.pat) == "_";
    let n = c.arms.len();
    if c.arms.iter().enumerate().all(|(i, x)| lit(x, i + 1 == n)) {
        let r: Vec<&syn::Arm> = a.arms.iter().filter_map(|x| c.arms.iter().find(|y| norm(&x.pat) == norm(&y.pat))).collect();
        if r.len() == n { return r; }
    }
    c.arms.iter().collect()
}
