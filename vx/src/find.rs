use crate::*;

pub enum Found<'a> {
    Fn { attrs: &'a [syn::Attribute], vis: Option<&'a syn::Visibility>, sig: &'a syn::Signature, block: &'a syn::Block, imp: Option<&'a syn::ItemImpl> },
    Item(&'a syn::Item),
}

fn is_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| { let n = norm(a); n.contains("cfg(test)") || n.contains("cfg(all(test") })
}

fn walk<'a>(items: &'a [syn::Item], f: &mut dyn FnMut(&'a syn::Item)) {
    for i in items {
        if let syn::Item::Mod(m) = i {
            if is_test(&m.attrs) { continue; }
            if let Some((_, its)) = &m.content { walk(its, f); }
        }
        f(i);
    }
}

fn last_ident(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        syn::Type::Reference(r) => last_ident(&r.elem),
        _ => norm(t),
    }
}

/// `fn NAME`, `method Type::NAME`, `method Trait for Type::NAME`, `struct|enum|const|type|static NAME`
pub fn find<'a>(what: &str, ast: &'a syn::File) -> Res<Found<'a>> {
    let (kind, name) = what.split_once(' ').ok_or(Fail(format!("bad item {what}")))?;
    let name = name.trim();
    let mut hits: Vec<Found<'a>> = vec![];
    walk(&ast.items, &mut |i| match (kind, i) {
        ("fn", syn::Item::Fn(f)) if f.sig.ident == name && !is_test(&f.attrs) => hits.push(Found::Fn { attrs: &f.attrs, vis: Some(&f.vis), sig: &f.sig, block: &f.block, imp: None }),
        ("struct", syn::Item::Struct(s)) if s.ident == name => hits.push(Found::Item(i)),
        ("enum", syn::Item::Enum(s)) if s.ident == name => hits.push(Found::Item(i)),
        ("const", syn::Item::Const(s)) if s.ident == name => hits.push(Found::Item(i)),
        ("type", syn::Item::Type(s)) if s.ident == name => hits.push(Found::Item(i)),
        ("static", syn::Item::Static(s)) if s.ident == name => hits.push(Found::Item(i)),
        ("method", syn::Item::Impl(im)) => {
            let (t, m) = match name.rsplit_once("::") { Some(x) => x, None => return };
            let (tr, ty) = match t.split_once(" for ") { Some((a, b)) => (Some(a.trim()), b.trim()), None => (None, t.trim()) };
            if is_test(&im.attrs) { return; }
            if last_ident(&im.self_ty) != ty { return; }
            match (&im.trait_, tr) {
                (Some((_, p, _)), Some(tr)) => if p.segments.last().unwrap().ident != tr && norm(p) != tr.replace(' ', "") { return; },
                (None, None) => {}
                _ => return,
            }
            for it in &im.items {
                if let syn::ImplItem::Fn(f) = it {
                    if f.sig.ident == m { hits.push(Found::Fn { attrs: &f.attrs, vis: Some(&f.vis), sig: &f.sig, block: &f.block, imp: Some(im) }); }
                }
            }
        }
        ("default", syn::Item::Trait(tr)) => {
            // default method of a trait: `default Trait::name`
            let (t, m) = match name.rsplit_once("::") { Some(x) => x, None => return };
            if tr.ident != t { return; }
            for it in &tr.items {
                if let syn::TraitItem::Fn(f) = it {
                    if f.sig.ident == m { if let Some(b) = &f.default { hits.push(Found::Fn { attrs: &f.attrs, vis: None, sig: &f.sig, block: b, imp: None }); } }
                }
            }
        }
        _ => {}
    });
    match hits.len() {
        1 => Ok(hits.pop().unwrap()),
        0 => Err(Fail(format!("LOST-ANCHOR {what}: not found"))),
        n => Err(Fail(format!("LOST-ANCHOR {what}: {n} candidates"))),
    }
}

pub fn impl_header(i: &syn::ItemImpl, src: &str, rules: &Rules, b: &Block) -> (String, String) {
    let ge = if i.generics.params.is_empty() { String::new() } else { src[rng(i.generics.span())].to_string() };
    let mut ty = src[rng(i.self_ty.span())].to_string();
    let n = norm(&i.self_ty);
    for (a, bb) in &rules.types { if *a == n { ty = bb.clone(); } }
    let ge = b.opts.get("implgenerics").cloned().unwrap_or(ge);
    let ty = b.opts.get("implty").cloned().unwrap_or(ty);
    (ge, ty)
}

/// `if with WORD of fn NAME as NEW`: the outermost `if` statement of a function that mentions WORD, as the body of a
/// function of its own, followed by `opt tail` (what falling through means)
pub fn lift_if(b: &Block, src: &str, ast: &syn::File) -> Res<(Block, String, syn::File)> {
    let bad = || Fail(format!("bad item {}", b.what));
    let r = b.what.strip_prefix("if with ").unwrap();
    let (word, r) = r.split_once(" of ").ok_or_else(bad)?;
    let (of, name) = r.split_once(" as ").ok_or_else(bad)?;
    let Found::Fn { block, .. } = find(of.trim(), ast)? else { return Err(bad()) };
    struct V<'a>(&'a str, &'a str, Vec<&'a str>);
    impl<'a> syn::visit::Visit<'a> for V<'a> {
        fn visit_expr_if(&mut self, c: &'a syn::ExprIf) {
            let t = &self.0[rng(syn::spanned::Spanned::span(c))];
            if t.split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| w == self.1) { self.2.push(t); } else { syn::visit::visit_expr_if(self, c); }
        }
    }
    let mut v = V(src, word.trim(), vec![]);
    syn::visit::Visit::visit_block(&mut v, block);
    if v.2.len() != 1 { return fail(format!("LOST-ANCHOR {}: {} such statements", b.what, v.2.len())); }
    let mut b2 = Block { what: format!("fn {}", name.trim()), ..b.clone() };
    let params = b2.opts.remove("params").unwrap_or_default();
    let ret = b2.opts.remove("returns").map(|t| format!(" -> {t}")).unwrap_or_default();
    let tail = b2.opts.remove("tail").unwrap_or_default();
    let text = format!("fn {}({params}){ret} {{\n{}\n{tail}\n}}", name.trim(), v.2[0]);
    let ast2 = syn::parse_file(&text).map_err(|e| Fail(format!("PARSE {}: {e}", b.what)))?;
    Ok((b2, text, ast2))
}

/// `closure K of fn NAME as NEW`: the K-th closure (source order) of a function, as a function of its own; what it
/// captures and its parameters are given, typed, by `opt params`, its result by `opt returns`
pub fn lift(b: &Block, src: &str, ast: &syn::File) -> Res<(Block, String, syn::File)> {
    let bad = || Fail(format!("bad item {}", b.what));
    let r = b.what.strip_prefix("closure ").unwrap();
    let (k, r) = r.split_once(" of ").ok_or_else(bad)?;
    let (of, name) = r.split_once(" as ").ok_or_else(bad)?;
    let k: usize = k.trim().parse().map_err(|_| bad())?;
    let Found::Fn { block, .. } = find(of.trim(), ast)? else { return Err(bad()) };
    struct V<'a>(Vec<&'a syn::ExprClosure>);
    impl<'a> syn::visit::Visit<'a> for V<'a> {
        fn visit_expr_closure(&mut self, c: &'a syn::ExprClosure) { self.0.push(c); syn::visit::visit_expr_closure(self, c); }
    }
    let mut v = V(vec![]);
    syn::visit::Visit::visit_block(&mut v, block);
    let c = v.0.get(k).ok_or(Fail(format!("LOST-ANCHOR {}: no such closure", b.what)))?;
    let body = &src[rng(syn::spanned::Spanned::span(&*c.body))];
    let mut b2 = Block { what: format!("fn {}", name.trim()), ..b.clone() };
    let params = b2.opts.remove("params").unwrap_or_default();
    let ret = b2.opts.remove("returns").map(|t| format!(" -> {t}")).unwrap_or_default();
    let text = format!("fn {}({params}){ret} {}", name.trim(), if matches!(&*c.body, syn::Expr::Block(_)) { body.to_string() } else { format!("{{ {body} }}") });
    let ast2 = syn::parse_file(&text).map_err(|e| Fail(format!("PARSE {}: {e}", b.what)))?;
    Ok((b2, text, ast2))
}
