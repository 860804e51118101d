//@-- C16: a parse error outlives the text that was parsed, and says the same afterwards
//@ include ../lib/prelude.rs
verus! {
//@ dropmacro warn debug trace info error
pub type T = Seq<char>;
#[derive(Clone, Copy)] pub struct Pos { pub line: usize, pub column: usize }
#[derive(Clone, Copy)] pub struct Kind { pub k: u8 }
pub struct Token<'a> { pub kind: Kind, pub value: &'a str }
pub uninterp spec fn token_text(t: Token) -> T; // Display of a token, between backticks
#[verifier::external_body] pub fn token_shown(t: &Token) -> (r: String) ensures r@ == token_text(*t) { unimplemented!() }
#[verifier::external_body] pub struct Boxed { m: u8 }
pub enum Info<A, B> { Token(A), Range(B), Owned(String), Static(&'static str) }
pub enum Error<A, B> { Unexpected(Info<A, B>), Expected(Info<A, B>), Message(Info<A, B>), Other(Boxed) }
pub struct Errors<A, B, P> { pub position: P, pub errors: Vec<Error<A, B>> }
pub type InternalError<'a> = Errors<Token<'a>, Token<'a>, Pos>;
pub struct ParseError(pub InternalError<'static>);
// what `combine::easy` prints
pub open spec fn text(i: Info<Token, Token>) -> T { match i { Info::Token(t) => token_text(t), Info::Range(t) => token_text(t), Info::Owned(s) => s@, Info::Static(s) => s@ } }
pub open spec fn same(a: Error<Token, Token>, b: Error<Token, Token>) -> bool {
    match (a, b) {
        (Error::Unexpected(x), Error::Unexpected(y)) => text(x) == text(y),
        (Error::Expected(x), Error::Expected(y)) => text(x) == text(y),
        (Error::Message(x), Error::Message(y)) => text(x) == text(y),
        (Error::Other(x), Error::Other(y)) => x == y,
        _ => false,
    }
}
//@ file lib/graphql-tools/src/parser/query/error.rs
//@ rewrite expr format!("`{}`", token) ==>> token_shown(&token)
//@ extract fn into_owned
//@ opt ret r
//@ sec spec
    ensures text(r) == text(info)
//@ end
//@ extract closure 0 of method From for ParseError::from as one
//@ opt params error: Error<Token<'_>, Token<'_>>
//@ opt returns Error<Token<'static>, Token<'static>>
//@ opt ret r
//@ sec spec
    ensures same(error, r)
//@ end
// verified shim: `v.into_iter().map(|e| one(e)).collect()`
pub fn each<'a>(v: Vec<Error<Token<'a>, Token<'a>>>) -> (r: Vec<Error<Token<'static>, Token<'static>>>)
    ensures r@.len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> same(v@[i], #[trigger] r@[i])
{
    let mut out: Vec<Error<Token<'static>, Token<'static>>> = Vec::new();
    let ghost v0 = v@;
    let mut v = v;
    reverse(&mut v);
    while v.len() > 0
        invariant out@.len() + v@.len() == v0.len(), forall|i: int| 0 <= i < v@.len() ==> v@[i] == v0[v0.len() - 1 - i],
            forall|i: int| 0 <= i < out@.len() ==> same(v0[i], #[trigger] out@[i])
        decreases v@.len()
    {
        if let Some(e) = v.pop() { out.push(one(e)); }
    }
    out
}
#[verifier::external_body] pub fn reverse<A>(v: &mut Vec<A>) ensures final(v)@.len() == old(v)@.len(), forall|i: int| 0 <= i < old(v)@.len() ==> #[trigger] final(v)@[i] == old(v)@[old(v)@.len() - 1 - i] { v.reverse() }
//@ rewrite expr __v.into_iter().map(__f).collect() => each(__v)
//@ extract method From for ParseError::from
//@ opt ret r
//@ sec spec
    ensures r.0.position == e.position, r.0.errors@.len() == e.errors@.len(), forall|i: int| 0 <= i < e.errors@.len() ==> same(e.errors@[i], #[trigger] r.0.errors@[i])
//@ end
}
fn main() {}
