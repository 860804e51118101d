verus! {
// ---- trusted: what std's Hash feeds to a hasher, as tokens --------------------------------------------
// a number (of any width), or a text with its end mark
pub enum Tok { Word(int), Text(Seq<char>), Bytes(Seq<u8>) }
pub type Toks = Seq<Tok>;
pub uninterp spec fn digest(t: Toks) -> u64;
pub uninterp spec fn f64_bits(f: f64) -> u64;
pub trait Hasher { spec fn toks(&self) -> Toks; }
#[verifier::external_body] pub struct Xxh3 { m: u8 }
impl Hasher for Xxh3 { uninterp spec fn toks(&self) -> Toks; }
impl Xxh3 {
    #[verifier::external_body] pub fn new() -> (r: Xxh3) ensures r.toks() == Seq::<Tok>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn finish(&self) -> (r: u64) ensures r == digest(self.toks()) { unimplemented!() }
}
pub trait Feed {
    spec fn toks(&self) -> Toks;
    fn feed<H: Hasher>(&self, state: &mut H) ensures final(state).toks() == old(state).toks() + self.toks();
}
pub open spec fn word(n: int) -> Toks { seq![Tok::Word(n)] }
pub open spec fn text(s: Seq<char>) -> Toks { seq![Tok::Text(s)] }
impl Feed for str { open spec fn toks(&self) -> Toks { text(self@) } #[verifier::external_body] fn feed<H: Hasher>(&self, state: &mut H) { unimplemented!() } }
impl Feed for String { open spec fn toks(&self) -> Toks { text(self@) } #[verifier::external_body] fn feed<H: Hasher>(&self, state: &mut H) { unimplemented!() } }
impl Feed for bool { open spec fn toks(&self) -> Toks { word(if *self { 1 } else { 0 }) } #[verifier::external_body] fn feed<H: Hasher>(&self, state: &mut H) { unimplemented!() } }
impl Feed for u8 { open spec fn toks(&self) -> Toks { word(*self as int) } #[verifier::external_body] fn feed<H: Hasher>(&self, state: &mut H) { unimplemented!() } }
impl Feed for i64 { open spec fn toks(&self) -> Toks { word(*self as int) } #[verifier::external_body] fn feed<H: Hasher>(&self, state: &mut H) { unimplemented!() } }
impl Feed for u64 { open spec fn toks(&self) -> Toks { word(*self as int) } #[verifier::external_body] fn feed<H: Hasher>(&self, state: &mut H) { unimplemented!() } }
impl Feed for usize { open spec fn toks(&self) -> Toks { word(*self as int) } #[verifier::external_body] fn feed<H: Hasher>(&self, state: &mut H) { unimplemented!() } }
impl<T: Feed> Feed for Option<T> {
    open spec fn toks(&self) -> Toks { match self { None => word(0), Some(x) => word(1) + x.toks() } }
    #[verifier::external_body] fn feed<H: Hasher>(&self, state: &mut H) { unimplemented!() }
}
// what is read off one stream is read off an equal one
pub proof fn cut_word(n: int, m: int, a: Toks, b: Toks) requires word(n) + a == word(m) + b ensures n == m, a == b {
    assert((word(n) + a)[0] == Tok::Word(n)); assert((word(m) + b)[0] == Tok::Word(m));
    assert(a =~= (word(n) + a).skip(1)); assert(b =~= (word(m) + b).skip(1));
}
pub proof fn cut_text(n: Seq<char>, m: Seq<char>, a: Toks, b: Toks) requires text(n) + a == text(m) + b ensures n == m, a == b {
    assert((text(n) + a)[0] == Tok::Text(n)); assert((text(m) + b)[0] == Tok::Text(m));
    assert(a =~= (text(n) + a).skip(1)); assert(b =~= (text(m) + b).skip(1));
}
pub broadcast proof fn add3(a: Toks, b: Toks, c: Toks) ensures #[trigger] ((a + b) + c) == a + (b + c) { assert((a + b) + c =~= a + (b + c)); }
// fed one after the other, they are one stream
pub proof fn chain3(h: Toks, x1: Toks, x2: Toks, x3: Toks) ensures (((h + x1) + x2) + x3) == h + (x1 + (x2 + x3)) { add3(h + x1, x2, x3); add3(h, x1, (x2 + x3)); }
pub proof fn chain4(h: Toks, x1: Toks, x2: Toks, x3: Toks, x4: Toks) ensures ((((h + x1) + x2) + x3) + x4) == h + (x1 + (x2 + (x3 + x4))) { chain3(h + x1, x2, x3, x4); add3(h, x1, (x2 + (x3 + x4))); }
pub proof fn chain5(h: Toks, x1: Toks, x2: Toks, x3: Toks, x4: Toks, x5: Toks) ensures (((((h + x1) + x2) + x3) + x4) + x5) == h + (x1 + (x2 + (x3 + (x4 + x5)))) { chain4(h + x1, x2, x3, x4, x5); add3(h, x1, (x2 + (x3 + (x4 + x5)))); }
pub proof fn chain6(h: Toks, x1: Toks, x2: Toks, x3: Toks, x4: Toks, x5: Toks, x6: Toks) ensures ((((((h + x1) + x2) + x3) + x4) + x5) + x6) == h + (x1 + (x2 + (x3 + (x4 + (x5 + x6))))) { chain5(h + x1, x2, x3, x4, x5, x6); add3(h, x1, (x2 + (x3 + (x4 + (x5 + x6))))); }
pub proof fn chain7(h: Toks, x1: Toks, x2: Toks, x3: Toks, x4: Toks, x5: Toks, x6: Toks, x7: Toks) ensures (((((((h + x1) + x2) + x3) + x4) + x5) + x6) + x7) == h + (x1 + (x2 + (x3 + (x4 + (x5 + (x6 + x7)))))) { chain6(h + x1, x2, x3, x4, x5, x6, x7); add3(h, x1, (x2 + (x3 + (x4 + (x5 + (x6 + x7)))))); }
pub proof fn chain8(h: Toks, x1: Toks, x2: Toks, x3: Toks, x4: Toks, x5: Toks, x6: Toks, x7: Toks, x8: Toks) ensures ((((((((h + x1) + x2) + x3) + x4) + x5) + x6) + x7) + x8) == h + (x1 + (x2 + (x3 + (x4 + (x5 + (x6 + (x7 + x8))))))) { chain7(h + x1, x2, x3, x4, x5, x6, x7, x8); add3(h, x1, (x2 + (x3 + (x4 + (x5 + (x6 + (x7 + x8))))))); }
pub proof fn chain9(h: Toks, x1: Toks, x2: Toks, x3: Toks, x4: Toks, x5: Toks, x6: Toks, x7: Toks, x8: Toks, x9: Toks) ensures (((((((((h + x1) + x2) + x3) + x4) + x5) + x6) + x7) + x8) + x9) == h + (x1 + (x2 + (x3 + (x4 + (x5 + (x6 + (x7 + (x8 + x9)))))))) { chain8(h + x1, x2, x3, x4, x5, x6, x7, x8, x9); add3(h, x1, (x2 + (x3 + (x4 + (x5 + (x6 + (x7 + (x8 + x9)))))))); }
} // verus!
