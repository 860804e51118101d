// ---- trusted: the body of a response as the chunks that arrive, and the text primitives of std ----------
pub enum Frame { Data(Seq<u8>), Trailers, Broken }
#[verifier::external_body] pub struct Body { m: u8 }
#[verifier::external_body] pub struct Chunk { m: u8 }
#[verifier::external_body] pub struct HttpFrame { m: u8 }
#[verifier::external_body] pub struct BodyError { m: u8 }
impl BodyError { #[verifier::external_body] pub fn to_string(&self) -> String { unimplemented!() } }
impl Body {
    pub uninterp spec fn left(&self) -> Seq<Frame>;
    #[verifier::external_body] pub fn frame(&mut self) -> (r: Option<Result<HttpFrame, BodyError>>)
        ensures old(self).left().len() == 0 ==> r is None && final(self).left() == old(self).left(),
            old(self).left().len() > 0 ==> r is Some && final(self).left() == old(self).left().skip(1) && match r->0 {
                Ok(f) => f.is() == old(self).left()[0] && !(f.is() is Broken), Err(_) => old(self).left()[0] is Broken } { unimplemented!() }
}
impl HttpFrame {
    pub uninterp spec fn is(&self) -> Frame;
    #[verifier::external_body] pub fn into_data(self) -> (r: Result<Chunk, HttpFrame>)
        ensures r is Ok == self.is() is Data, r matches Ok(c) ==> self.is() == Frame::Data(c@) { unimplemented!() }
}
impl View for Chunk { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl Chunk { #[verifier::external_body] pub fn chunk(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() } }
#[verifier::external_body] pub fn drain_front(v: &mut Vec<u8>, n: usize) -> (r: Vec<u8>)
    requires n <= old(v)@.len() ensures r@ == old(v)@.take(n as int), final(v)@ == old(v)@.skip(n as int) { unimplemented!() }
#[verifier::external_body] pub fn append_slice(v: &mut Vec<u8>, s: &[u8]) ensures final(v)@ == old(v)@ + s@ { unimplemented!() }
// what the stream yields, in order
pub struct Sink<T> { pub items: Vec<T> }
impl<T> View for Sink<T> { type V = Seq<T>; open spec fn view(&self) -> Seq<T> { self.items@ } }
impl<T> Sink<T> { pub fn emit(&mut self, x: T) ensures final(self)@ == old(self)@.push(x) { self.items.push(x); } }
pub fn stream_body(x: ()) { }
#[verifier::external_body] pub fn any_branch() -> (r: u32) { unimplemented!() }
