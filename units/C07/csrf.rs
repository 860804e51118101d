//@-- C07: CSRF prevention
//@ include ../lib/prelude.rs
verus! {
//@ dropmacro warn debug trace info error
pub type T = Seq<char>;
// ---- trusted: the request's headers -----------------------------------------------------------------------
#[verifier::external_body] pub struct HeaderName { m: u8 }
impl View for HeaderName { type V = T; uninterp spec fn view(&self) -> T; }
pub struct NotText { pub m: u8 }
#[verifier::external_body] pub struct HeaderValue { m: u8 }
pub uninterp spec fn value_text(v: HeaderValue) -> Option<T>;
impl HeaderValue {
    #[verifier::external_body] pub fn to_str(&self) -> (r: Result<&str, NotText>) ensures r is Ok == value_text(*self) is Some, r matches Ok(s) ==> s@ == value_text(*self)->0 { unimplemented!() }
}
#[verifier::external_body] pub struct HeaderMap { m: u8 }
impl HeaderMap {
    pub uninterp spec fn first(&self, n: T) -> Option<HeaderValue>;
    #[verifier::external_body] pub fn contains_key(&self, n: &HeaderName) -> (r: bool) ensures r == self.first(n@) is Some { unimplemented!() }
    #[verifier::external_body] pub fn content_type(&self) -> (r: Option<&HeaderValue>) ensures r is Some == self.first("content-type"@) is Some, r matches Some(v) ==> *v == self.first("content-type"@)->0 { unimplemented!() }
}
#[verifier::external_body] pub struct HttpRequest { m: u8 }
impl HttpRequest {
    pub uninterp spec fn hs(&self) -> HeaderMap;
    #[verifier::external_body] pub fn headers(&self) -> (r: &HeaderMap) ensures *r == self.hs() { unimplemented!() }
}
// ---- trusted: text
pub uninterp spec fn lower(s: T) -> T;
#[verifier::external_body] pub fn to_lower(s: &str) -> (r: String) ensures r@ == lower(s@) { unimplemented!() }
#[verifier::external_body] pub fn begins(s: &String, p: &str) -> (r: bool) ensures r == (p@.len() <= s@.len() && p@ == s@.take(p@.len() as int)) { unimplemented!() }
pub open spec fn starts(s: T, p: T) -> bool { p.len() <= s.len() && p == s.take(p.len() as int) }
// ---- verified shims
pub fn readable(m: Option<&HeaderValue>) -> (r: Option<&str>) ensures r is Some == (m is Some && value_text(*m->0) is Some), r matches Some(s) ==> s@ == value_text(*m->0)->0 { match m { Some(v) => match v.to_str() { Ok(s) => Some(s), Err(_) => None }, None => None } }
pub struct HttpHeaderName { pub name: HeaderName }
impl HttpHeaderName { pub fn get_header_ref(&self) -> (r: &HeaderName) ensures *r == self.name { &self.name } }
pub open spec fn some_present(v: Seq<HttpHeaderName>, h: HeaderMap) -> bool { exists|i: int| 0 <= i < v.len() && h.first((#[trigger] v[i]).name@) is Some }
pub fn any_present(v: &Vec<HttpHeaderName>, req: &HttpRequest) -> (r: bool) ensures r == some_present(v@, req.hs()) {
    let mut k: usize = 0;
    while k < v.len() invariant k <= v@.len(), forall|i: int| 0 <= i < k ==> req.hs().first((#[trigger] v@[i]).name@) is None decreases v@.len() - k {
        if req.headers().contains_key(v[k].get_header_ref()) { return true; }
        k += 1;
    }
    false
}
pub enum ClientPipelineError { CsrfPreventionFailed }
pub enum PipelineError { Client(ClientPipelineError) }
//@ file bin/router/src/config/csrf.rs
//@ extract struct CSRFPreventionConfig
//@ end
//@ file bin/router/src/pipeline/csrf_prevention.rs
// what browsers send without a preflight request
pub open spec fn simple(t: T) -> bool { starts(lower(t), "application/x-www-form-urlencoded"@) || starts(lower(t), "multipart/form-data"@) || starts(lower(t), "text/plain"@) }
//@ rewrite expr content_type.to_ascii_lowercase() => to_lower(content_type)
//@ rewrite expr NON_PREFLIGHTED_CONTENT_TYPES.iter().any(|&simple_type| lowercased_content_type.starts_with(simple_type)) => any_prefix(&lowercased_content_type, &NON_PREFLIGHTED_CONTENT_TYPES)
//@ rewrite type [&str;3] => [&'static str; 3]
//@ extract const NON_PREFLIGHTED_CONTENT_TYPES
//@ end
pub fn any_prefix(s: &String, ps: &[&str; 3]) -> (r: bool) ensures r == exists|i: int| 0 <= i < 3 && starts(s@, (#[trigger] ps@[i])@) {
    let mut k: usize = 0;
    while k < 3 invariant k <= 3, forall|i: int| 0 <= i < k ==> !starts(s@, (#[trigger] ps@[i])@) decreases 3 - k {
        if begins(s, ps[k]) { return true; }
        k += 1;
    }
    false
}
//@ extract fn is_simple_content_type
//@ opt ret r
//@ sec spec
    ensures r == simple(content_type@)
//@ end
//@ rewrite expr req.headers().get(http::header::CONTENT_TYPE).and_then(|value| value.to_str().ok()).is_some_and(|content_type| !is_simple_content_type(content_type)) => not_simple(readable(req.headers().content_type()))
pub open spec fn preflighted(q: HttpRequest) -> bool { q.hs().first("content-type"@) matches Some(v) && value_text(v) matches Some(t) && !simple(t) }
pub fn not_simple(t: Option<&str>) -> (r: bool) ensures r == (t is Some && !simple(t->0@)) { match t { Some(t) => !is_simple_content_type(t), None => false } }
//@ extract fn request_requires_preflight
//@ opt ret r
//@ sec spec
    ensures r == preflighted(*req)
//@ end
//@ rewrite expr csrf_config.required_headers.iter().any(|header_name| req.headers().contains_key(header_name.get_header_ref())) => any_present(&csrf_config.required_headers, req)
//@ rewrite expr ClientPipelineError::CsrfPreventionFailed.into() => PipelineError::Client(ClientPipelineError::CsrfPreventionFailed)
//@ extract fn perform_csrf_prevention
//@ opt ret r
//@ sec spec
    ensures r is Ok == (!csrf_config.enabled || csrf_config.required_headers@.len() == 0 || preflighted(*req) || some_present(csrf_config.required_headers@, req.hs())),
        r is Err ==> r->Err_0 == PipelineError::Client(ClientPipelineError::CsrfPreventionFailed),
//@ end
} // verus!
fn main() {}
