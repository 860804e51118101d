// ---- trusted: text primitives of std, by the characters of a text and the byte offsets of its characters ------
pub type T = Seq<char>;
pub uninterp spec fn utf8(b: Seq<u8>) -> Option<T>;
pub uninterp spec fn encoded(t: T) -> Seq<u8>;
pub uninterp spec fn lines_of(t: T) -> Seq<T>;                   // str::lines
pub uninterp spec fn trimmed(t: T) -> T;
pub uninterp spec fn with_newlines(v: Seq<T>) -> T;              // join("\n")
pub open spec fn width(c: char) -> nat { let n = c as u32; if n < 0x80 { 1 } else if n < 0x800 { 2 } else if n < 0x10000 { 3 } else { 4 } }
pub open spec fn off(s: T, i: int) -> nat decreases i { if i <= 0 { 0 } else { off(s, i - 1) + width(s[i - 1]) } }
pub proof fn lemma_off(s: T, i: int, j: int) requires 0 <= i < j ensures off(s, i) < off(s, j) decreases j { if i < j - 1 { lemma_off(s, i, j - 1); } }
pub open spec fn first(s: T, c: char, i: int) -> bool { 0 <= i < s.len() && s[i] == c && forall|j: int| 0 <= j < i ==> s[j] != c }
#[verifier::external_body] pub struct Utf8Error { m: u8 }
impl Utf8Error { #[verifier::external_body] pub fn to_string(&self) -> String { unimplemented!() } }
#[verifier::external_body] pub fn text_of(b: &[u8]) -> (r: Result<&str, Utf8Error>) ensures r is Ok == utf8(b@) is Some, r matches Ok(s) ==> s@ == utf8(b@)->0 { unimplemented!() }
#[verifier::external_body] pub fn split_lines<'a>(s: &'a str) -> (r: Vec<&'a str>) ensures r@.len() == lines_of(s@).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == lines_of(s@)[i] { unimplemented!() }
#[verifier::external_body] pub fn trim(s: &str) -> (r: &str) ensures r@ == trimmed(s@), exists|i: int, j: int| 0 <= i <= j <= s@.len() && r@ == #[trigger] s@.subrange(i, j) { unimplemented!() }
#[verifier::external_body] pub fn find_char(s: &str, c: char) -> (r: Option<usize>)
    ensures r is Some == s@.contains(c), r matches Some(k) ==> exists|i: int| #[trigger] first(s@, c, i) && k == off(s@, i) && k < usize::MAX { unimplemented!() }
#[verifier::external_body] pub fn str_to(s: &str, k: usize) -> (r: &str) requires exists|i: int| 0 <= i <= s@.len() && k == #[trigger] off(s@, i) ensures forall|i: int| 0 <= i <= s@.len() && k == #[trigger] off(s@, i) ==> r@ == s@.take(i) { unimplemented!() }
#[verifier::external_body] pub fn str_from(s: &str, k: usize) -> (r: &str) requires exists|i: int| 0 <= i <= s@.len() && k == #[trigger] off(s@, i) ensures forall|i: int| 0 <= i <= s@.len() && k == #[trigger] off(s@, i) ==> r@ == s@.skip(i) { unimplemented!() }
#[verifier::external_body] pub fn starts_char(s: &str, c: char) -> (r: bool) ensures r == (s@.len() > 0 && s@[0] == c) { unimplemented!() }
#[verifier::external_body] pub fn no_text(s: &str) -> (r: bool) ensures r == (s@.len() == 0) { unimplemented!() }
#[verifier::external_body] pub fn owned(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body] pub fn join_lines(v: &Vec<String>) -> (r: String) ensures r@ == with_newlines(texts(v@)) { unimplemented!() }
#[verifier::external_body] pub fn text_bytes(s: &String) -> (r: Bytes) ensures r@ == encoded(s@) { unimplemented!() }
pub open spec fn texts(v: Seq<String>) -> Seq<T> { Seq::new(v.len(), |i: int| v[i]@) }
pub open spec fn opt_text(o: Option<String>) -> Option<T> { match o { Some(s) => Some(s@), None => None } }
pub fn opt_is(o: &Option<String>, t: &str) -> (r: bool) ensures r == (opt_text(*o) == Some(t@)) { match o { Some(s) => str_eq(s.as_str(), t), None => false } }
pub open spec fn here(s: T, p: T, i: int) -> bool { 0 <= i && i + p.len() <= s.len() && s.subrange(i, i + p.len()) == p }
pub open spec fn found(s: T, p: T, i: int) -> bool { here(s, p, i) && forall|j: int| 0 <= j < i ==> !#[trigger] here(s, p, j) }
pub open spec fn holds(s: T, p: T) -> bool { exists|i: int| #[trigger] here(s, p, i) }
#[verifier::external_body] pub fn find_str(s: &str, p: &str) -> (r: Option<usize>)
    ensures r is Some == holds(s@, p@), r matches Some(k) ==> (exists|i: int| #[trigger] found(s@, p@, i) && k == off(s@, i)) && k + off(p@, p@.len() as int) <= usize::MAX { unimplemented!() }
#[verifier::external_body] pub fn byte_len(s: &str) -> (r: usize) ensures r == off(s@, s@.len() as int) { unimplemented!() }
#[verifier::external_body] pub fn str_range(s: &str, a: usize, b: usize) -> (r: &str)
    requires exists|i: int, j: int| 0 <= i <= j <= s@.len() && a == #[trigger] off(s@, i) && b == #[trigger] off(s@, j)
    ensures forall|i: int, j: int| 0 <= i <= j <= s@.len() && a == #[trigger] off(s@, i) && b == #[trigger] off(s@, j) ==> r@ == s@.subrange(i, j) { unimplemented!() }
pub proof fn lemma_off_all(s: T) ensures off(s, 0) == 0, forall|i: int, j: int| 0 <= i && 0 <= j && #[trigger] off(s, i) == #[trigger] off(s, j) ==> i == j
{ assert forall|i: int, j: int| 0 <= i && 0 <= j && #[trigger] off(s, i) == #[trigger] off(s, j) implies i == j by { if i < j { lemma_off(s, i, j); } else if j < i { lemma_off(s, j, i); } } }
pub open spec fn ascii(s: T) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i] as u32) < 0x80 }
pub proof fn lemma_ascii(s: T, i: int, n: int) requires 0 <= i, 0 <= n, i + n <= s.len(), forall|j: int| i <= j < i + n ==> (#[trigger] s[j] as u32) < 0x80 ensures off(s, i + n) == off(s, i) + n decreases n
{ if n > 0 { lemma_ascii(s, i, n - 1); } }
// ---- trusted: what a response is --------------------------------------------------------------------------
#[verifier::external_body] pub struct Bytes { m: u8 }
impl View for Bytes { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
#[verifier::external_body] pub struct CustomScalarPaths { m: u8 }
#[verifier::external_body] pub struct SubgraphExecutorError { m: u8 }
#[verifier::external_body] pub struct SubgraphResponse { m: u8 }
pub uninterp spec fn response_of(b: Seq<u8>, p: Option<CustomScalarPaths>) -> Option<SubgraphResponse>;
#[verifier::external_body] pub fn response(b: Bytes, p: &Option<CustomScalarPaths>) -> (r: Result<SubgraphResponse, SubgraphExecutorError>)
    ensures r is Ok == response_of(b@, *p) is Some, r matches Ok(x) ==> Some(x) == response_of(b@, *p) { unimplemented!() }
