//@-- C09: the parts of a subgraph's multipart/mixed stream
//@ include ../lib/prelude.rs
verus! {
//@ dropmacro warn debug trace info error
//@ include ../lib/stream.rs
//@ include ../lib/text.rs
#[verifier::external_body] pub fn bytes_of(s: &str) -> (r: &[u8]) ensures r@ == encoded(s@) { unimplemented!() }
pub open spec fn at(b: Seq<u8>, i: int, d: Seq<u8>) -> bool { 0 <= i && i + d.len() <= b.len() && b.subrange(i, i + d.len()) == d }
#[verifier::external_body] pub fn starts_at(b: &[u8], i: usize, d: &[u8]) -> (r: bool) requires i <= b@.len() ensures r == at(b@, i as int, d@) { unimplemented!() }
pub open spec fn newline(b: Seq<u8>, i: int) -> Option<int> decreases b.len() - i { if i >= b.len() { None } else if b[i] == 10 { Some(i) } else { newline(b, i + 1) } }
pub fn newline_from(b: &[u8], i: usize) -> (r: Option<usize>) requires i <= b@.len() ensures match r { Some(k) => newline(b@, i as int) == Some(i + k), None => newline(b@, i as int) is None }, r matches Some(k) ==> i + k < b@.len() && b@[i + k] == 10 {
    let mut k = i;
    while k < b.len() invariant i <= k <= b@.len(), newline(b@, i as int) == newline(b@, k as int) decreases b@.len() - k { if b[k] == 10 { return Some(k - i); } k += 1; }
    None
}
//@ file bin/router/src/executor/executors/multipart_subscribe.rs
//@ extract const MAX_BUFFER_SIZE
//@ end
//@ extract enum ParseError
//@ end
// ---- where the next delimiter line is: at the start of a line -----------------------------------------------------
pub open spec fn delim(b: Seq<u8>, i: int, d: Seq<u8>) -> bool { at(b, i, d) && (i == 0 || b[i - 1] == 10) }
pub open spec fn first_delim(b: Seq<u8>, i: int, d: Seq<u8>) -> Option<int> decreases b.len() - i { if i >= b.len() { None } else if delim(b, i, d) { Some(i) } else { first_delim(b, i + 1, d) } }
pub struct Cut { pub part: int, pub line: int, pub last: bool }
// the part before it, the length of the line itself (0: still on its way), whether it is the closing one
pub open spec fn cut(b: Seq<u8>, d: Seq<u8>, e: Seq<u8>, started: bool) -> Option<Cut> {
    match first_delim(b, 0, d) {
        None => None,
        Some(p) => match newline(b, p) {
            Some(n) => Some(Cut { part: p, line: n + 1 - p, last: at(b, p, e) }),
            None => if at(b, p, e) { Some(Cut { part: p, line: e.len() as int, last: true }) } else if started && p > 0 { Some(Cut { part: p, line: 0, last: false }) } else { None }
        }
    }
}
pub proof fn lemma_first_delim(b: Seq<u8>, i: int, k: int, d: Seq<u8>) requires 0 <= i <= k <= b.len(), forall|j: int| i <= j < k ==> !delim(b, j, d) ensures first_delim(b, i, d) == first_delim(b, k, d) decreases k - i { if i < k { lemma_first_delim(b, i + 1, k, d); } }
pub fn find_index<F: Fn(&usize) -> bool>(n: usize, Ghost(s): Ghost<Seq<u8>>, Ghost(d): Ghost<Seq<u8>>, f: F) -> (r: Option<usize>)
    requires forall|i: usize| i < n ==> #[trigger] f.requires((&i,)), forall|i: usize, b: bool| i < n && #[trigger] f.ensures((&i,), b) ==> b == delim(s, i as int, d)
    ensures r matches Some(k) ==> k < n && delim(s, k as int, d) && forall|j: int| 0 <= j < k ==> !#[trigger] delim(s, j, d), r is None ==> forall|j: int| 0 <= j < n ==> !#[trigger] delim(s, j, d)
{
    let mut k: usize = 0;
    while k < n invariant k <= n, forall|i: usize| i < n ==> #[trigger] f.requires((&i,)), forall|i: usize, b: bool| i < n && #[trigger] f.ensures((&i,), b) ==> b == delim(s, i as int, d), forall|j: int| 0 <= j < k ==> !#[trigger] delim(s, j, d) decreases n - k { if f(&k) { return Some(k); } k += 1; }
    None
}
//@ rewrite expr delimiter.as_bytes() => bytes_of(delimiter)
//@ rewrite expr end_marker.as_bytes() => bytes_of(end_marker)
//@ rewrite expr (0..__n).find(|&pos| __b) ==>> find_index(__n, Ghost(buffer@), Ghost(delimiter_b@), |p0: &usize| -> (r: bool) requires *p0 < buffer@.len() ensures r == delim(buffer@, *p0 as int, delimiter_b@) { let pos = *p0; __b })
//@ rewrite expr buffer[__i..].starts_with(__d) => starts_at(buffer, __i, __d)
//@ rewrite expr buffer[__i..].iter().position(|&b| b == b'\n') => newline_from(buffer, __i)
//@ extract fn find_next_part
//@ opt ret r
//@ sec spec
    requires encoded(delimiter@).len() > 0, encoded(end_marker@).len() > 0
    ensures r is Some ==> 0 < r.unwrap().0 + r.unwrap().1 <= buffer@.len() && cut(buffer@, encoded(delimiter@), encoded(end_marker@), started)->0.part >= 0, match cut(buffer@, encoded(delimiter@), encoded(end_marker@), started) {
        None => r is None,
        Some(c) => r is Some && r.unwrap().2 == c.last && if started { r.unwrap().0 == c.part && r.unwrap().1 == c.line } else { r.unwrap().0 == 0 && r.unwrap().1 == c.part + c.line } }
//@ sec start
    proof {
        let d = encoded(delimiter@); let b = buffer@;
        assert((forall|j: int| 0 <= j < b.len() ==> !delim(b, j, d)) ==> first_delim(b, 0, d) is None) by { if forall|j: int| 0 <= j < b.len() ==> !delim(b, j, d) { lemma_first_delim(b, 0, b.len() as int, d); } }
        assert forall|k: int| 0 <= k < b.len() && #[trigger] delim(b, k, d) && (forall|j: int| 0 <= j < k ==> !delim(b, j, d)) implies first_delim(b, 0, d) == Some(k) by { lemma_first_delim(b, 0, k, d); }
    }
//@ end
// ---- what a part says ------------------------------------------------------------------------------------------------
pub open spec fn body_of(t: T) -> T {
    if holds(t, "\r\n\r\n"@) { trimmed(t.skip((choose|i: int| found(t, "\r\n\r\n"@, i)) + 4)) }
    else if holds(t, "\n\n"@) { trimmed(t.skip((choose|i: int| found(t, "\n\n"@, i)) + 2)) }
    else { trimmed(t) }
}
pub proof fn lemma_found(t: T, p: T) ensures forall|i: int, j: int| found(t, p, i) && found(t, p, j) ==> i == j,
    (forall|k: int| 0 <= k < p.len() ==> (#[trigger] p[k] as u32) < 0x80) ==> forall|i: int| #[trigger] found(t, p, i) ==> off(t, i + p.len()) == off(t, i) + p.len()
{
    assert forall|i: int, j: int| found(t, p, i) && found(t, p, j) implies i == j by { if i < j { assert(here(t, p, i)); } else if j < i { assert(here(t, p, j)); } }
    if forall|k: int| 0 <= k < p.len() ==> (#[trigger] p[k] as u32) < 0x80 {
        assert forall|i: int| #[trigger] found(t, p, i) implies off(t, i + p.len()) == off(t, i) + p.len() by {
            let q = t.subrange(i, i + p.len());
            assert forall|j: int| i <= j < i + p.len() implies (#[trigger] t[j] as u32) < 0x80 by { assert(q[j - i] == p[j - i]); }
            lemma_ascii(t, i, p.len() as int);
        }
    }
}
//@ rewrite expr content.find(__p) => find_str(content, __p)
//@ rewrite expr content[__a..].trim() => trim(str_from(content, __a))
//@ rewrite expr content.trim() => trim(content)
//@ extract fn extract_body_after_headers
//@ opt ret r
//@ sec spec
    ensures r@ == body_of(content@)
//@ sec start
    proof {
        reveal_strlit("\r\n\r\n"); reveal_strlit("\n\n");
        lemma_ascii("\r\n\r\n"@, 0, 4); lemma_ascii("\n\n"@, 0, 2);
        lemma_found(content@, "\r\n\r\n"@); lemma_found(content@, "\n\n"@); lemma_off_all(content@);
        assert forall|i: int| #[trigger] found(content@, "\r\n\r\n"@, i) implies (choose|k: int| found(content@, "\r\n\r\n"@, k)) == i by {}
        assert forall|i: int| #[trigger] found(content@, "\n\n"@, i) implies (choose|k: int| found(content@, "\n\n"@, k)) == i by {}
    }
//@ end
// ---- trusted: looking a member up in a JSON text (sonic_rs) -------------------------------------------------------------
pub enum Member { Raw(T), Absent, Malformed }
pub uninterp spec fn member(json: T, name: T) -> Member;
#[verifier::external_body] pub struct LazyValue { m: u8 }
impl LazyValue { pub uninterp spec fn raw(&self) -> T; #[verifier::external_body] pub fn as_raw_str(&self) -> (r: &str) ensures r@ == self.raw() { unimplemented!() } }
#[verifier::external_body] pub struct JsonError { m: u8 }
impl JsonError { pub uninterp spec fn absent(&self) -> bool; #[verifier::external_body] pub fn is_not_found(&self) -> (r: bool) ensures r == self.absent() { unimplemented!() } }
#[verifier::external_body] pub fn get_member(json: &str, name: &str) -> (r: Result<LazyValue, JsonError>)
    ensures match r { Ok(v) => member(json@, name@) == Member::Raw(v.raw()), Err(e) => if e.absent() { member(json@, name@) is Absent } else { member(json@, name@) is Malformed } } { unimplemented!() }
#[verifier::external_body] pub fn bytes_from(s: &str) -> (r: Bytes) ensures r@ == encoded(s@) { unimplemented!() }
#[verifier::external_body] pub fn json_error(e: JsonError) -> (r: ParseError) { unimplemented!() }
pub uninterp spec fn errors_only(errors: T) -> T;               // {"errors":..}
#[verifier::external_body] pub fn formatted(f: &str, e: &str) -> (r: String) ensures f@ == r#"{{"errors":{}}}"#@ ==> r@ == errors_only(e@), f@ == "--{}"@ ==> r@ == "--"@ + e@, f@ == "--{}--"@ ==> r@ == "--"@ + e@ + "--"@ { unimplemented!() }
pub fn answer(b: Bytes, p: Option<&CustomScalarPaths>) -> (r: Result<Option<SubgraphResponse>, ParseError>)
    ensures said(r) == of_bytes(b@, p)
{ match response_at(b, p) { Ok(x) => Ok(Some(x)), Err(e) => Err(ParseError::InvalidSubgraphResponse(e)) } }
#[verifier::external_body] pub fn response_at(b: Bytes, p: Option<&CustomScalarPaths>) -> (r: Result<SubgraphResponse, SubgraphExecutorError>)
    ensures r is Ok == response_of(b@, paths(p)) is Some, r matches Ok(x) ==> Some(x) == response_of(b@, paths(p)) { unimplemented!() }
pub open spec fn paths(p: Option<&CustomScalarPaths>) -> Option<CustomScalarPaths> { match p { Some(x) => Some(*x), None => None } }
pub enum Said { Response(SubgraphResponse), Nothing, Bad }
pub open spec fn said(r: Result<Option<SubgraphResponse>, ParseError>) -> Said { match r { Ok(Some(x)) => Said::Response(x), Ok(None) => Said::Nothing, Err(_) => Said::Bad } }
pub open spec fn of_bytes(b: Seq<u8>, p: Option<&CustomScalarPaths>) -> Said { match response_of(b, paths(p)) { Some(x) => Said::Response(x), None => Said::Bad } }
// {} is a heartbeat; payload null means the errors beside it, or nothing; without payload the part itself is the response
pub open spec fn payload_says(body: T, p: Option<&CustomScalarPaths>) -> Said {
    if body == "{}"@ { Said::Nothing } else { match member(body, "payload"@) {
        Member::Raw(t) => if t == "null"@ { match member(body, "errors"@) { Member::Raw(e) => of_bytes(encoded(errors_only(e)), p), _ => Said::Nothing } } else { of_bytes(encoded(t), p) },
        Member::Absent => of_bytes(encoded(body), p),
        Member::Malformed => Said::Bad,
    } }
}
pub open spec fn part_says(raw: Seq<u8>, p: Option<&CustomScalarPaths>) -> Said {
    match utf8(raw) { None => Said::Bad, Some(t) => if body_of(t).len() == 0 { Said::Nothing } else { payload_says(body_of(t), p) } }
}
//@ rewrite type SubgraphResponse<'static> => SubgraphResponse
//@ rewrite expr body == "{}" => str_eq(body, "{}")
//@ rewrite expr raw == "null" => str_eq(raw, "null")
//@ rewrite expr sonic_rs::get_from_str(body, &[__n]) => get_member(body, __n)
//@ rewrite expr SubgraphResponse::deserialize_from_bytes(__b, custom_scalar_paths).map_err(ParseError::InvalidSubgraphResponse).map(Some) => answer(__b, custom_scalar_paths)
//@ rewrite expr Bytes::from(transport_err) => text_bytes(&transport_err)
//@ rewrite expr Bytes::copy_from_slice(raw.as_bytes()) => bytes_from(raw)
//@ rewrite expr Bytes::from(body.to_owned()) => bytes_from(body)
//@ rewrite expr Err(ParseError::InvalidSubgraphResponse(SubgraphExecutorError::ResponseDeserializationFailure(e, None))) => Err(json_error(e))
//@ rewrite macro format => formatted(__args)
//@ extract fn extract_payload
//@ opt ret r
//@ sec spec
    ensures said(r) == payload_says(body@, custom_scalar_paths)
//@ end
//@ rewrite expr std::str::from_utf8(raw)? => read_text(raw)?
//@ rewrite expr body.is_empty() => no_text(body)
pub fn read_text(b: &[u8]) -> (r: Result<&str, ParseError>) ensures r is Ok == utf8(b@) is Some, r matches Ok(s) ==> s@ == utf8(b@)->0 { match text_of(b) { Ok(s) => Ok(s), Err(e) => Err(ParseError::InvalidUtf8(e)) } }
//@ extract fn parse_part
//@ opt ret r
//@ sec spec
    ensures said(r) == part_says(raw@, custom_scalar_paths)
//@ end
// ---- the boundary that the content type names -------------------------------------------------------------------------
pub open spec fn low(c: char) -> char { if 'A' <= c && c <= 'Z' { ((c as u32 + 32) as u32) as char } else { c } }
pub open spec fn lowered(t: T) -> T { Seq::new(t.len(), |i: int| low(t[i])) }
pub uninterp spec fn blank(c: char) -> bool;                     // char::is_whitespace
pub open spec fn value_stop(t: T, i: int) -> int decreases t.len() - i { if i >= t.len() { i } else if t[i] == ';' || blank(t[i]) { i } else { value_stop(t, i + 1) } }
#[verifier::external_body] pub fn to_lower(s: &str) -> (r: String) ensures ascii(s@) ==> r@ == lowered(s@) { unimplemented!() }
#[verifier::external_body] pub fn value_end(s: &str) -> (r: usize) ensures r == off(s@, value_stop(s@, 0)), 0 <= value_stop(s@, 0) <= s@.len() { unimplemented!() }
#[verifier::external_body] pub fn strip_char(s: &str, c: char) -> (r: Option<&str>) ensures r is Some == (s@.len() > 0 && s@[0] == c), r matches Some(t) ==> t@ == s@.skip(1) { unimplemented!() }
pub fn ok_or<A, E>(o: Option<A>, e: E) -> (r: Result<A, E>) ensures r is Ok == o is Some, r matches Ok(x) ==> o == Some(x) { match o { Some(x) => Ok(x), None => Err(e) } }
pub open spec fn quote(t: T) -> int { choose|i: int| first(t, '"', i) }
pub open spec fn value_of(rest: T) -> Option<T> { if rest.len() > 0 && rest[0] == '"' { if rest.skip(1).contains('"') { Some(rest.subrange(1, quote(rest.skip(1)) + 1)) } else { None } } else { Some(rest.take(value_stop(rest, 0))) } }
pub open spec fn named(t: T) -> Option<T> {
    let t = trimmed(t); let key = "boundary="@;
    if !holds(lowered(t), key) { None } else { match value_of(t.skip((choose|i: int| found(lowered(t), key, i)) + 9)) { Some(v) => if v.len() == 0 { None } else { Some(v) }, None => None } }
}
pub proof fn lemma_off_skip(s: T, i: int) requires 0 <= i < s.len() ensures off(s, i + 1) == off(s.skip(1), i) + width(s[0]) decreases i { reveal_with_fuel(off, 3); if i > 0 { lemma_off_skip(s, i - 1); assert(s.skip(1)[i - 1] == s[i]); } }
pub proof fn lemma_quote(t: T) ensures forall|i: int| #[trigger] first(t, '"', i) ==> quote(t) == i { assert forall|i: int| #[trigger] first(t, '"', i) implies quote(t) == i by { let c = quote(t); assert(first(t, '"', c)); if c < i { assert(t[c] != '"'); } if i < c { assert(t[i] != '"'); } } }
pub proof fn lemma_quoted() ensures
    forall|s: T, i: int, j: int| 0 <= i && 0 <= j && #[trigger] off(s, i) == #[trigger] off(s, j) ==> i == j,
    forall|s: T, i: int| s.len() > 0 && s[0] == '"' && #[trigger] first(s.skip(1), '"', i) ==> off(s, i + 1) == off(s.skip(1), i) + 1 && off(s, 1) == 1 && quote(s.skip(1)) == i
{
    assert forall|s: T, i: int, j: int| 0 <= i && 0 <= j && #[trigger] off(s, i) == #[trigger] off(s, j) implies i == j by { lemma_off_all(s); }
    assert forall|s: T, i: int| s.len() > 0 && s[0] == '"' && #[trigger] first(s.skip(1), '"', i) implies off(s, i + 1) == off(s.skip(1), i) + 1 && off(s, 1) == 1 && quote(s.skip(1)) == i by {
        lemma_quote(s.skip(1)); lemma_off_skip(s, i); reveal_with_fuel(off, 3);
    }
}
//@ rewrite expr content_type.trim() => trim(content_type)
//@ rewrite expr content_type.to_lowercase() => to_lower(content_type)
//@ rewrite expr content_type_lower.find("boundary=") => find_str(content_type_lower.as_str(), "boundary=")
//@ rewrite expr __a.ok_or(__e) => ok_or(__a, __e)
//@ rewrite expr __a.ok_or_else(|| __e) => ok_or(__a, __e)
//@ rewrite expr "boundary=".len() => byte_len("boundary=")
//@ rewrite expr "Unclosed quoted boundary".to_string() => owned("Unclosed quoted boundary")
//@ rewrite expr "Empty boundary value".to_string() => owned("Empty boundary value")
//@ rewrite expr &content_type[__a..] => str_from(content_type, __a)
//@ rewrite expr remaining.strip_prefix('"') => strip_char(remaining, '"')
//@ rewrite expr inside.find('"') => find_char(inside, '"')
//@ rewrite expr remaining.find(|c: char| c == ';' || c.is_whitespace()).unwrap_or(remaining.len()) => value_end(remaining)
//@ rewrite expr &remaining[1..__b] => str_range(remaining, 1, __b)
//@ rewrite expr &remaining[..__b] => str_to(remaining, __b)
//@ rewrite expr boundary.is_empty() => no_text(boundary)
//@ extract fn parse_boundary_from_header
//@ opt ret r
//@ sec spec
    requires ascii(content_type@)
    ensures r is Ok == named(content_type@) is Some, r matches Ok(b) ==> Some(b@) == named(content_type@)
//@ sec after call trim 0
    proof {
        reveal_strlit("boundary=");
        let t = content_type@; let key = "boundary="@;
        assert(t == trimmed(given)); assert(ascii(t));
        lemma_ascii(key, 0, 9);
        lemma_found(lowered(t), key); lemma_off_all(t); lemma_off_all(lowered(t));
        assert forall|i: int| #[trigger] found(lowered(t), key, i) implies (choose|k: int| found(lowered(t), key, k)) == i && off(lowered(t), i) == i && off(t, i + 9) == i + 9 by { lemma_ascii(lowered(t), 0, i); lemma_ascii(t, 0, i + 9); }
    }
//@ sec start
    let ghost given = content_type@;
    proof { lemma_quoted(); }
//@ end
// ---- the stream: every part, in order, whatever the chunks ---------------------------------------------------------------
pub broadcast axiom fn axiom_encoded(a: T, b: T) ensures #[trigger] encoded(a + b) == encoded(a) + encoded(b);
pub axiom fn axiom_dashes() ensures encoded("--"@) == seq![45u8, 45u8];
pub enum Item { Response(SubgraphResponse), Failed }
pub open spec fn item(r: Result<SubgraphResponse, ParseError>) -> Item { match r { Ok(x) => Item::Response(x), Err(_) => Item::Failed } }
pub open spec fn items(v: Seq<Result<SubgraphResponse, ParseError>>) -> Seq<Item> { Seq::new(v.len(), |i: int| item(v[i])) }
pub open spec fn step(raw: Seq<u8>, p: Option<CustomScalarPaths>) -> (Seq<Item>, bool) {
    if raw.len() == 0 { (Seq::empty(), false) } else { match part_says(raw, at_paths(p)) { Said::Response(x) => (seq![Item::Response(x)], false), Said::Nothing => (Seq::empty(), false), Said::Bad => (seq![Item::Failed], true) } }
}
pub open spec fn at_paths(p: Option<CustomScalarPaths>) -> Option<&'static CustomScalarPaths> { match p { Some(x) => Some(&x), None => None } }
pub open spec fn run(b: Seq<u8>, fs: Seq<Frame>, started: bool, d: Seq<u8>, e: Seq<u8>, p: Option<CustomScalarPaths>) -> Seq<Item> decreases fs.len(), b.len() {
    match cut(b, d, e, started) {
        Some(c) => if !(0 <= c.part && 0 < c.part + c.line <= b.len()) { Seq::empty() } else {
            let (i, stop) = if started { step(b.take(c.part), p) } else { (Seq::empty(), false) };
            if stop || c.last { i } else { i + run(b.skip(c.part + c.line), fs, true, d, e, p) }
        }
        None => if fs.len() == 0 { Seq::empty() } else { match fs[0] {
            Frame::Broken => seq![Item::Failed],
            Frame::Trailers => run(b, fs.skip(1), started, d, e, p),
            Frame::Data(x) => if b.len() + x.len() > MAX_BUFFER_SIZE { seq![Item::Failed] } else { run(b + x, fs.skip(1), started, d, e, p) }
        } }
    }
}
pub open spec fn whole(fs: Seq<Frame>) -> Seq<u8> decreases fs.len() { if fs.len() == 0 { Seq::empty() } else { (match fs[0] { Frame::Data(d) => d, _ => Seq::empty() }) + whole(fs.skip(1)) } }
pub proof fn lemma_newline(b: Seq<u8>, i: int) requires 0 <= i ensures newline(b, i) matches Some(n) ==> i <= n < b.len() && b[n] == 10, newline(b, i) is None ==> forall|j: int| i <= j < b.len() ==> b[j] != 10 decreases b.len() - i { if i < b.len() { lemma_newline(b, i + 1); } }
pub proof fn lemma_newline_stays(a: Seq<u8>, w: Seq<u8>, i: int) requires 0 <= i, newline(a, i) is Some ensures newline(a + w, i) == newline(a, i) decreases a.len() - i { if i < a.len() && a[i] != 10 { lemma_newline_stays(a, w, i + 1); } }
pub proof fn lemma_newline_shift(a: Seq<u8>, k: int, i: int) requires 0 <= k <= a.len(), 0 <= i ensures newline(a.skip(k), i) == match newline(a, k + i) { Some(n) => Some(n - k), None => None } decreases a.len() - i { if k + i < a.len() { lemma_newline_shift(a, k, i + 1); } }
pub proof fn lemma_delim_within(b: Seq<u8>, i: int, d: Seq<u8>) requires 0 <= i ensures first_delim(b, i, d) matches Some(k) ==> i <= k < b.len() && delim(b, k, d) decreases b.len() - i { if i < b.len() { lemma_delim_within(b, i + 1, d); } }
pub proof fn lemma_at_stays(a: Seq<u8>, w: Seq<u8>, i: int, d: Seq<u8>) ensures at(a, i, d) ==> at(a + w, i, d), 0 <= i && i + d.len() <= a.len() ==> at(a, i, d) == at(a + w, i, d) { if 0 <= i && i + d.len() <= a.len() { assert((a + w).subrange(i, i + d.len()) =~= a.subrange(i, i + d.len())); } }
pub proof fn lemma_delim_stays(a: Seq<u8>, w: Seq<u8>, i: int, d: Seq<u8>) requires 0 <= i, first_delim(a, i, d) is Some ensures first_delim(a + w, i, d) == first_delim(a, i, d) decreases a.len() - i {
    if i < a.len() {
        lemma_at_stays(a, w, i, d);
        if !delim(a, i, d) { lemma_delim_within(a, i + 1, d); lemma_delim_stays(a, w, i + 1, d); }
    }
}
// a part whose delimiter line is incomplete may be taken before the line arrives
pub proof fn lemma_eager(b: Seq<u8>, k: int, d: Seq<u8>, e: Seq<u8>, p: Option<CustomScalarPaths>)
    requires first_delim(b, 0, d) == Some(k), k > 0, d.len() > 0, e.len() > d.len()
    ensures run(b, Seq::empty(), true, d, e, p) == (if step(b.take(k), p).1 { step(b.take(k), p).0 } else { step(b.take(k), p).0 + run(b.skip(k), Seq::empty(), true, d, e, p) })
{
    let r = b.skip(k);
    lemma_delim_within(b, 0, d); lemma_newline(b, k);
    lemma_newline_shift(b, k, 0);
    assert(r.subrange(0, d.len() as int) =~= b.subrange(k, k + d.len())); assert(delim(r, 0, d));
    assert(first_delim(r, 0, d) == Some(0int));
    if k + e.len() <= b.len() { assert(r.subrange(0, e.len() as int) =~= b.subrange(k, k + e.len())); }
    assert(at(r, 0, e) == at(b, k, e));
    assert(r.take(0) =~= Seq::<u8>::empty());
    let c = cut(b, d, e, true)->0;
    assert(cut(b, d, e, true) is Some && c.part == k);
    if c.line > 0 {
        assert(cut(r, d, e, true) == Some(Cut { part: 0, line: c.line, last: c.last }));
        assert(r.skip(c.line) =~= b.skip(k + c.line));
        assert(step(r.take(0), p) == (Seq::<Item>::empty(), false));
        assert(Seq::<Item>::empty() + run(r.skip(c.line), Seq::empty(), true, d, e, p) =~= run(r.skip(c.line), Seq::empty(), true, d, e, p));
        assert(step(b.take(k), p).0 + Seq::<Item>::empty() =~= step(b.take(k), p).0);
    } else { assert(!c.last); }
}
// THE PROPERTY: however the bytes are cut into chunks, the same items come out, in the same order
pub proof fn chunks_do_not_matter(b: Seq<u8>, fs: Seq<Frame>, st: bool, d: Seq<u8>, e: Seq<u8>, p: Option<CustomScalarPaths>)
    requires forall|i: int| 0 <= i < fs.len() ==> !((#[trigger] fs[i]) is Broken), b.len() + whole(fs).len() <= MAX_BUFFER_SIZE,
        d.len() > 0, e.len() > d.len(), !e.contains(10)
    ensures run(b, fs, st, d, e, p) == run(b + whole(fs), Seq::empty(), st, d, e, p)
    decreases fs.len(), b.len()
{
    let w = whole(fs); let bw = b + w;
    match cut(b, d, e, st) {
        Some(c) => {
            let k = c.part;
            lemma_delim_within(b, 0, d); lemma_delim_stays(b, w, 0, d);
            lemma_newline(b, k); lemma_newline(bw, k); lemma_at_stays(b, w, k, e); lemma_at_stays(b, w, k, d);
            assert(bw.take(k) =~= b.take(k));
            if newline(b, k) is Some {
                let n = newline(b, k)->0;
                lemma_newline_stays(b, w, k);
                if k + e.len() > b.len() && at(bw, k, e) { assert(e[n - k] == bw.subrange(k, k + e.len())[n - k]); assert(e.contains(10)); }
                assert(cut(bw, d, e, st) == Some(c));
                assert(bw.skip(k + c.line) =~= b.skip(k + c.line) + w);
                if !c.last { chunks_do_not_matter(b.skip(k + c.line), fs, true, d, e, p); }
            } else if at(b, k, e) {
                assert(cut(bw, d, e, st) is Some && cut(bw, d, e, st)->0.last && cut(bw, d, e, st)->0.part == k);
            } else {
                let r = b.skip(k);
                assert(bw.skip(k) =~= r + w);
                chunks_do_not_matter(r, fs, true, d, e, p);
                lemma_eager(bw, k, d, e, p);
            }
        }
        None => if fs.len() > 0 {
            let rest = fs.skip(1);
            assert forall|i: int| 0 <= i < rest.len() implies !((#[trigger] rest[i]) is Broken) by { assert(rest[i] == fs[i + 1]); }
            match fs[0] {
                Frame::Data(x) => { assert(bw =~= (b + x) + whole(rest)); chunks_do_not_matter(b + x, rest, st, d, e, p); }
                _ => { assert(w =~= whole(rest)); chunks_do_not_matter(b, rest, st, d, e, p); }
            }
        } else { assert(bw =~= b); }
    }
}
//@ rewrite expr stream_body(__x) => __x
//@ rewrite expr Box::pin(stream) => stream
//@ rewrite expr yields(__x) => out.emit(__x)
//@ rewrite expr body.frame().await => body.frame()
//@ rewrite expr find_next_part(&buffer, &delimiter, &end_marker, started) => find_next_part(&buffer, delimiter.as_str(), end_marker.as_str(), started)
//@ rewrite expr buffer.drain(..__n).collect() => drain_front(&mut buffer, __n)
//@ rewrite expr buffer.drain(..__n) => drain_front(&mut buffer, __n)
//@ rewrite expr buffer.extend_from_slice(__x) => append_slice(&mut buffer, __x)
//@ rewrite type B => Body
//@ extract fn parse_to_stream
//@ opt generics 
//@ opt returns ()
//@ opt params out: &mut Sink<Result<SubgraphResponse, ParseError>>
//@ opt attr #[verifier::exec_allows_no_decreases_clause] #[verifier::rlimit(40)]
//@ sec spec
    requires old(out)@.len() == 0
    ensures items(final(out)@) == run(Seq::empty(), body_stream.left(), false, encoded("--"@ + boundary@), encoded("--"@ + boundary@ + "--"@), custom_scalar_paths)
//@ sec start
    proof { axiom_dashes(); axiom_encoded("--"@, boundary@); axiom_encoded("--"@ + boundary@, "--"@); }
//@ sec loop 0
    invariant delimiter@ == "--"@ + boundary@, end_marker@ == "--"@ + boundary@ + "--"@, encoded(delimiter@).len() > 0, encoded(end_marker@).len() > 0,
        items(out@) + run(buffer@, body.left(), started, encoded(delimiter@), encoded(end_marker@), custom_scalar_paths) == run(Seq::empty(), body_stream.left(), false, encoded(delimiter@), encoded(end_marker@), custom_scalar_paths)
//@ sec loop 1
    invariant delimiter@ == "--"@ + boundary@, end_marker@ == "--"@ + boundary@ + "--"@, encoded(delimiter@).len() > 0, encoded(end_marker@).len() > 0,
        items(out@) + run(buffer@, body.left(), started, encoded(delimiter@), encoded(end_marker@), custom_scalar_paths) == run(Seq::empty(), body_stream.left(), false, encoded(delimiter@), encoded(end_marker@), custom_scalar_paths)
    ensures cut(buffer@, encoded(delimiter@), encoded(end_marker@), started) is None,
        items(out@) + run(buffer@, body.left(), started, encoded(delimiter@), encoded(end_marker@), custom_scalar_paths) == run(Seq::empty(), body_stream.left(), false, encoded(delimiter@), encoded(end_marker@), custom_scalar_paths)
    decreases buffer@.len()
//@ sec loopstart 1
    proof { 
        let b = buffer@;
        assert forall|i: int, j: int| 0 <= i && 0 <= j && i + j <= b.len() implies #[trigger] b.skip(i).skip(j) == b.skip(i + j) by { assert(b.skip(i).skip(j) =~= b.skip(i + j)); }
        assert forall|x: Seq<Item>| #[trigger] (Seq::<Item>::empty() + x) == x by { assert(Seq::<Item>::empty() + x =~= x); }
        assert forall|x: Seq<Item>, y: Seq<Item>, z: Seq<Item>| #[trigger] (x + (y + z)) == (x + y) + z by { assert(x + (y + z) =~= (x + y) + z); }
        assert forall|v: Seq<Result<SubgraphResponse, ParseError>>, r: Result<SubgraphResponse, ParseError>| #[trigger] items(v.push(r)) == items(v) + seq![item(r)] by { assert(items(v.push(r)) =~= items(v) + seq![item(r)]); }
    }
//@ end
}
fn main() {}
