//@-- C06: CORS headers of a response
//@ include ../lib/prelude.rs
verus! {
//@ dropmacro warn debug trace info error
// ---- trusted: names, values, header maps and requests, with their meaning -----------------------------
pub type B = Seq<u8>;
#[derive(Clone, Copy)]
pub struct HeaderName { pub id: u64 }
#[allow(non_snake_case)]
pub mod header {
    use super::*;
    pub const ACCESS_CONTROL_ALLOW_ORIGIN: HeaderName = HeaderName { id: 1 };
    pub const ACCESS_CONTROL_ALLOW_METHODS: HeaderName = HeaderName { id: 2 };
    pub const ACCESS_CONTROL_ALLOW_HEADERS: HeaderName = HeaderName { id: 3 };
    pub const ACCESS_CONTROL_ALLOW_CREDENTIALS: HeaderName = HeaderName { id: 4 };
    pub const ACCESS_CONTROL_EXPOSE_HEADERS: HeaderName = HeaderName { id: 5 };
    pub const ACCESS_CONTROL_MAX_AGE: HeaderName = HeaderName { id: 6 };
    pub const ACCESS_CONTROL_REQUEST_METHOD: HeaderName = HeaderName { id: 7 };
    pub const ACCESS_CONTROL_REQUEST_HEADERS: HeaderName = HeaderName { id: 8 };
    pub const ORIGIN: HeaderName = HeaderName { id: 9 };
    pub const VARY: HeaderName = HeaderName { id: 10 };
}
pub open spec fn is_acao(n: HeaderName) -> bool { n.id == 1 }
pub open spec fn is_vary(n: HeaderName) -> bool { n.id == 10 }
#[verifier::external_body] pub struct HeaderValue { m: u8 }
impl View for HeaderValue { type V = B; uninterp spec fn view(&self) -> B; }
pub uninterp spec fn text_bytes(s: Seq<char>) -> B;
pub uninterp spec fn is_header_text(s: Seq<char>) -> bool;   // the text can stand in a header line
pub uninterp spec fn value_text(b: B) -> Option<Seq<char>>;  // the line is readable as text
pub struct NotText { pub m: u8 }
impl Clone for HeaderValue { #[verifier::external_body] fn clone(&self) -> (r: HeaderValue) ensures r@ == self@ { unimplemented!() } }
impl HeaderValue {
    #[verifier::external_body] pub fn from_static(s: &str) -> (r: HeaderValue) ensures r@ == text_bytes(s@) { unimplemented!() }
    #[verifier::external_body] pub fn from_str(s: &str) -> (r: Result<HeaderValue, NotText>) ensures r is Ok == is_header_text(s@), r matches Ok(v) ==> v@ == text_bytes(s@) { unimplemented!() }
    #[verifier::external_body] pub fn to_str(&self) -> (r: Result<&str, NotText>) ensures r is Ok == value_text(self@) is Some, r matches Ok(s) ==> s@ == value_text(self@)->0 { unimplemented!() }
    #[verifier::external_body] pub fn is_null(&self) -> (r: bool) ensures r == (self@ == text_bytes("null"@)) { unimplemented!() }
}
// one line per name is what every one of the calls below reads or writes
#[verifier::external_body] pub struct HeaderMap { m: u8 }
impl HeaderMap {
    pub uninterp spec fn line(&self, n: HeaderName) -> Option<B>;
    #[verifier::external_body] pub fn get(&self, n: HeaderName) -> (r: Option<&HeaderValue>) ensures r is Some == self.line(n) is Some, r matches Some(v) ==> v@ == self.line(n)->0 { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, n: HeaderName, v: HeaderValue)
        ensures final(self).line(n) == Some(v@), forall|m: HeaderName| m != n ==> #[trigger] final(self).line(m) == old(self).line(m) { unimplemented!() }
    // the lines of a configured map, in order
    pub uninterp spec fn entries(&self) -> Seq<(HeaderName, HeaderValue)>;
    #[verifier::external_body] pub fn all(&self) -> (r: Vec<(HeaderName, HeaderValue)>) ensures r@ == self.entries() { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self.entries().len() == 0) { unimplemented!() }
    #[verifier::external_body] pub fn copied(&self) -> (r: HeaderMap) ensures r.entries() == self.entries() { unimplemented!() }
    // `extend` with the entries of the other map: its names replace
    #[verifier::external_body] pub fn replace_all(&mut self, o: &HeaderMap)
        ensures forall|n: HeaderName| #[trigger] last_of(final(self).entries(), n) == if last_of(o.entries(), n) is Some { last_of(o.entries(), n) } else { last_of(old(self).entries(), n) } { unimplemented!() }
}
pub open spec fn last_of(s: Seq<(HeaderName, HeaderValue)>, n: HeaderName) -> Option<B> decreases s.len() {
    if s.len() == 0 { None } else if s.last().0 == n { Some(s.last().1@) } else { last_of(s.drop_last(), n) }
}
#[verifier::external_body] pub struct HttpRequest { m: u8 }
impl HttpRequest {
    pub uninterp spec fn hs(&self) -> HeaderMap;
    pub uninterp spec fn options(&self) -> bool;
    #[verifier::external_body] pub fn headers(&self) -> (r: &HeaderMap) ensures *r == self.hs() { unimplemented!() }
    #[verifier::external_body] pub fn is_options(&self) -> (r: bool) ensures r == self.options() { unimplemented!() }
}
#[verifier::external_body] pub struct Regex { m: u8 }
pub uninterp spec fn matches(r: Regex, s: Seq<char>) -> bool;
impl Regex { #[verifier::external_body] pub fn is_match(&self, s: &str) -> (r: bool) ensures r == matches(*self, s@) { unimplemented!() } }
pub uninterp spec fn joined(v: Seq<String>) -> Seq<char>;                 // with ", "
pub uninterp spec fn seconds(n: u64) -> Seq<char>;
pub uninterp spec fn has_token(list: Seq<char>, t: Seq<char>) -> bool;    // of a comma-separated list, case-insensitively
pub uninterp spec fn with_token(list: Seq<char>, t: Seq<char>) -> Seq<char>; // "{list}, {t}"
#[verifier::external_body] pub fn join_list(v: &Vec<String>) -> (r: String) ensures r@ == joined(v@) { unimplemented!() }
#[verifier::external_body] pub fn seconds_text(n: u64) -> (r: String) ensures r@ == seconds(n) { unimplemented!() }
#[verifier::external_body] pub fn list_has(l: &str, t: &str) -> (r: bool) ensures r == has_token(l@, t@) { unimplemented!() }
#[verifier::external_body] pub fn list_with(f: &str, l: &str, t: &str) -> (r: String) ensures f@ == "{}, {}"@ ==> r@ == with_token(l@, t@) { unimplemented!() }
#[verifier::external_body] pub fn no_text(s: &str) -> (r: bool) ensures r == (s@.len() == 0) { unimplemented!() }
#[verifier::external_body] pub fn or_blank<'a>(r: Result<&'a str, NotText>) -> (s: &'a str) ensures r matches Ok(x) ==> s@ == x@, r is Err ==> s@ == Seq::<char>::empty() { unimplemented!() }
// ---- verified shims ---------------------------------------------------------------------------------
pub open spec fn val(o: Option<HeaderValue>) -> Option<B> { match o { Some(v) => Some(v@), None => None } }
pub fn or_copy(a: Option<HeaderValue>, b: &Option<HeaderValue>) -> (r: Option<HeaderValue>) ensures val(r) == if a is Some { val(a) } else { val(*b) } { match a { Some(x) => Some(x), None => match b { Some(y) => Some(y.clone()), None => None } } }
pub fn copy_of(b: &Option<HeaderValue>) -> (r: Option<HeaderValue>) ensures val(r) == val(*b) { match b { Some(y) => Some(y.clone()), None => None } }
pub fn ok_of(r: Result<HeaderValue, NotText>) -> (o: Option<HeaderValue>) ensures o is Some == r is Ok, r matches Ok(v) ==> o->0 == v { match r { Ok(v) => Some(v), Err(_) => None } }
pub fn age_of(o: Option<u64>) -> (r: Option<HeaderValue>) ensures val(r) == match o { Some(n) => age(n), None => None } { match o { Some(n) => { let t = seconds_text(n); ok_of(HeaderValue::from_str(t.as_str())) } None => None } }
pub fn readable(m: Option<&HeaderValue>) -> (r: Option<&str>) ensures r is Some == (m is Some && value_text(m->0@) is Some), r matches Some(s) ==> s@ == value_text(m->0@)->0 { match m { Some(v) => match v.to_str() { Ok(s) => Some(s), Err(_) => None }, None => None } }
pub fn some_match(p: &Option<Regex>, s: &str) -> (r: bool) ensures r == (p is Some && matches(p->0, s@)) { match p { Some(x) => x.is_match(s), None => false } }
pub fn listed(v: &Vec<String>, s: &str) -> (r: bool) ensures r == exists|i: int| 0 <= i < v@.len() && (#[trigger] v@[i])@ == s@ {
    let mut k: usize = 0;
    while k < v.len() invariant k <= v@.len(), forall|i: int| 0 <= i < k ==> (#[trigger] v@[i])@ != s@ decreases v@.len() - k {
        if str_eq(v[k].as_str(), s) { return true; }
        k += 1;
    }
    false
}
pub open spec fn age(n: u64) -> Option<B> { if is_header_text(seconds(n)) { Some(text_bytes(seconds(n))) } else { None } }
pub open spec fn list_value(l: Option<Vec<String>>) -> Option<B> { if l is Some && l->0@.len() > 0 && is_header_text(joined(l->0@)) { Some(text_bytes(joined(l->0@))) } else { None } }
//@ file bin/router/src/config/cors.rs
//@ rewrite path http::HeaderMap => HeaderMap
//@ extract struct CORSPolicyConfig
//@ end
//@ extract struct CORSConfig
//@ end
//@ file bin/router/src/pipeline/cors.rs
//@ rewrite path http::HeaderMap => HeaderMap
//@ extract struct CompiledCORSPolicy
//@ end
//@ extract struct CompiledOriginRule
//@ end
//@ extract enum Cors
//@ end
pub struct CORSConfigError { pub m: u8 }
// ---- the configured lists -----------------------------------------------------------------------------
//@ rewrite expr v.join(", ") => join_list(v)
//@ rewrite expr HeaderValue::from_str(__x).ok() => ok_of(HeaderValue::from_str(__x))
//@ rewrite expr match vec.as_deref() { None | Some([]) => None, Some(v) => __b } ==>> match vec { None => None, Some(v) => if v.len() == 0 { None } else { __b } }
//@ extract fn header_value_from_list
//@ opt ret r
//@ sec spec
    ensures val(r) == list_value(*vec)
//@ end
//@ rewrite expr global.clone() => global.copied()
//@ rewrite expr out.extend(overrides.iter().map(|(k, v)| (k.clone(), v.clone()))) => out.replace_all(overrides)
//@ extract fn merge_preflight_headers
//@ opt ret r
//@ sec spec
    ensures forall|n: HeaderName| #[trigger] last_of(r.entries(), n) == if last_of(overrides.entries(), n) is Some { last_of(overrides.entries(), n) } else { last_of(global.entries(), n) }
//@ end
// ---- inheritance: what a policy leaves out, the global settings say --------------------------------------
pub open spec fn or_else(a: Option<B>, b: Option<B>) -> Option<B> { if a is Some { a } else { b } }
pub open spec fn allowed(b: bool) -> Option<B> { if b { Some(text_bytes("true"@)) } else { None } }
pub open spec fn resolved(p: CompiledCORSPolicy, c: CORSPolicyConfig, g: CompiledCORSPolicy) -> bool {
    val(p.methods_value) == or_else(list_value(c.methods), val(g.methods_value))
    && val(p.allow_headers_value) == or_else(list_value(c.allow_headers), val(g.allow_headers_value))
    && val(p.expose_headers_value) == or_else(list_value(c.expose_headers), val(g.expose_headers_value))
    && val(p.allow_credentials_value) == (match c.allow_credentials { Some(b) => allowed(b), None => val(g.allow_credentials_value) })
    && val(p.max_age_value) == (match c.max_age { Some(n) => age(n), None => val(g.max_age_value) })
    && (forall|n: HeaderName| #[trigger] last_of(p.preflight_response_headers.entries(), n) == or_else(last_of(c.preflight_response_headers.entries(), n), last_of(g.preflight_response_headers.entries(), n)))
}
pub open spec fn global_of(p: CompiledCORSPolicy, c: CORSConfig) -> bool {
    val(p.methods_value) == list_value(c.methods) && val(p.allow_headers_value) == list_value(c.allow_headers) && val(p.expose_headers_value) == list_value(c.expose_headers)
    && val(p.allow_credentials_value) == allowed(c.allow_credentials) && val(p.max_age_value) == (match c.max_age { Some(n) => age(n), None => None })
    && p.preflight_response_headers.entries() == c.preflight_response_headers.entries()
}
//@ rewrite expr __a.or_else(|| global.__f.clone()) => or_copy(__a, &global.__f)
//@ rewrite expr global.__f.clone() => copy_of(&global.__f)
//@ rewrite expr max_age.to_string() => seconds_text(max_age)
//@ rewrite expr ok_of(HeaderValue::from_str(&max_age.to_string())) => age_of(Some(max_age))
//@ rewrite expr HeaderValue::from_str(&max_age.to_string()).ok() => age_of(Some(max_age))
//@ extract method CompiledCORSPolicy::from_config
//@ opt ret r
//@ sec spec
    ensures resolved(r, *policy_config, *global)
//@ end
// ---- compiling the configuration ------------------------------------------------------------------------
pub uninterp spec fn pattern_matches(p: Seq<char>, s: Seq<char>) -> bool;
pub open spec fn any_pattern(ps: Seq<String>, s: Seq<char>) -> bool { exists|i: int| 0 <= i < ps.len() && pattern_matches((#[trigger] ps[i])@, s) }
// trusted: regex_automata's build_many (none for no patterns)
#[verifier::external_body]
pub fn build_regex_many(patterns: &Vec<String>) -> (r: Result<Option<Regex>, CORSConfigError>)
    ensures r matches Ok(None) ==> patterns@.len() == 0, r matches Ok(Some(x)) ==> forall|s: Seq<char>| #[trigger] matches(x, s) == any_pattern(patterns@, s) { unimplemented!() }
pub fn list_or_none(o: &Option<Vec<String>>) -> (r: Vec<String>) ensures forall|s: Seq<char>| within(r@, s) == #[trigger] listed_in(*o, s) {
    match o { Some(v) => { let r = copy_list(v); proof { same_texts(r@, v@); } r } None => Vec::new() }
}
pub open spec fn within(a: Seq<String>, s: Seq<char>) -> bool { exists|i: int| 0 <= i < a.len() && (#[trigger] a[i])@ == s }
pub proof fn same_texts(a: Seq<String>, b: Seq<String>) requires texts(a) == texts(b) ensures forall|s: Seq<char>| within(a, s) == #[trigger] within(b, s) {
    assert(texts(a).len() == a.len() && texts(b).len() == b.len());
    assert forall|i: int| 0 <= i < a.len() implies a[i]@ == (#[trigger] b[i])@ by { assert(texts(a)[i] == texts(b)[i]); }
    assert forall|s: Seq<char>| within(a, s) == #[trigger] within(b, s) by {
        if exists|i: int| 0 <= i < a.len() && (#[trigger] a[i])@ == s { let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i])@ == s; assert(b[i]@ == s); }
        if exists|i: int| 0 <= i < b.len() && (#[trigger] b[i])@ == s { let i = choose|i: int| 0 <= i < b.len() && (#[trigger] b[i])@ == s; assert(a[i]@ == s); }
    }
}
pub open spec fn texts(v: Seq<String>) -> Seq<Seq<char>> { v.map_values(|s: String| s@) }
#[verifier::external_body] pub fn copy_list(v: &Vec<String>) -> (r: Vec<String>) ensures texts(r@) == texts(v@) { unimplemented!() }
pub open spec fn listed_in(l: Option<Vec<String>>, s: Seq<char>) -> bool { l is Some && within(l->0@, s) }
pub open spec fn compiled(r: CompiledOriginRule, c: CORSPolicyConfig, g: CompiledCORSPolicy) -> bool {
    resolved(r.policy, c, g) && forall|s: Seq<char>| #[trigger] covers(r, s) == (listed_in(c.origins, s) || (c.match_origin is Some && any_pattern(c.match_origin->0@, s)))
}
pub open spec fn covers(r: CompiledOriginRule, s: Seq<char>) -> bool {
    within(r.origins@, s) || (r.pattern is Some && matches(r.pattern->0, s))
}
//@ rewrite expr config.origins.clone().unwrap_or_default() => list_or_none(&config.origins)
//@ extract method CompiledOriginRule::try_from_config
//@ opt ret r
//@ sec spec
    ensures r matches Ok(x) ==> compiled(x, *config, *global)
//@ end
//@ rewrite expr config.max_age.and_then(|v| HeaderValue::from_str(&v.to_string()).ok()) => age_of(config.max_age)
//@ rewrite expr config.preflight_response_headers.clone() => config.preflight_response_headers.copied()
//@ rewrite expr global.into() => Box::new(global)
//@ extract method Cors::from_config
//@ opt ret r
//@ sec spec
    ensures
        !config.enabled ==> r == Ok::<Option<Cors>, CORSConfigError>(None),
        config.enabled && config.allow_any_origin ==> (r matches Ok(Some(Cors::AllowAll { policy })) && global_of(*policy, *config)),
        config.enabled && !config.allow_any_origin ==> match r {
            Ok(Some(Cors::AllowAll { .. })) => false,
            Ok(None) => config.policies@.len() == 0,
            Ok(Some(Cors::ByOrigin { rules })) => rules@.len() == config.policies@.len() && exists|g: CompiledCORSPolicy| #[trigger] global_of(g, *config)
                && forall|i: int| 0 <= i < rules@.len() ==> compiled(#[trigger] rules@[i], config.policies@[i], g),
            Err(_) => true,
        },
//@ sec loop 0 iter it
        invariant config.enabled, !config.allow_any_origin, it.seq().len() == config.policies@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == config.policies@[i],
            global_of(global, *config), rules@.len() == it.index@,
            forall|i: int| 0 <= i < rules@.len() ==> compiled(#[trigger] rules@[i], config.policies@[i], global),
//@ end
// ---- which rule applies ---------------------------------------------------------------------------------
//@ rewrite expr self.origins.iter().any(|o| o == origin) => listed(&self.origins, origin)
//@ rewrite expr self.pattern.as_ref().is_some_and(|pattern| pattern.is_match(origin)) => some_match(&self.pattern, origin)
//@ extract method CompiledOriginRule::matches_origin
//@ opt ret r
//@ sec spec
    ensures r == covers(*self, origin@)
//@ end
// the policy of the first rule that covers the origin
pub open spec fn first_rule(rs: Seq<CompiledOriginRule>, s: Seq<char>, k: int) -> Option<CompiledCORSPolicy> decreases rs.len() - k {
    if k < 0 || k >= rs.len() { None } else if covers(rs[k], s) { Some(rs[k].policy) } else { first_rule(rs, s, k + 1) }
}
pub open spec fn chosen(c: Cors, s: Seq<char>) -> Option<CompiledCORSPolicy> {
    match c { Cors::AllowAll { policy } => Some(*policy), Cors::ByOrigin { rules } => first_rule(rules@, s, 0) }
}
pub open spec fn owned<T>(o: Option<&T>) -> Option<T> { match o { Some(x) => Some(*x), None => None } }
pub fn first_covering<'a>(rules: &'a Vec<CompiledOriginRule>, origin: &str) -> (r: Option<&'a CompiledCORSPolicy>) ensures owned(r) == first_rule(rules@, origin@, 0) {
    let mut k: usize = 0;
    while k < rules.len() invariant k <= rules@.len(), first_rule(rules@, origin@, 0) == first_rule(rules@, origin@, k as int) decreases rules@.len() - k {
        if rules[k].matches_origin(origin) { return Some(&rules[k].policy); }
        k += 1;
    }
    None
}
//@ rewrite expr rules.iter().find(|r| r.matches_origin(origin)).map(|r| &r.policy) => first_covering(rules, origin)
//@ extract method Cors::find_policy_for_origin
//@ opt ret r
//@ sec spec
    ensures owned(r) == chosen(*self, origin@)
//@ end
// ---- what is written --------------------------------------------------------------------------------------
// the list of names a response varies by, after adding one
pub open spec fn varied(line: Option<B>, t: Seq<char>) -> Option<B> {
    if line is Some && value_text(line->0) is Some {
        let l = value_text(line->0)->0;
        if has_token(l, t) { line } else {
            let n = if l.len() == 0 { t } else { with_token(l, t) };
            if is_header_text(n) { Some(text_bytes(n)) } else { line }
        }
    } else if is_header_text(t) { Some(text_bytes(t)) } else { line }
}
//@ rewrite expr headers.get(header::VARY).and_then(|v| v.to_str().ok()) => readable(headers.get(header::VARY))
//@ rewrite expr existing.split(',').map(|s| s.trim()).any(|t| t.eq_ignore_ascii_case(token)) => list_has(existing, token)
//@ rewrite expr existing.is_empty() => no_text(existing)
//@ rewrite macro format => list_with(__args)
//@ extract fn append_vary
//@ sec spec
    ensures final(headers).line(header::VARY) == varied(old(headers).line(header::VARY), token@),
        forall|n: HeaderName| !is_vary(n) ==> #[trigger] final(headers).line(n) == old(headers).line(n),
//@ end
pub open spec fn or_hint(v: Option<HeaderValue>, hint: Option<B>, before: Option<B>) -> Option<B> { if v is Some { Some(v->0@) } else if hint is Some { hint } else { before } }
pub open spec fn managed(p: CompiledCORSPolicy, q: HttpRequest, h: HeaderMap, origin: B, n: HeaderName) -> Option<B> {
    if n == header::ACCESS_CONTROL_ALLOW_ORIGIN { Some(origin) }
    else if n == header::ACCESS_CONTROL_ALLOW_METHODS { or_hint(p.methods_value, q.hs().line(header::ACCESS_CONTROL_REQUEST_METHOD), h.line(n)) }
    else if n == header::ACCESS_CONTROL_ALLOW_HEADERS { or_hint(p.allow_headers_value, q.hs().line(header::ACCESS_CONTROL_REQUEST_HEADERS), h.line(n)) }
    else if n == header::ACCESS_CONTROL_ALLOW_CREDENTIALS { or_hint(p.allow_credentials_value, None, h.line(n)) }
    else if n == header::ACCESS_CONTROL_EXPOSE_HEADERS { or_hint(p.expose_headers_value, None, h.line(n)) }
    else if n == header::ACCESS_CONTROL_MAX_AGE { or_hint(p.max_age_value, None, h.line(n)) }
    else if n == header::VARY {
        let v = if origin != text_bytes("null"@) { varied(h.line(n), "Origin"@) } else { h.line(n) };
        if p.allow_headers_value is None && q.hs().line(header::ACCESS_CONTROL_REQUEST_HEADERS) is Some { varied(v, "Access-Control-Request-Headers"@) } else { v }
    } else { h.line(n) }
}
pub open spec fn applied(p: CompiledCORSPolicy, q: HttpRequest, h: HeaderMap, origin: B, n: HeaderName) -> Option<B> {
    if q.options() && last_of(p.preflight_response_headers.entries(), n) is Some { last_of(p.preflight_response_headers.entries(), n) } else { managed(p, q, h, origin, n) }
}
//@ rewrite expr origin.as_bytes() != b"null" => !origin.is_null()
//@ rewrite expr req.method() == Method::OPTIONS => req.is_options()
//@ rewrite expr &self.preflight_response_headers => self.preflight_response_headers.all()
//@ rewrite expr response_headers.insert(name.into(), value.into()) => response_headers.insert(name, value)
//@ extract method CompiledCORSPolicy::apply_to
//@ sec spec
    ensures forall|n: HeaderName| #[trigger] final(response_headers).line(n) == applied(*self, *req, *old(response_headers), origin@, n),
//@ sec before-loop 0
        let ghost done = *response_headers;
        proof { assert forall|n: HeaderName| #[trigger] done.line(n) == managed(*self, *req, *old(response_headers), origin@, n) by {} }
//@ sec loop 0 iter it
        invariant it.seq() == self.preflight_response_headers.entries(), done == done,
            forall|n: HeaderName| #[trigger] done.line(n) == managed(*self, *req, *old(response_headers), origin@, n),
            it.index@ == it.seq().len() ==> it.seq().take(it.index@) =~= it.seq(),
            forall|n: HeaderName| #[trigger] response_headers.line(n) == or_else(last_of(it.seq().take(it.index@), n), done.line(n)),
//@ sec loopstart 0
        proof { let t = it.seq().take(it.index@ + 1); assert(t.drop_last() =~= it.seq().take(it.index@)); assert(t.last() == it.seq()[it.index@]); }
//@ end
pub open spec fn answered(c: Cors, q: HttpRequest, h: HeaderMap, n: HeaderName, p: Option<CompiledCORSPolicy>) -> Option<B> {
    match p { Some(x) => applied(x, q, h, q.hs().line(header::ORIGIN)->0, n), None => if is_acao(n) { Some(text_bytes("null"@)) } else { h.line(n) } }
}
pub open spec fn origin_text(b: B) -> Seq<char> { match value_text(b) { Some(s) => s, None => Seq::<char>::empty() } }
//@ rewrite expr current_origin.to_str().ok().unwrap_or_default() => or_blank(current_origin.to_str())
//@ extract method Cors::set_headers
//@ sec spec
    ensures
        req.hs().line(header::ORIGIN) is None ==> *final(headers) == *old(headers),
        req.hs().line(header::ORIGIN) matches Some(o) ==> forall|n: HeaderName| #[trigger] final(headers).line(n) == answered(*self, *req, *old(headers), n, chosen(*self, origin_text(o))),
//@ end
} // verus!
fn main() {}
