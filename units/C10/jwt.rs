//@-- C10: JWT authentication
//@ include ../lib/prelude.rs
verus! {
//@ dropmacro warn debug trace info error
//@ norules
pub type T = Seq<char>;
// ---- trusted: jsonwebtoken ------------------------------------------------------------------------------
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
pub enum Algorithm { HS256, HS384, HS512, ES256, ES384, RS256, RS384, RS512, PS256, PS384, PS512, EdDSA }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct KeyAlgorithm { m: u8 }
pub struct Header { pub kid: Option<String>, pub alg: Algorithm }
pub struct CommonParameters { pub key_id: Option<String>, pub key_algorithm: Option<KeyAlgorithm> }
#[verifier::external_body] pub struct KeyMaterial { m: u8 }
pub struct Jwk { pub common: CommonParameters, pub algorithm: KeyMaterial }
pub struct JwkSet { pub keys: Vec<Jwk> }
#[verifier::external_body] pub struct DecodingKey { m: u8 }
#[verifier::external_body] pub struct TokenError { m: u8 }
#[derive(Clone, Copy)]
pub enum ErrorKind { InvalidAlgorithm, InvalidIssuer, InvalidAudience }
#[verifier::external_body] pub fn kind(k: ErrorKind) -> TokenError { unimplemented!() }
pub uninterp spec fn named(k: KeyAlgorithm) -> Option<Algorithm>;      // the algorithm a key's `alg` stands for
pub uninterp spec fn key_of(k: Jwk) -> Option<DecodingKey>;
pub uninterp spec fn header_of(t: T) -> Option<Header>;
pub uninterp spec fn claims_of(t: T) -> JwtClaims;
pub uninterp spec fn signed(t: T, k: DecodingKey, a: Algorithm) -> bool; // the signature of the token is one of the key, by the algorithm
pub uninterp spec fn unexpired(t: T) -> bool;                          // exp is there and not over, with the leeway
pub uninterp spec fn begun(t: T) -> bool;                              // nbf is absent or has come, with the leeway
#[verifier::external_body] pub fn named_by(k: &KeyAlgorithm) -> (r: Result<Algorithm, JwtError>) ensures r is Ok == named(*k) is Some, r matches Ok(a) ==> a == named(*k)->0, r is Err ==> r->Err_0 is JwkAlgorithmNotSupported { unimplemented!() }
#[verifier::external_body] pub fn key_from(k: &Jwk) -> (r: Result<DecodingKey, JwtError>) ensures r is Ok == key_of(*k) is Some, r matches Ok(a) ==> a == key_of(*k)->0 { unimplemented!() }
#[verifier::external_body] pub fn read_header(t: &String) -> (r: Result<Header, JwtError>) ensures r is Ok == header_of(t@) is Some, r matches Ok(h) ==> h == header_of(t@)->0, r is Err ==> r->Err_0 is InvalidJwtHeader { unimplemented!() }
pub struct Validation { pub algorithms: Ghost<Algorithm>, pub validate_nbf: bool, pub validate_aud: bool, pub validate_exp: bool, pub iss: Ghost<Option<Seq<T>>>, pub aud: Ghost<Option<Seq<T>>> }
impl Validation {
    #[verifier::external_body] pub fn new(a: Algorithm) -> (r: Validation) ensures r.algorithms@ == a, !r.validate_nbf, r.validate_aud, r.validate_exp, r.iss@ is None, r.aud@ is None { unimplemented!() }
    #[verifier::external_body] pub fn set_issuer(&mut self, v: &Vec<String>) ensures final(self).iss@ == Some(texts(v@)), final(self).algorithms == old(self).algorithms, final(self).validate_nbf == old(self).validate_nbf, final(self).validate_aud == old(self).validate_aud, final(self).validate_exp == old(self).validate_exp, final(self).aud == old(self).aud { unimplemented!() }
    #[verifier::external_body] pub fn set_audience(&mut self, v: &Vec<String>) ensures final(self).aud@ == Some(texts(v@)), final(self).algorithms == old(self).algorithms, final(self).validate_nbf == old(self).validate_nbf, final(self).validate_aud == old(self).validate_aud, final(self).validate_exp == old(self).validate_exp, final(self).iss == old(self).iss { unimplemented!() }
}
// what `decode` looks at: a claim that is there must fit what is expected of it
pub open spec fn fits(c: JwtClaims, v: Validation) -> bool {
    (match (c.iss, v.iss@) { (Some(i), Some(l)) => l.contains(i@), _ => true })
    && (!v.validate_aud || match (c.aud, v.aud@) { (Some(_), None) => false, (Some(Audience::Single(a)), Some(l)) => l.contains(a@), (Some(Audience::Multiple(s)), Some(l)) => exists|i: int| 0 <= i < s@.len() && l.contains((#[trigger] s@[i])@), (None, _) => true })
}
#[verifier::external_body] pub fn decode(t: &str, k: &DecodingKey, v: &Validation) -> (r: Result<TokenData, TokenError>)
    ensures r is Ok == (signed(t@, *k, v.algorithms@) && (v.validate_exp ==> unexpired(t@)) && (v.validate_nbf ==> begun(t@)) && fits(claims_of(t@), *v)),
        r matches Ok(d) ==> d.claims == claims_of(t@) { unimplemented!() }
// ---- trusted: headers, cookies, text
#[verifier::external_body] pub struct HeaderName { m: u8 }
impl View for HeaderName { type V = T; uninterp spec fn view(&self) -> T; }
pub struct HttpHeaderName { pub name: HeaderName }
impl HttpHeaderName { pub fn get_header_ref(&self) -> (r: &HeaderName) ensures *r == self.name { &self.name } }
pub struct NotText { pub m: u8 }
pub struct InvalidHeaderValue { pub m: u8 }
#[verifier::external_body] pub struct HeaderValue { m: u8 }
pub uninterp spec fn value_text(v: HeaderValue) -> Option<T>;
impl HeaderValue { #[verifier::external_body] pub fn to_str(&self) -> (r: Result<&str, NotText>) ensures r is Ok == value_text(*self) is Some, r matches Ok(s) ==> s@ == value_text(*self)->0 { unimplemented!() } }
// the text of a header value is itself the text of a header value
#[verifier::external_body] pub fn parse_value(s: &str) -> (r: Result<HeaderValue, InvalidHeaderValue>) ensures (exists|v: HeaderValue| value_text(v) == Some(s@)) ==> r is Ok, r matches Ok(v) ==> value_text(v) == Some(s@) { unimplemented!() }
#[verifier::external_body] pub struct HeaderMap { m: u8 }
impl HeaderMap {
    pub uninterp spec fn first(&self, n: T) -> Option<HeaderValue>;
    #[verifier::external_body] pub fn get(&self, n: &HeaderName) -> (r: Option<&HeaderValue>) ensures r is Some == self.first(n@) is Some, r matches Some(v) ==> *v == self.first(n@)->0 { unimplemented!() }
    #[verifier::external_body] pub fn cookies(&self) -> (r: Option<&HeaderValue>) ensures r is Some == self.first("cookie"@) is Some, r matches Some(v) ==> *v == self.first("cookie"@)->0 { unimplemented!() }
}
pub uninterp spec fn cookie_of(t: T) -> Option<(T, T)>;
pub uninterp spec fn pieces(t: T, c: char) -> Seq<T>;
pub uninterp spec fn trimmed(t: T) -> T;
#[verifier::external_body] pub struct Cookie { m: u8 }
impl Cookie {
    pub uninterp spec fn pair(&self) -> (T, T);
    #[verifier::external_body] pub fn parse(s: &str) -> (r: Result<Cookie, NotText>) ensures r is Ok == cookie_of(s@) is Some, r matches Ok(c) ==> c.pair() == cookie_of(s@)->0 { unimplemented!() }
    #[verifier::external_body] pub fn name_value_trimmed(&self) -> (r: (&str, &str)) ensures r.0@ == self.pair().0, r.1@ == self.pair().1 { unimplemented!() }
}
#[verifier::external_body] pub fn split_on<'a>(s: &'a str, c: char) -> (r: Vec<&'a str>) ensures r@.len() == pieces(s@, c).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == pieces(s@, c)[i] { unimplemented!() }
#[verifier::external_body] pub fn trim(s: &str) -> (r: &str) ensures r@ == trimmed(s@) { unimplemented!() }
#[verifier::external_body] pub fn owned(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
pub open spec fn starts(s: T, p: T) -> bool { p.len() <= s.len() && p == s.take(p.len() as int) }
#[verifier::external_body] pub fn strip_prefix<'a>(s: &'a str, p: &str) -> (r: Option<&'a str>) ensures r is Some == starts(s@, p@), r matches Some(x) ==> x@ == s@.skip(p@.len() as int) { unimplemented!() }
pub open spec fn texts(v: Seq<String>) -> Seq<T> { Seq::new(v.len(), |i: int| v[i]@) }
pub open spec fn lists(v: Vec<String>, t: T) -> bool { texts(v@).contains(t) }
// ---- verified shims
pub fn stripped<'a>(v: &'a HeaderValue, p: &String) -> (r: Option<&'a str>) ensures r is Some == (value_text(*v) is Some && starts(value_text(*v)->0, p@)), r matches Some(x) ==> x@ == value_text(*v)->0.skip(p@.len() as int)
{ match v.to_str() { Ok(s) => strip_prefix(s, p.as_str()), Err(_) => None } }
pub fn readable(v: &HeaderValue) -> (r: String) ensures value_text(*v) is Some ==> r@ == value_text(*v)->0 { match v.to_str() { Ok(s) => owned(s), Err(_) => owned("") } }
pub fn opt_is(o: &Option<String>, t: &String) -> (r: bool) ensures r == (o matches Some(s) && s@ == t@) { match o { Some(s) => str_eq(s.as_str(), t.as_str()), None => false } }
pub fn listed(v: &Vec<String>, t: &String) -> (r: bool) ensures r == lists(*v, t@) {
    let mut k: usize = 0;
    while k < v.len() invariant k <= v@.len(), forall|i: int| 0 <= i < k ==> (#[trigger] v@[i])@ != t@ decreases v@.len() - k {
        if str_eq(v[k].as_str(), t.as_str()) { proof { assert(texts(v@)[k as int] == t@); } return true; }
        k += 1;
    }
    proof { assert forall|i: int| 0 <= i < v@.len() implies #[trigger] texts(v@)[i] != t@ by { let _ = v@[i]; } }
    false
}
pub fn all_listed(s: &Vec<String>, v: &Vec<String>) -> (r: bool) ensures r == forall|i: int| 0 <= i < s@.len() ==> lists(*v, (#[trigger] s@[i])@) {
    let mut k: usize = 0;
    while k < s.len() invariant k <= s@.len(), forall|i: int| 0 <= i < k ==> lists(*v, (#[trigger] s@[i])@) decreases s@.len() - k {
        if !listed(v, &s[k]) { return false; }
        k += 1;
    }
    true
}
pub fn alg_listed(v: &Vec<Algorithm>, a: Algorithm) -> (r: bool) ensures r == v@.contains(a) {
    let mut k: usize = 0;
    while k < v.len() invariant k <= v@.len(), forall|i: int| 0 <= i < k ==> #[trigger] v@[i] != a decreases v@.len() - k {
        if v[k] == a { proof { assert(v@[k as int] == a); } return true; }
        k += 1;
    }
    false
}
pub fn is_true(o: Option<bool>) -> (r: bool) ensures r == (o == Some(true)) { match o { Some(b) => b, None => false } }
// ---- the code's own types
//@ file bin/router/src/jwt/errors.rs
//@ rewrite type ToStrError => NotText
//@ rewrite type jsonwebtoken::errors::Error => TokenError
//@ extract enum LookupError
//@ end
//@ extract enum JwtError
//@ end
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
pub enum StatusCode { UNAUTHORIZED, BAD_REQUEST, FORBIDDEN }
//@ extract method JwtError::status_code
//@ opt ret r
//@ sec spec
    ensures r == StatusCode::UNAUTHORIZED <==> self is LookupFailed,
        r == StatusCode::BAD_REQUEST <==> self is JwkAlgorithmNotSupported || self is HTTPRequestParsingError,
//@ end
//@ file bin/router/src/config/jwt_auth.rs
//@ extract enum JwtAuthPluginLookupLocation
//@ end
//@ extract struct JwtAuthConfig
//@ opt keepfields issuers audiences lookup_locations require_authentication allowed_algorithms scopes_claim
//@ end
//@ file bin/router/src/jwt/context.rs
//@ extract enum Audience
//@ end
#[verifier::external_body] pub struct ClaimMap { m: u8 }
pub enum Value { String(String), Array(Vec<Value>), Other }
//@ rewrite type HashMap<String,serde_json::Value> => ClaimMap
//@ extract struct JwtClaims
//@ end
pub struct TokenData { pub header: Header, pub claims: JwtClaims }
pub type JwtTokenPayload = TokenData;
//@ rewrite type Arc<JwtTokenPayload> => JwtTokenPayload
//@ extract struct JwtRequestContext
//@ end
#[verifier::external_body] pub struct JwksManager { m: u8 }
impl JwksManager { #[verifier::external_body] pub fn all(&self) -> Vec<JwkSet> { unimplemented!() } }
//@ file bin/router/src/jwt/mod.rs
//@ extract struct JwtAuthRuntime
//@ end
// ---- the scopes of the token, from the configured claim
impl ClaimMap {
    pub uninterp spec fn at(&self, n: T) -> Option<Value>;
    #[verifier::external_body] pub fn get(&self, n: &str) -> (r: Option<&Value>) ensures r is Some == self.at(n@) is Some, r matches Some(v) ==> *v == self.at(n@)->0 { unimplemented!() }
}
pub fn either<'a>(a: Option<&'a Value>, b: Option<&'a Value>) -> (r: Option<&'a Value>) ensures r == if a is Some { a } else { b } { match a { Some(x) => Some(x), None => b } }
#[verifier::external_body] pub fn words(s: &String) -> (r: Vec<String>) ensures texts(r@) == pieces(s@, ' ') { unimplemented!() }
pub open spec fn strings(v: Seq<Value>) -> Seq<T> decreases v.len() { if v.len() == 0 { seq![] } else { strings(v.drop_last()) + match v.last() { Value::String(s) => seq![s@], _ => seq![] } } }
pub fn strings_of(v: &Vec<Value>) -> (r: Vec<String>) ensures texts(r@) == strings(v@) {
    let mut out: Vec<String> = Vec::new();
    let mut k: usize = 0;
    proof { assert(v@.take(0) =~= seq![]); assert(texts(out@) =~= seq![]); }
    while k < v.len() invariant k <= v@.len(), texts(out@) == strings(v@.take(k as int)) decreases v@.len() - k {
        proof { assert(v@.take(k + 1).drop_last() =~= v@.take(k as int)); }
        let ghost before = out@;
        match &v[k] { Value::String(s) => { out.push(owned(s.as_str())); proof { assert(texts(out@) =~= texts(before).push(s@)); assert(texts(before).push(s@) =~= texts(before) + seq![s@]); } }, _ => { proof { assert(texts(before) + seq![] =~= texts(before)); } } }
        k += 1;
    }
    proof { assert(v@.take(v@.len() as int) =~= v@); }
    out
}
pub open spec fn scopes_in(v: Option<Value>) -> Option<Seq<T>> { match v { Some(Value::String(s)) => Some(pieces(s@, ' ')), Some(Value::Array(a)) => Some(strings(a@)), _ => None } }
pub open spec fn scopes(m: ClaimMap, claim: Option<String>) -> Option<Seq<T>> {
    match claim { Some(n) => scopes_in(m.at(n@)), None => scopes_in(if m.at("scope"@) is Some { m.at("scope"@) } else { m.at("scopes"@) }) }
}
//@ file bin/router/src/jwt/context.rs
//@ rewrite expr __a.or_else(|| __b) => either(__a, __b)
//@ rewrite expr scopes_str.split(' ').map(String::from).collect() => words(scopes_str)
//@ rewrite expr scopes_arr.iter().filter_map(|s| s.as_str()).map(String::from).collect::<Vec<_>>() => strings_of(scopes_arr)
//@ rewrite path serde_json::Value::String => Value::String
//@ rewrite path serde_json::Value::Array => Value::Array
//@ extract method JwtRequestContext::extract_scopes
//@ opt ret r
//@ sec spec
    ensures r is Some == scopes(self.token_payload.claims.additional_claims, self.scopes_claim) is Some,
        r matches Some(v) ==> texts(v@) == scopes(self.token_payload.claims.additional_claims, self.scopes_claim)->0,
//@ end
// ---- how long an accepted token is remembered
#[derive(Clone, Copy)]
pub struct Duration { pub secs: u64 }
pub struct Instant { pub m: u8 }
pub struct ClockError { pub m: u8 }
impl Duration {
    pub const ZERO: Duration = Duration { secs: 0 };
    pub const fn from_secs(n: u64) -> (r: Duration) ensures r.secs == n { Duration { secs: n } }
    pub fn as_secs(&self) -> (r: u64) ensures r == self.secs { self.secs }
    pub fn min(self, o: Duration) -> (r: Duration) ensures r.secs == if self.secs < o.secs { self.secs } else { o.secs } { if self.secs < o.secs { self } else { o } }
}
pub uninterp spec fn moment() -> Option<u64>;
#[verifier::external_body] pub fn clock() -> (r: Result<Duration, ClockError>) ensures r is Ok == moment() is Some, r matches Ok(d) ==> d.secs == moment()->0 { unimplemented!() }
//@ file bin/router/src/shared_state.rs
//@ rewrite type std::time::Instant => Instant
//@ rewrite expr SystemTime::now().duration_since(UNIX_EPOCH) => clock()
//@ rewrite expr Duration::from_secs(__n) => (Duration { secs: __n })
//@ extract const DEFAULT_JWT_CACHE_TTL_SECS
//@ end
//@ extract struct JwtClaimsExpiry
//@ end
//@ extract method Expiry for JwtClaimsExpiry::expire_after_create
//@ opt ret r
//@ sec spec
    ensures r is Some, r->0.secs <= 5,
        value.claims.exp is Some && moment() is Some ==> r->0.secs <= if value.claims.exp->0 <= moment()->0 { 0 } else { value.claims.exp->0 - moment()->0 },
//@ end
// ---- where the token is
pub type Found = (Option<T>, T);
pub open spec fn cookie_at(v: Seq<T>, k: nat, name: T) -> Option<T> decreases v.len() - k {
    if k >= v.len() { None } else { match cookie_of(v[k as int]) { Some(p) => if p.0 == name { Some(p.1) } else { cookie_at(v, k + 1, name) }, None => cookie_at(v, k + 1, name) } }
}
// None: the location is empty; Some(None): it holds something that is not a token
pub open spec fn at(l: JwtAuthPluginLookupLocation, h: HeaderMap) -> Option<Option<Found>> {
    match l {
        JwtAuthPluginLookupLocation::Header { name, prefix } => match h.first(name.name@) {
            None => None,
            Some(v) => match value_text(v) {
                None => Some(None),
                Some(t) => match prefix { None => Some(Some((None, t))), Some(p) => if starts(t, p@) { Some(Some((Some(p@), trimmed(t.skip(p@.len() as int))))) } else { Some(None) } },
            },
        },
        JwtAuthPluginLookupLocation::Cookie { name } => match h.first("cookie"@) {
            None => None,
            Some(v) => match value_text(v) { None => None, Some(t) => match cookie_at(pieces(t, ';'), 0, name@) { None => None, Some(c) => Some(Some((None, c))) } },
        },
    }
}
pub open spec fn token_of(v: Seq<JwtAuthPluginLookupLocation>, k: nat, h: HeaderMap) -> Option<Found> decreases v.len() - k {
    if k >= v.len() { None } else { match at(v[k as int], h) { Some(r) => r, None => token_of(v, k + 1, h) } }
}
//@ file bin/router/src/jwt/mod.rs
pub open spec fn opt_text(o: Option<String>) -> Option<T> { match o { Some(s) => Some(s@), None => None } }
//@ rewrite expr header_str.parse() => parse_value(header_str)
//@ rewrite expr header_value.to_str().ok().and_then(|s| s.strip_prefix(prefix)) => stripped(&header_value, prefix)
//@ rewrite expr prefix.to_string() => prefix.clone()
//@ rewrite expr stripped_value.trim().to_string() => owned(trim(stripped_value))
//@ rewrite expr header_value.to_str().unwrap_or("").to_string() => readable(&header_value)
//@ rewrite expr headers.get(COOKIE) => headers.cookies()
//@ rewrite expr cookies.split(';') => split_on(cookies, ';')
//@ rewrite expr cookie_name == name => str_eq(cookie_name, name.as_str())
//@ rewrite expr cookie_value.to_string() => owned(cookie_value)
//@ extract method JwtAuthRuntime::lookup
//@ opt ret r
//@ sec spec
    ensures r is Ok == token_of(self.config.lookup_locations@, 0, *headers) is Some,
        r matches Ok(p) ==> (opt_text(p.0), p.1@) == token_of(self.config.lookup_locations@, 0, *headers)->0,
//@ sec loop 0 index li
        invariant li <= __it0@.len(), __it0@ == self.config.lookup_locations@,
            token_of(self.config.lookup_locations@, 0, *headers) == token_of(self.config.lookup_locations@, li as nat, *headers),
        decreases self.config.lookup_locations@.len() - li,
//@ sec loopstart 0
            proof {
                assert(*lookup_config == self.config.lookup_locations@[li - 1]);
                assert(token_of(self.config.lookup_locations@, (li - 1) as nat, *headers) == match at(*lookup_config, *headers) { Some(r) => r, None => token_of(self.config.lookup_locations@, li as nat, *headers) });
            }
//@ sec loop 1 index ci copy
        invariant ci <= __it1@.len(), __it1@ == raw_cookies@, raw_cookies@.len() == pieces(value_text(*cookie_raw)->0, ';').len(), forall|i: int| 0 <= i < raw_cookies@.len() ==> (#[trigger] raw_cookies@[i])@ == pieces(value_text(*cookie_raw)->0, ';')[i],
            value_text(*cookie_raw) is Some, Some(*cookie_raw) == headers.first("cookie"@), *lookup_config == self.config.lookup_locations@[li - 1], 0 < li <= self.config.lookup_locations@.len(),
            lookup_config matches JwtAuthPluginLookupLocation::Cookie { name: n } && n == name,
            token_of(self.config.lookup_locations@, 0, *headers) == token_of(self.config.lookup_locations@, (li - 1) as nat, *headers),
            cookie_at(pieces(value_text(*cookie_raw)->0, ';'), 0, name@) == cookie_at(pieces(value_text(*cookie_raw)->0, ';'), ci as nat, name@),
        decreases raw_cookies@.len() - ci,
//@ sec loopstart 1
                            proof { assert(item@ == pieces(value_text(*cookie_raw)->0, ';')[ci - 1]); }
//@ end
// ---- which key set
pub open spec fn has_kid(s: JwkSet, kid: T) -> bool { exists|i: int| 0 <= i < s.keys@.len() && ((#[trigger] s.keys@[i]).common.key_id matches Some(k) && k@ == kid) }
pub open spec fn kid_set(v: Seq<JwkSet>, k: nat, kid: T) -> Option<JwkSet> decreases v.len() - k {
    if k >= v.len() { None } else if has_kid(v[k as int], kid) { Some(v[k as int]) } else { kid_set(v, k + 1, kid) }
}
// 0: no key of the set has the algorithm, 1: a key has it, 2: before any, a key has an unknown algorithm
pub open spec fn alg_scan(v: Seq<Jwk>, k: nat, a: Algorithm) -> int decreases v.len() - k {
    if k >= v.len() { 0 } else { match v[k as int].common.key_algorithm { None => alg_scan(v, k + 1, a), Some(x) => match named(x) { None => 2, Some(y) => if y == a { 1 } else { alg_scan(v, k + 1, a) } } } }
}
pub open spec fn alg_set(v: Seq<JwkSet>, k: nat, a: Algorithm) -> Option<JwkSet> decreases v.len() - k {
    if k >= v.len() { None } else { let n = alg_scan(v[k as int].keys@, 0, a); if n == 1 { Some(v[k as int]) } else if n == 2 { None } else { alg_set(v, k + 1, a) } }
}
pub open spec fn key_set(h: Header, v: Seq<JwkSet>) -> Option<JwkSet> {
    if h.kid is Some && kid_set(v, 0, h.kid->0@) is Some { kid_set(v, 0, h.kid->0@) } else { alg_set(v, 0, h.alg) }
}
//@ rewrite type Arc<JwkSet> => JwkSet
//@ rewrite expr key.common.key_id.as_ref().is_some_and(|v| v == jwt_kid) => opt_is(&key.common.key_id, jwt_kid)
//@ rewrite expr Algorithm::from_str(&key_alg.to_string()).map_err(JwtError::JwkAlgorithmNotSupported) => named_by(&key_alg)
//@ extract method JwtAuthRuntime::find_matching_jwks
//@ opt ret r
//@ sec spec
    ensures r is Ok == key_set(*jwt_header, jwks@) is Some, r matches Ok(s) ==> *s == key_set(*jwt_header, jwks@)->0,
        r is Err ==> !(r->Err_0 is LookupFailed),
//@ sec loop 0 iter i0
        invariant i0.seq().len() == jwks@.len(), forall|i: int| 0 <= i < i0.seq().len() ==> *(#[trigger] i0.seq()[i]) == jwks@[i],
            jwt_header.kid matches Some(k) && k == jwt_kid, kid_set(jwks@, 0, jwt_kid@) == kid_set(jwks@, i0.index@ as nat, jwt_kid@),
//@ sec loop 1 iter i1
        invariant i1.seq().len() == jwk.keys@.len(), forall|i: int| 0 <= i < i1.seq().len() ==> *(#[trigger] i1.seq()[i]) == jwk.keys@[i],
            jwt_header.kid matches Some(k) && k == jwt_kid, kid_set(jwks@, 0, jwt_kid@) == kid_set(jwks@, i0.index@ as nat, jwt_kid@), *jwk == jwks@[i0.index@], 0 <= i0.index@ < jwks@.len(),
            forall|i: int| 0 <= i < i1.index@ ==> !((#[trigger] jwk.keys@[i]).common.key_id matches Some(k) && k@ == jwt_kid@),
//@ sec loopstart 0
            proof { assert(*jwk == jwks@[i0.index@]); }
//@ sec loopstart 1
            proof { assert(*key == jwk.keys@[i1.index@]); }
//@ sec loop 2 iter i2
        invariant i2.seq().len() == jwks@.len(), forall|i: int| 0 <= i < i2.seq().len() ==> *(#[trigger] i2.seq()[i]) == jwks@[i],
            !(jwt_header.kid matches Some(k) && kid_set(jwks@, 0, k@) is Some), alg_set(jwks@, 0, jwt_header.alg) == alg_set(jwks@, i2.index@ as nat, jwt_header.alg),
//@ sec loop 3 iter i3
        invariant i3.seq().len() == jwk.keys@.len(), forall|i: int| 0 <= i < i3.seq().len() ==> *(#[trigger] i3.seq()[i]) == jwk.keys@[i],
            !(jwt_header.kid matches Some(k) && kid_set(jwks@, 0, k@) is Some), alg_set(jwks@, 0, jwt_header.alg) == alg_set(jwks@, i2.index@ as nat, jwt_header.alg),
            *jwk == jwks@[i2.index@], 0 <= i2.index@ < jwks@.len(), alg_scan(jwk.keys@, 0, jwt_header.alg) == alg_scan(jwk.keys@, i3.index@ as nat, jwt_header.alg),
//@ sec loopstart 2
            proof { assert(*jwk == jwks@[i2.index@]); }
//@ sec loopstart 3
            proof { assert(*key == jwk.keys@[i3.index@]); }
//@ end
// ---- which tokens are accepted
pub open spec fn alg_used(h: Header, k: Jwk) -> Option<Algorithm> { match k.common.key_algorithm { Some(x) => named(x), None => Some(h.alg) } }
pub open spec fn issuer_ok(c: JwtAuthConfig, t: T) -> bool { c.issuers matches Some(l) ==> (claims_of(t).iss matches Some(i) && lists(l, i@)) }
pub open spec fn audience_ok(c: JwtAuthConfig, t: T) -> bool {
    c.audiences matches Some(l) ==> match claims_of(t).aud { None => false, Some(Audience::Single(a)) => lists(l, a@), Some(Audience::Multiple(s)) => s@.len() > 0 && forall|i: int| 0 <= i < s@.len() ==> lists(l, (#[trigger] s@[i])@) }
}
pub open spec fn accepts(c: JwtAuthConfig, h: Header, t: T, k: Jwk) -> bool {
    key_of(k) is Some && alg_used(h, k) is Some && (c.allowed_algorithms matches Some(l) ==> l@.contains(alg_used(h, k)->0))
    && signed(t, key_of(k)->0, alg_used(h, k)->0) && unexpired(t) && begun(t) && issuer_ok(c, t) && audience_ok(c, t)
}
//@ rewrite expr DecodingKey::from_jwk(jwk).map_err(JwtError::InvalidDecodingKey) => key_from(jwk)
//@ rewrite expr allowed.contains(&alg) => alg_listed(allowed, alg)
//@ rewrite expr jsonwebtoken::errors::ErrorKind::InvalidAlgorithm.into() => kind(ErrorKind::InvalidAlgorithm)
//@ rewrite expr jsonwebtoken::errors::ErrorKind::InvalidIssuer.into() => kind(ErrorKind::InvalidIssuer)
//@ rewrite expr jsonwebtoken::errors::ErrorKind::InvalidAudience.into() => kind(ErrorKind::InvalidAudience)
//@ rewrite expr decode::<JwtClaims>(token, &decoding_key, &validation) => decode(token, &decoding_key, &validation)
//@ rewrite expr issuers.contains(token_iss) => listed(issuers, token_iss)
//@ rewrite expr audiences.contains(s) => listed(audiences, s)
//@ rewrite expr s.iter().all(|v| audiences.contains(v)) => all_listed(s, audiences)
//@ extract method JwtAuthRuntime::try_decode_from_jwk
//@ opt ret r
//@ sec spec
    ensures r is Ok == accepts(self.config, *header, token@, *jwk), r matches Ok(d) ==> d.claims == claims_of(token@),
//@ sec start
    proof { match claims_of(token@).aud { Some(Audience::Multiple(s)) => { if s@.len() > 0 { let _ = s@[0]; } }, _ => {} } }
//@ end
pub open spec fn some_key(c: JwtAuthConfig, h: Header, t: T, v: Seq<Jwk>) -> bool { exists|i: int| 0 <= i < v.len() && accepts(c, h, t, #[trigger] v[i]) }
//@ extract method JwtAuthRuntime::decode_and_validate_token
//@ opt ret r
//@ sec spec
    ensures r is Ok == some_key(self.config, *header, token@, jwks@), r matches Ok(d) ==> d.claims == claims_of(token@),
        r is Err ==> !(r->Err_0 is LookupFailed),
//@ sec loop 0 iter it
        invariant it.seq().len() == jwks@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == jwks@[i],
            forall|i: int| 0 <= i < it.index@ ==> !accepts(self.config, *header, token@, #[trigger] jwks@[i]),
//@ sec loopstart 0
            proof { assert(*jwk == jwks@[it.index@]); }
//@ end
// a token that the configuration accepts under these key sets, at this moment
pub open spec fn valid(c: JwtAuthConfig, sets: Seq<JwkSet>, t: T) -> bool {
    header_of(t) matches Some(h) && key_set(h, sets) matches Some(s) && some_key(c, h, t, s.keys@)
}
//@ rewrite expr decode_header(&token).map_err(JwtError::InvalidJwtHeader) => read_header(&token)
//@ rewrite expr self.decode_and_validate_token(&header, &token, &jwk.keys).map(|token_data| (token_data, maybe_prefix, token)) => (match self.decode_and_validate_token(&header, token.as_str(), jwk.keys.as_slice()) { Ok(token_data) => Ok((token_data, maybe_prefix, token)), Err(e) => Err(e) })
//@ extract method JwtAuthRuntime::authenticate
//@ opt ret r
//@ sec spec
    ensures r is Ok == (token_of(self.config.lookup_locations@, 0, *headers) matches Some(p) && valid(self.config, jwks@, p.1)),
        r matches Ok(x) ==> x.0.claims == claims_of(x.2@) && (opt_text(x.1), x.2@) == token_of(self.config.lookup_locations@, 0, *headers)->0,
        r matches Err(JwtError::LookupFailed(_)) ==> token_of(self.config.lookup_locations@, 0, *headers) is None,
//@ end
// ---- the cache of accepted tokens
#[verifier::external_body] pub struct JwtClaimsCache { m: u8 }
impl JwtClaimsCache {
    pub uninterp spec fn held(&self, t: T) -> Option<JwtTokenPayload>;
    #[verifier::external_body] pub fn find(&self, t: &String) -> (r: Option<JwtTokenPayload>) ensures r == self.held(t@) { unimplemented!() }
}
pub uninterp spec fn was_valid(c: JwtAuthConfig, t: T) -> bool;     // valid, now or within the last five seconds and before its expiry
pub axiom fn axiom_now(c: JwtAuthConfig, sets: Seq<JwkSet>, t: T) requires valid(c, sets, t) ensures was_valid(c, t);
// only what `authenticate` returned for a token is stored under it
pub open spec fn sound(c: JwtAuthConfig, m: JwtClaimsCache) -> bool { forall|t: T| (#[trigger] m.held(t)) matches Some(p) ==> was_valid(c, t) && p.claims == claims_of(t) }
pub open spec fn required(c: JwtAuthConfig) -> bool { c.require_authentication == Some(true) }
//@ rewrite expr self.config.require_authentication.is_some_and(|v| v) => is_true(self.config.require_authentication)
//@ rewrite expr cache.try_get_with(token.clone(), async { let valid_jwks = self.jwks.all(); self.authenticate(&valid_jwks, headers).map(|(payload, _, _)| Arc::new(payload)) }).await => (match cache.find(&token) { Some(p) => Ok(p), None => { let valid_jwks = self.jwks.all(); let a = self.authenticate(&valid_jwks, headers); proof { if a is Ok { axiom_now(self.config, valid_jwks@, token@); } } match a { Ok((payload, _, _)) => Ok(payload), Err(e) => Err(e) } } })
//@ rewrite expr (*err).clone() => err
//@ extract method JwtAuthRuntime::validate_headers
//@ opt ret r
//@ opt sync
//@ sec spec
    requires sound(self.config, *cache)
    ensures
        r matches Ok(Some(x)) ==> token_of(self.config.lookup_locations@, 0, *headers) == Some((opt_text(x.token_prefix), x.token_raw@)) && was_valid(self.config, x.token_raw@)
            && x.token_payload.claims == claims_of(x.token_raw@) && x.scopes_claim == self.config.scopes_claim,
        r matches Ok(None) ==> !required(self.config),
        r is Err ==> required(self.config) && (r->Err_0 is LookupFailed == token_of(self.config.lookup_locations@, 0, *headers) is None),
        token_of(self.config.lookup_locations@, 0, *headers) matches Some(p) && (cache.held(p.1) is Some || forall|s: Seq<JwkSet>| valid(self.config, s, p.1)) ==> (r matches Ok(Some(_))),
//@ end
} // verus!
fn main() {}
