//@-- C13: which requests share one execution
//@ include ../lib/prelude.rs
//@ include ../lib/toks.rs
verus! {
// ---- trusted: what http's types are -----------------------------------------------------------------------
pub open spec fn bytes_toks(b: Seq<u8>) -> Toks { word(b.len() as int) + seq![Tok::Bytes(b)] }
#[verifier::external_body] pub struct Method { m: u8 }
impl Method { pub uninterp spec fn name(&self) -> Seq<char>; }
impl Feed for Method { open spec fn toks(&self) -> Toks { text(self.name()) } #[verifier::external_body] fn feed<H: Hasher>(&self, state: &mut H) { unimplemented!() } }
#[verifier::external_body] pub struct Uri { m: u8 }
impl Uri { pub uninterp spec fn written(&self) -> Seq<char>; }
impl Feed for Uri { open spec fn toks(&self) -> Toks { text(self.written()) } #[verifier::external_body] fn feed<H: Hasher>(&self, state: &mut H) { unimplemented!() } }
pub struct HeaderName { pub n: String }
impl HeaderName { pub fn as_str(&self) -> (r: &str) ensures r@ == self.n@ { self.n.as_str() } }
pub struct HeaderValue { pub b: Vec<u8> }
impl HeaderValue { #[verifier::external_body] pub fn as_bytes(&self) -> (r: &[u8]) ensures r@ == self.b@ { unimplemented!() } }
// headers, one entry for each value; the values of one name stand in the order they came in
pub struct HeaderMap { pub items: Vec<(HeaderName, HeaderValue)> }
pub type Pair<'a> = (&'a str, &'a [u8]);
pub type Line = (Seq<char>, Seq<u8>);
pub open spec fn line(h: (HeaderName, HeaderValue)) -> Line { (h.0.n@, h.1.b@) }
pub open spec fn lines(h: HeaderMap) -> Seq<Line> { h.items@.map_values(|x: (HeaderName, HeaderValue)| line(x)) }
pub open spec fn pair_line(p: Pair) -> Line { (p.0@, p.1@) }
pub open spec fn pair_lines(v: Seq<Pair>) -> Seq<Line> { v.map_values(|p: Pair| pair_line(p)) }
// the values of one name, in order
pub open spec fn named(n: Seq<char>) -> spec_fn(Line) -> bool { |x: Line| x.0 == n }
pub open spec fn values_of(l: Seq<Line>, n: Seq<char>) -> Seq<Line> { l.filter(named(n)) }
impl Feed for Vec<Pair<'_>> { open spec fn toks(&self) -> Toks { word(self@.len() as int) + lines_from(pair_lines(self@), 0) } #[verifier::external_body] fn feed<H: Hasher>(&self, state: &mut H) { unimplemented!() } }
impl Feed for Vec<u8> { open spec fn toks(&self) -> Toks { bytes_toks(self@) } #[verifier::external_body] fn feed<H: Hasher>(&self, state: &mut H) { unimplemented!() } }
pub open spec fn lines_from(l: Seq<Line>, i: int) -> Toks decreases l.len() - i { if 0 <= i < l.len() { text(l[i].0) + (bytes_toks(l[i].1) + lines_from(l, i + 1)) } else { Seq::empty() } }
// the stable sort by name leaves the values of each name as they stood (slice::sort_by_key)
pub uninterp spec fn by_name(l: Seq<Line>) -> Seq<Line>;
pub axiom fn by_name_values(l: Seq<Line>, n: Seq<char>) ensures values_of(by_name(l), n) == values_of(l, n);
#[verifier::external_body] pub fn sort_by_name(v: &mut Vec<Pair<'_>>) ensures pair_lines(final(v)@) == by_name(pair_lines(old(v)@)) { unimplemented!() }
// Iterator::filter / map / collect over the entries
pub fn header_lines<'a, F: Fn(&(&'a HeaderName, &'a HeaderValue)) -> bool, G: Fn((&'a HeaderName, &'a HeaderValue)) -> Pair<'a>>(h: &'a HeaderMap, keep: F, f: G) -> (r: Vec<Pair<'a>>)
    requires forall|x: &(&'a HeaderName, &'a HeaderValue)| #[trigger] keep.requires((x,)), forall|x: (&'a HeaderName, &'a HeaderValue)| #[trigger] f.requires((x,)),
    ensures forall|p: spec_fn(Line) -> bool|
        (forall|x: &(&'a HeaderName, &'a HeaderValue), b: bool| #[trigger] keep.ensures((x,), b) ==> b == p((x.0.n@, x.1.b@)))
        && (forall|x: (&'a HeaderName, &'a HeaderValue), y: Pair<'a>| #[trigger] f.ensures((x,), y) ==> pair_line(y) == (x.0.n@, x.1.b@))
        ==> pair_lines(r@) == #[trigger] lines(*h).filter(p),
{
    let mut r: Vec<Pair<'a>> = Vec::new();
    let mut i: usize = 0;
    let ghost good = |p: spec_fn(Line) -> bool| (forall|x: &(&'a HeaderName, &'a HeaderValue), b: bool| #[trigger] keep.ensures((x,), b) ==> b == p((x.0.n@, x.1.b@)))
        && (forall|x: (&'a HeaderName, &'a HeaderValue), y: Pair<'a>| #[trigger] f.ensures((x,), y) ==> pair_line(y) == (x.0.n@, x.1.b@));
    while i < h.items.len()
        invariant i <= h.items@.len(), forall|x: &(&'a HeaderName, &'a HeaderValue)| #[trigger] keep.requires((x,)), forall|x: (&'a HeaderName, &'a HeaderValue)| #[trigger] f.requires((x,)),
            forall|p: spec_fn(Line) -> bool| good(p) ==> pair_lines(r@) == #[trigger] lines(*h).take(i as int).filter(p),
            good == (|p: spec_fn(Line) -> bool| (forall|x: &(&'a HeaderName, &'a HeaderValue), b: bool| #[trigger] keep.ensures((x,), b) ==> b == p((x.0.n@, x.1.b@)))
        && (forall|x: (&'a HeaderName, &'a HeaderValue), y: Pair<'a>| #[trigger] f.ensures((x,), y) ==> pair_line(y) == (x.0.n@, x.1.b@))),
        decreases h.items@.len() - i
    {
        let x = (&h.items[i].0, &h.items[i].1);
        let ghost r0 = r@;
        let k = keep(&x);
        if k { let y = f(x); r.push(y); }
        proof {
            assert forall|p: spec_fn(Line) -> bool| good(p) implies pair_lines(r@) == #[trigger] lines(*h).take(i + 1).filter(p) by {
                let l = lines(*h); let x0 = line(h.items@[i as int]);
                assert(l.take(i + 1) =~= l.take(i as int).push(x0));
                l.take(i as int).lemma_filter_push(x0, p);
                assert(pair_lines(r0) == l.take(i as int).filter(p));
                if k { assert(pair_lines(r@) =~= pair_lines(r0).push(x0)); } else { assert(r@ =~= r0); }
            }
        }
        i = i + 1;
    }
    proof { assert(lines(*h).take(i as int) =~= lines(*h)); }
    r
}
proof fn from_empty4(a: Toks, b: Toks, c: Toks, d: Toks) ensures ((((Seq::<Tok>::empty() + a) + b) + c) + d) == a + (b + (c + d)) {
    let e = Seq::<Tok>::empty();
    chain4(e, a, b, c, d); assert(e + (a + (b + (c + d))) =~= a + (b + (c + d)));
}
// ---- which headers count ------------------------------------------------------------------------------------
#[verifier::external_body] pub struct Names { m: u8 }
impl Names {
    pub uninterp spec fn view(&self) -> Set<Seq<char>>;
    #[verifier::external_body] pub fn with_capacity(n: usize) -> (r: Names) ensures r@ == Set::<Seq<char>>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, s: String) ensures final(self)@ == old(self)@.insert(s@) { unimplemented!() }
    #[verifier::external_body] pub fn contains(&self, s: &str) -> (r: bool) ensures r == self@.contains(s@) { unimplemented!() }
}
pub struct HttpHeaderName(pub HeaderName);
impl HttpHeaderName { pub fn get_header_ref(&self) -> (r: &HeaderName) ensures *r == self.0 { &self.0 } }
//@ rewrite type HashSet<String> => Names
//@ rewrite expr HashSet::with_capacity(__n) => Names::with_capacity(__n)
//@ rewrite expr __s.to_owned() => owned(__s)
#[verifier::external_body] pub fn owned(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
//@ file bin/router/src/config/traffic_shaping.rs
//@ extract enum TrafficShapingRouterDedupeHeadersKeyword
//@ end
//@ extract enum TrafficShapingRouterDedupeHeadersConfig
//@ end
//@ file bin/router/src/shared_state.rs
//@ extract enum RouterRequestDedupeHeaderPolicy
//@ end
pub open spec fn counts(p: RouterRequestDedupeHeaderPolicy, n: Seq<char>) -> bool { match p { RouterRequestDedupeHeaderPolicy::All => true, RouterRequestDedupeHeaderPolicy::None => false, RouterRequestDedupeHeaderPolicy::Include(s) => s@.contains(n) } }
pub open spec fn keep(p: RouterRequestDedupeHeaderPolicy) -> spec_fn(Line) -> bool { |l: Line| counts(p, l.0) }
pub open spec fn listed(v: Seq<HttpHeaderName>, k: int, n: Seq<char>) -> bool { exists|i: int| 0 <= i < k && (#[trigger] v[i]).0.n@ == n }
pub open spec fn configured(c: TrafficShapingRouterDedupeHeadersConfig, n: Seq<char>) -> bool {
    match c { TrafficShapingRouterDedupeHeadersConfig::Keyword(TrafficShapingRouterDedupeHeadersKeyword::All) => true, TrafficShapingRouterDedupeHeadersConfig::Keyword(_) => false, TrafficShapingRouterDedupeHeadersConfig::Include { include } => listed(include@, include@.len() as int, n) }
}
//@ extract method RouterRequestDedupeHeaderPolicy::should_include
//@ opt ret r
//@ sec spec
    ensures r == counts(*self, header_name@)
//@ end
//@ extract method From<&TrafficShapingRouterDedupeHeadersConfig> for RouterRequestDedupeHeaderPolicy::from
//@ opt ret r
//@ sec spec
    ensures forall|n: Seq<char>| counts(r, n) == #[trigger] configured(*headers, n)
//@ sec loop 0 iter it
    invariant it.seq().len() == include@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == include@[i],
        forall|n: Seq<char>| #[trigger] dedupe_headers@.contains(n) <==> listed(include@, it.index@ as int, n)
//@ sec loopstart 0
    let ghost d0 = dedupe_headers@;
//@ sec loopend 0
    proof { assert forall|n: Seq<char>| #[trigger] dedupe_headers@.contains(n) <==> listed(include@, it.index@ + 1, n) by {
        if dedupe_headers@.contains(n) && n == header.0.n@ { assert(include@[it.index@ as int].0.n@ == n); }
        if d0.contains(n) { let i = choose|i: int| 0 <= i < it.index@ && (#[trigger] include@[i]).0.n@ == n; assert(include@[i].0.n@ == n); }
        if listed(include@, it.index@ + 1, n) { let i = choose|i: int| 0 <= i < it.index@ + 1 && (#[trigger] include@[i]).0.n@ == n; if i < it.index@ { assert(listed(include@, it.index@ as int, n)); } }
    } }
//@ end
// ---- the request as a whole ---------------------------------------------------------------------------------
//@ rewrite expr __x.hash(__h) => __x.feed(__h)
//@ rewrite expr __h.iter().filter(__p).map(__f).collect() => header_lines(__h, __p, __f)
//@ rewrite expr __v.sort_by_key(|(name, _)| *name) => sort_by_name(&mut __v)
//@ file bin/router/src/executor/executors/common.rs
//@ extract struct ConnectionFingerprint
//@ end
//@ extract struct InboundRequestFingerprint
//@ end
//@ extract method ConnectionFingerprint::from_hash
//@ opt ret r
//@ sec spec
    ensures r.0 == hash
//@ end
//@ extract method InboundRequestFingerprint::from_hash
//@ opt ret r
//@ sec spec
    ensures r.0 == hash
//@ end
// trusted: what #[derive(Hash)] does
impl Feed for ConnectionFingerprint { open spec fn toks(&self) -> Toks { word(self.0 as int) } #[verifier::external_body] fn feed<H: Hasher>(&self, state: &mut H) { unimplemented!() } }
pub open spec fn counted(h: HeaderMap, p: RouterRequestDedupeHeaderPolicy) -> Seq<Line> { by_name(lines(h).filter(keep(p))) }
pub open spec fn vec_toks(l: Seq<Line>) -> Toks { word(l.len() as int) + lines_from(l, 0) }
pub open spec fn conn_toks(m: Method, path: Seq<char>, h: HeaderMap, p: RouterRequestDedupeHeaderPolicy, sum: u64) -> Toks { text(m.name()) + (text(path) + (vec_toks(counted(h, p)) + word(sum as int))) }
//@ file bin/router/src/pipeline/mod.rs
//@ extract fn connection_fingerprint
//@ opt ret r
//@ sec spec
    ensures r.0 == digest(conn_toks(*method, path@, *request_headers, *header_policy, schema_checksum))
//@ sec closure 0
    |__p: &(&HeaderName, &HeaderValue)| -> (r: bool) ensures r == counts(*header_policy, __p.0.n@)
//@ sec closure 1
    |__p: (&HeaderName, &HeaderValue)| -> (r: (&str, &[u8])) ensures pair_line(r) == (__p.0.n@, __p.1.b@)
//@ sec before call sort_by_key 0
    proof { assert(pair_lines(headers@) == lines(*request_headers).filter(keep(*header_policy))); }
//@ sec before call finish 0
    proof { from_empty4(text(method.name()), text(path@), vec_toks(counted(*request_headers, *header_policy)), word(schema_checksum as int)); }
//@ end
pub open spec fn inbound_toks(c: ConnectionFingerprint, o: u64, v: u64, e: u64) -> Toks { word(c.0 as int) + (word(o as int) + (word(v as int) + word(e as int))) }
//@ extract fn inbound_request_fingerprint
//@ opt ret r
//@ sec spec
    ensures r.0 == digest(inbound_toks(connection, normalized_operation_hash, variables_hash, extensions_hash))
//@ sec before call finish 0
    proof { from_empty4(word(connection.0 as int), word(normalized_operation_hash as int), word(variables_hash as int), word(extensions_hash as int)); }
//@ end
// what is read off one list of headers is read off an equal one
proof fn cut_bytes(a: Seq<u8>, b: Seq<u8>, ra: Toks, rb: Toks) requires bytes_toks(a) + ra == bytes_toks(b) + rb ensures a == b, ra == rb {
    add3(word(a.len() as int), seq![Tok::Bytes(a)], ra); add3(word(b.len() as int), seq![Tok::Bytes(b)], rb);
    let (x, y) = (seq![Tok::Bytes(a)] + ra, seq![Tok::Bytes(b)] + rb);
    cut_word(a.len() as int, b.len() as int, x, y);
    assert(x[0] == Tok::Bytes(a)); assert(y[0] == Tok::Bytes(b)); assert(ra =~= x.skip(1)); assert(rb =~= y.skip(1));
}
proof fn cut_lines(a: Seq<Line>, b: Seq<Line>, i: int, ra: Toks, rb: Toks)
    requires a.len() == b.len(), 0 <= i <= a.len(), lines_from(a, i) + ra == lines_from(b, i) + rb
    ensures forall|j: int| i <= j < a.len() ==> #[trigger] a[j] == b[j], ra == rb
    decreases a.len() - i
{
    if i < a.len() {
        let (u, v) = (bytes_toks(a[i].1), bytes_toks(b[i].1)); let (p, q) = (lines_from(a, i + 1), lines_from(b, i + 1));
        add3(text(a[i].0), u + p, ra); add3(text(b[i].0), v + q, rb);
        add3(u, p, ra); add3(v, q, rb);
        cut_text(a[i].0, b[i].0, u + (p + ra), v + (q + rb));
        cut_bytes(a[i].1, b[i].1, p + ra, q + rb);
        cut_lines(a, b, i + 1, ra, rb);
    } else { assert(lines_from(a, i) + ra =~= ra); assert(lines_from(b, i) + rb =~= rb); }
}
proof fn cut_vec(a: Seq<Line>, b: Seq<Line>, ra: Toks, rb: Toks) requires vec_toks(a) + ra == vec_toks(b) + rb ensures a == b, ra == rb {
    add3(word(a.len() as int), lines_from(a, 0), ra); add3(word(b.len() as int), lines_from(b, 0), rb);
    cut_word(a.len() as int, b.len() as int, lines_from(a, 0) + ra, lines_from(b, 0) + rb);
    cut_lines(a, b, 0, ra, rb); assert(a =~= b);
}
// what every header that counts says, value by value, in order
pub open spec fn says(h: HeaderMap, n: Seq<char>) -> Seq<Line> { values_of(lines(h), n) }
proof fn counted_values(h: HeaderMap, p: RouterRequestDedupeHeaderPolicy, n: Seq<char>) requires counts(p, n) ensures values_of(counted(h, p), n) == says(h, n) {
    let l = lines(h); by_name_values(l.filter(keep(p)), n);
    values_kept(l, p, n);
}
proof fn values_kept(l: Seq<Line>, p: RouterRequestDedupeHeaderPolicy, n: Seq<char>) requires counts(p, n) ensures values_of(l.filter(keep(p)), n) == values_of(l, n) decreases l.len() {
    let f = keep(p); let g = named(n);
    if l.len() == 0 { reveal(Seq::filter); assert(l.filter(f) =~= l); } else {
        let m = l.drop_last(); let x = l.last();
        values_kept(m, p, n);
        assert(l =~= m.push(x));
        m.lemma_filter_push(x, f); m.lemma_filter_push(x, g); m.filter(f).lemma_filter_push(x, g);
    }
}
// two requests that share a key ask the same: method, path, every value of every header that counts, schema
pub proof fn one_key_one_question(m: Method, n: Method, a: Seq<char>, b: Seq<char>, h: HeaderMap, k: HeaderMap, p: RouterRequestDedupeHeaderPolicy, s: u64, t: u64)
    requires conn_toks(m, a, h, p, s) == conn_toks(n, b, k, p, t)
    ensures m.name() == n.name(), a == b, s == t, forall|x: Seq<char>| counts(p, x) ==> #[trigger] says(h, x) == says(k, x)
{
    let (u, v) = (counted(h, p), counted(k, p));
    cut_text(m.name(), n.name(), text(a) + (vec_toks(u) + word(s as int)), text(b) + (vec_toks(v) + word(t as int)));
    cut_text(a, b, vec_toks(u) + word(s as int), vec_toks(v) + word(t as int));
    cut_vec(u, v, word(s as int), word(t as int));
    assert(word(s as int)[0] == Tok::Word(s as int)); assert(word(t as int)[0] == Tok::Word(t as int));
    assert forall|x: Seq<char>| counts(p, x) implies #[trigger] says(h, x) == says(k, x) by { counted_values(h, p, x); counted_values(k, p, x); }
}
pub proof fn one_key_one_request(c: ConnectionFingerprint, o: u64, v: u64, e: u64, d: ConnectionFingerprint, q: u64, w: u64, f: u64)
    requires inbound_toks(c, o, v, e) == inbound_toks(d, q, w, f)
    ensures c.0 == d.0, o == q, v == w, e == f
{
    let (x, y) = (inbound_toks(c, o, v, e), inbound_toks(d, q, w, f));
    assert(x[0] == Tok::Word(c.0 as int) && x[1] == Tok::Word(o as int) && x[2] == Tok::Word(v as int) && x[3] == Tok::Word(e as int));
    assert(y[0] == Tok::Word(d.0 as int) && y[1] == Tok::Word(q as int) && y[2] == Tok::Word(w as int) && y[3] == Tok::Word(f as int));
}
// ---- requests to subgraphs ----------------------------------------------------------------------------------
pub struct SendRequestOpts<'a> { pub endpoint: &'a Uri, pub method: Method, pub body: Vec<u8>, pub headers: HeaderMap }
//@ rewrite expr __h.iter().map(__f).collect() => all_lines(&__h, __f)
//@ rewrite path std::hash::Hasher => Hasher
pub fn all_lines<'a, G: Fn((&'a HeaderName, &'a HeaderValue)) -> Pair<'a>>(h: &'a HeaderMap, f: G) -> (r: Vec<Pair<'a>>)
    requires forall|x: (&'a HeaderName, &'a HeaderValue)| #[trigger] f.requires((x,)), forall|x: (&'a HeaderName, &'a HeaderValue), y: Pair<'a>| #[trigger] f.ensures((x,), y) ==> pair_line(y) == (x.0.n@, x.1.b@),
    ensures pair_lines(r@) == lines(*h)
{
    let mut r: Vec<Pair<'a>> = Vec::new();
    let mut i: usize = 0;
    while i < h.items.len()
        invariant i <= h.items@.len(), forall|x: (&'a HeaderName, &'a HeaderValue)| #[trigger] f.requires((x,)), forall|x: (&'a HeaderName, &'a HeaderValue), y: Pair<'a>| #[trigger] f.ensures((x,), y) ==> pair_line(y) == (x.0.n@, x.1.b@),
            pair_lines(r@) =~= lines(*h).take(i as int),
        decreases h.items@.len() - i
    {
        let x = (&h.items[i].0, &h.items[i].1);
        let ghost r0 = r@;
        let y = f(x); r.push(y);
        proof { assert(lines(*h).take(i + 1) =~= lines(*h).take(i as int).push(line(h.items@[i as int]))); assert(pair_lines(r@) =~= pair_lines(r0).push(pair_line(y))); }
        i = i + 1;
    }
    proof { assert(lines(*h).take(i as int) =~= lines(*h)); }
    r
}
pub open spec fn sent_toks(o: SendRequestOpts) -> Toks { text(o.method.name()) + (text(o.endpoint.written()) + (vec_toks(by_name(lines(o.headers))) + bytes_toks(o.body@))) }
//@ file bin/router/src/executor/executors/dedupe.rs
//@ extract method Hash for SendRequestOpts::hash
//@ sec spec
    ensures final(state).toks() == old(state).toks() + sent_toks(*self)
//@ sec closure 0
    |__p: (&HeaderName, &HeaderValue)| -> (r: (&str, &[u8])) ensures pair_line(r) == (__p.0.n@, __p.1.b@)
//@ sec tail
    proof { chain4(old(state).toks(), text(self.method.name()), text(self.endpoint.written()), vec_toks(by_name(lines(self.headers))), bytes_toks(self.body@)); }
//@ end
impl Feed for SendRequestOpts<'_> { open spec fn toks(&self) -> Toks { sent_toks(*self) } fn feed<H: Hasher>(&self, state: &mut H) { self.hash(state) } }
//@ extract method SendRequestOpts::fingerprint
//@ opt ret r
//@ sec spec
    ensures r == digest(sent_toks(*self))
//@ sec before call finish 0
    proof { assert(Seq::<Tok>::empty() + sent_toks(*self) =~= sent_toks(*self)); }
//@ end
pub proof fn one_key_one_fetch(a: SendRequestOpts, b: SendRequestOpts) requires sent_toks(a) == sent_toks(b)
    ensures a.method.name() == b.method.name(), a.endpoint.written() == b.endpoint.written(), a.body@ == b.body@, forall|x: Seq<char>| #[trigger] says(a.headers, x) == says(b.headers, x)
{
    let (u, v) = (by_name(lines(a.headers)), by_name(lines(b.headers))); let (x, y) = (bytes_toks(a.body@), bytes_toks(b.body@));
    cut_text(a.method.name(), b.method.name(), text(a.endpoint.written()) + (vec_toks(u) + x), text(b.endpoint.written()) + (vec_toks(v) + y));
    cut_text(a.endpoint.written(), b.endpoint.written(), vec_toks(u) + x, vec_toks(v) + y);
    cut_vec(u, v, x, y);
    assert(x + Seq::empty() =~= x); assert(y + Seq::empty() =~= y); cut_bytes(a.body@, b.body@, Seq::empty(), Seq::empty());
    assert forall|n: Seq<char>| #[trigger] says(a.headers, n) == says(b.headers, n) by { by_name_values(lines(a.headers), n); by_name_values(lines(b.headers), n); }
}
} // verus!
fn main() {}
