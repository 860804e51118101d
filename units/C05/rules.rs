//@-- C05: header rules
//@ include ../lib/prelude.rs
verus! {
//@ dropmacro warn debug trace info error
// ---- trusted: names, values and maps of the http crate, with their meaning -------------------------
#[verifier::external_body] pub struct HeaderName { m: u8 }
impl View for HeaderName { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl HeaderName { #[verifier::external_body] pub fn as_str(&self) -> (r: &str) ensures r@ == self@ { unimplemented!() } }
impl Clone for HeaderName { #[verifier::external_body] fn clone(&self) -> (r: HeaderName) ensures r@ == self@ { unimplemented!() } }
pub type B = Seq<u8>;
#[verifier::external_body] pub struct HeaderValue { m: u8 }
impl View for HeaderValue { type V = B; uninterp spec fn view(&self) -> B; }
impl Clone for HeaderValue { #[verifier::external_body] fn clone(&self) -> (r: HeaderValue) ensures r@ == self@ { unimplemented!() } }
impl HeaderValue { #[verifier::external_body] pub fn copied(&self) -> (r: HeaderValue) ensures r@ == self@ { unimplemented!() } }
pub open spec fn vals(v: Seq<HeaderValue>) -> Seq<B> { v.map_values(|x: HeaderValue| x@) }
pub broadcast proof fn vals_push(v: Seq<HeaderValue>, x: HeaderValue) ensures #[trigger] vals(v.push(x)) == vals(v).push(x@) { assert(vals(v.push(x)) =~= vals(v).push(x@)); }
pub proof fn vals_none(v: Seq<HeaderValue>) requires v.len() == 0 ensures vals(v) =~= seq![] {}
pub open spec fn names(v: Seq<HeaderName>) -> Seq<Seq<char>> { v.map_values(|x: HeaderName| x@) }
// the lines of each name, in order; a name without lines is absent
#[verifier::external_body] pub struct HeaderMap { m: u8 }
impl HeaderMap {
    pub uninterp spec fn lines(&self, n: Seq<char>) -> Seq<B>;
    #[verifier::external_body] pub fn get_all_vec(&self, n: &HeaderName) -> (r: Vec<HeaderValue>) ensures vals(r@) == self.lines(n@) { unimplemented!() }
    // every line with its name
    #[verifier::external_body] pub fn all(&self) -> (r: Vec<(&HeaderName, &HeaderValue)>) ensures forall|n: Seq<char>| #[trigger] self.lines(n) == only(r@, n) { unimplemented!() }
    #[verifier::external_body] pub fn append(&mut self, n: &HeaderName, v: HeaderValue)
        ensures final(self).lines(n@) == old(self).lines(n@).push(v@), forall|m: Seq<char>| m != n@ ==> #[trigger] final(self).lines(m) == old(self).lines(m) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, n: HeaderName, v: HeaderValue)
        ensures final(self).lines(n@) == seq![v@], forall|m: Seq<char>| m != n@ ==> #[trigger] final(self).lines(m) == old(self).lines(m) { unimplemented!() }
    #[verifier::external_body] pub fn remove(&mut self, n: &HeaderName)
        ensures final(self).lines(n@).len() == 0, forall|m: Seq<char>| m != n@ ==> #[trigger] final(self).lines(m) == old(self).lines(m) { unimplemented!() }
}
pub open spec fn only(s: Seq<(&HeaderName, &HeaderValue)>, n: Seq<char>) -> Seq<B> decreases s.len() {
    if s.len() == 0 { seq![] } else if s.last().0@ == n { only(s.drop_last(), n).push(s.last().1@) } else { only(s.drop_last(), n) }
}
#[verifier::external_body] pub struct Regex { m: u8 }
pub uninterp spec fn matches(r: Regex, n: Seq<char>) -> bool;
impl Regex { #[verifier::external_body] pub fn is_match_name(&self, n: &HeaderName) -> (r: bool) ensures r == matches(*self, n@) { unimplemented!() } }
pub open spec fn selected(i: Option<Regex>, x: Option<Regex>, n: Seq<char>) -> bool { i is Some && matches(i->0, n) && !(x is Some && matches(x->0, n)) }
pub fn opt_or_ref<'a, T>(o: &'a Option<T>, d: &'a T) -> (r: &'a T) ensures o is Some ==> *r == o->0, o is None ==> r == d { match o { Some(x) => x, None => d } }
pub fn first_of<T>(v: &Vec<T>) -> (r: Option<&T>) ensures r is Some <==> v@.len() > 0, r matches Some(x) ==> *x == v@[0] { if v.len() > 0 { Some(&v[0]) } else { None } }
pub fn opt_excludes(o: &Option<Regex>, n: &HeaderName) -> (r: bool) ensures r == (o is Some && matches(o->0, n@)) { match o { Some(x) => x.is_match_name(n), None => false } }
// ---- which names are denied: the lists themselves are the bounded run's ---------------------------------
pub uninterp spec fn hop(n: Seq<char>) -> bool;
pub uninterp spec fn owned(n: Seq<char>) -> bool;
pub uninterp spec fn alone(n: Seq<char>) -> bool;
#[verifier::external_body] pub fn hop_list(n: &str) -> (r: bool) ensures r == hop(n@) { unimplemented!() }
#[verifier::external_body] pub fn owned_list(n: &str) -> (r: bool) ensures r == owned(n@) { unimplemented!() }
#[verifier::external_body] pub fn alone_list(n: &str) -> (r: bool) ensures r == alone(n@) { unimplemented!() }
//@ file bin/router/src/executor/headers/sanitizer.rs
//@ rewrite expr HOP_BY_HOP_HEADERS.contains(&name.as_str()) => hop_list(name.as_str())
//@ rewrite expr ROUTER_OWNED_RESPONSE_HEADERS.contains(&name.as_str()) => owned_list(name.as_str())
//@ rewrite expr NEVER_JOIN_HEADERS.contains(&name.as_str()) => alone_list(name.as_str())
//@ rewrite path http::HeaderName => HeaderName
//@ extract fn is_denied_header
//@ opt ret r
//@ sec spec
    ensures r == hop(name@)
//@ end
//@ extract fn is_denied_response_header
//@ opt ret r
//@ sec spec
    ensures r == (hop(name@) || owned(name@))
//@ end
//@ extract fn is_never_join_header
//@ opt ret r
//@ sec spec
    ensures r == alone(name@)
//@ end
// ---- request rules -------------------------------------------------------------------------------------
pub struct HeaderRuleRuntimeError { pub m: u8 }
pub struct ClientRequestDetails { pub headers: HeaderMap }
pub struct RequestExpressionContext<'a> { pub client_request: &'a ClientRequestDetails }
pub open spec fn dest(rename: Option<HeaderName>, n: Seq<char>) -> Seq<char> { match rename { Some(r) => r@, None => n } }
// what the first k names add under a name
pub open spec fn adds(client: HeaderMap, v: Seq<HeaderName>, k: nat, rename: Option<HeaderName>, n: Seq<char>) -> Seq<B> decreases k {
    if k == 0 || k > v.len() { seq![] } else {
        let s = v[k - 1]@;
        let d = dest(rename, s);
        adds(client, v, (k - 1) as nat, rename, n) + if hop(s) || hop(d) || d != n { seq![] } else { client.lines(s) }
    }
}
pub open spec fn any_of(client: HeaderMap, v: Seq<HeaderName>, k: nat, rename: Option<HeaderName>) -> bool decreases k {
    if k == 0 || k > v.len() { false } else { any_of(client, v, (k - 1) as nat, rename) || (!hop(v[k - 1]@) && !hop(dest(rename, v[k - 1]@)) && client.lines(v[k - 1]@).len() > 0) }
}
//@ file bin/router/src/executor/headers/plan.rs
//@ extract struct RequestPropagateNamed
//@ end
//@ extract struct RequestPropagateRegex
//@ end
//@ extract struct RequestInsertStatic
//@ end
//@ extract struct RequestRemoveNamed
//@ end
//@ file bin/router/src/executor/headers/request.rs
//@ rewrite expr self.rename.as_ref().unwrap_or(__n) => opt_or_ref(&self.rename, __n)
//@ rewrite expr self.names.first() => first_of(&self.names)
//@ rewrite expr ctx.client_request.headers.get_all(header_name) => ctx.client_request.headers.get_all_vec(header_name)
//@ rewrite expr ctx.client_request.headers.iter() => ctx.client_request.headers.all()
//@ rewrite expr header_value.into() => header_value.copied()
//@ extract method ApplyRequestHeader for RequestPropagateNamed::apply_request_headers
//@ opt ret r
//@ sec spec
    ensures r is Ok,
        forall|n: Seq<char>| #[trigger] final(output_headers).lines(n) == old(output_headers).lines(n) + adds(ctx.client_request.headers, self.names@, self.names@.len(), self.rename, n)
            + if !any_of(ctx.client_request.headers, self.names@, self.names@.len(), self.rename) && self.default is Some && self.names@.len() > 0
                && dest(self.rename, self.names@[0]@) == n && !hop(n) { seq![self.default->0@] } else { seq![] },
//@ sec before-loop 0
        let ghost client = ctx.client_request.headers;
        proof { assert forall|n: Seq<char>| #[trigger] output_headers.lines(n) =~= old(output_headers).lines(n) + seq![] by {} }
//@ sec loop 0 iter it
        invariant
            it.seq().len() == self.names@.len(), client == ctx.client_request.headers,
            forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == self.names@[i],
            matched == any_of(client, self.names@, it.index@ as nat, self.rename),
            forall|n: Seq<char>| #[trigger] output_headers.lines(n) == old(output_headers).lines(n) + adds(client, self.names@, it.index@ as nat, self.rename, n),
//@ sec loopstart 0
        let ghost out0 = *output_headers;
        let ghost m0 = matched;
        proof {
            assert(*header_name == self.names@[it.index@]);
            assert forall|n: Seq<char>| old(output_headers).lines(n) + adds(client, self.names@, it.index@ as nat, self.rename, n) + seq![] =~= #[trigger] out0.lines(n) by {}
        }
//@ sec loop 1 iter ij
        invariant
            destination_name@ == dest(self.rename, header_name@), vals(ij.seq()) == client.lines(header_name@),
            matched == (m0 || ij.index@ > 0),
            forall|n: Seq<char>| #[trigger] output_headers.lines(n) == out0.lines(n) + if n == destination_name@ { vals(ij.seq()).take(ij.index@) } else { seq![] },
//@ sec before-loop 1
        proof { assert forall|n: Seq<char>| #[trigger] output_headers.lines(n) =~= out0.lines(n) + seq![] by {} assert(client.lines(header_name@).take(0) =~= seq![]); }
//@ sec loopstart 1
        let ghost out1 = *output_headers;
        proof { assert(vals(ij.seq()).take(ij.index@ + 1) =~= vals(ij.seq()).take(ij.index@).push(header_value@)); }
//@ sec loopend 1
        proof { assert forall|n: Seq<char>| #[trigger] output_headers.lines(n) =~= out0.lines(n) + if n == destination_name@ { vals(ij.seq()).take(ij.index@ + 1) } else { seq![] } by { let _ = out1.lines(n); } }
//@ sec after-loop 1
        proof {
            assert(client.lines(header_name@).take(client.lines(header_name@).len() as int) =~= client.lines(header_name@));
            assert forall|n: Seq<char>| #[trigger] output_headers.lines(n) =~= old(output_headers).lines(n) + adds(client, self.names@, (it.index@ + 1) as nat, self.rename, n) by { let _ = out0.lines(n); }
        }
//@ sec after-loop 0
        let ghost out2 = *output_headers;
        proof { assert forall|n: Seq<char>| #[trigger] out2.lines(n) + seq![] =~= out2.lines(n) by {} }
//@ end
// a header line passes when its name is not denied and the patterns select it
pub open spec fn passes(inc: Option<Regex>, exc: Option<Regex>, n: Seq<char>) -> bool { !hop(n) && selected(inc, exc, n) }
//@ rewrite expr header_name.as_str().as_bytes() => header_name
//@ rewrite expr include_regex.is_match(header_bytes) => include_regex.is_match_name(header_bytes)
//@ rewrite expr self.exclude.as_ref().is_some_and(|regex| regex.is_match(header_bytes)) => opt_excludes(&self.exclude, header_bytes)
//@ extract method ApplyRequestHeader for RequestPropagateRegex::apply_request_headers
//@ opt ret r
//@ sec spec
    ensures r is Ok,
        forall|n: Seq<char>| #[trigger] final(output_headers).lines(n) == old(output_headers).lines(n) + if passes(self.include, self.exclude, n) { ctx.client_request.headers.lines(n) } else { seq![] },
//@ sec before-loop 0
        proof { assert forall|n: Seq<char>| #[trigger] output_headers.lines(n) =~= old(output_headers).lines(n) + seq![] by {} }
//@ sec loop 0 iter it
        invariant
            forall|n: Seq<char>| ctx.client_request.headers.lines(n) == #[trigger] only(it.seq(), n),
            it.index@ == it.seq().len() ==> it.seq().take(it.index@) =~= it.seq(),
            forall|n: Seq<char>| #[trigger] output_headers.lines(n) == old(output_headers).lines(n) + if passes(self.include, self.exclude, n) { only(it.seq().take(it.index@), n) } else { seq![] },
//@ sec loopstart 0
        let ghost out0 = *output_headers;
        proof {
            let t = it.seq().take(it.index@ + 1);
            assert(t.drop_last() =~= it.seq().take(it.index@));
            assert(t.last().0 == header_name && t.last().1 == header_value);
            assert forall|n: Seq<char>| only(t, n) == #[trigger] only(it.seq().take(it.index@), n) + if header_name@ == n { seq![header_value@] } else { seq![] } by {
                assert(only(t.drop_last(), n) + Seq::<B>::empty() =~= only(t.drop_last(), n));
                assert(only(t.drop_last(), n) + seq![header_value@] =~= only(t.drop_last(), n).push(header_value@));
            }
            assert forall|n: Seq<char>| n != header_name@ || !passes(self.include, self.exclude, n) implies #[trigger] out0.lines(n) == old(output_headers).lines(n) + if passes(self.include, self.exclude, n) { only(t, n) } else { seq![] } by {
                assert(only(it.seq().take(it.index@), n) + Seq::<B>::empty() =~= only(it.seq().take(it.index@), n));
            }
        }
//@ sec loopend 0
        proof {
            let t = it.seq().take(it.index@ + 1);
            assert forall|n: Seq<char>| #[trigger] output_headers.lines(n) == old(output_headers).lines(n) + if passes(self.include, self.exclude, n) { only(t, n) } else { seq![] } by {
                let _ = out0.lines(n);
                assert(old(output_headers).lines(n) + only(it.seq().take(it.index@), n) + seq![header_value@] =~= old(output_headers).lines(n) + (only(it.seq().take(it.index@), n) + seq![header_value@]));
            }
        }
//@ end
//@ rewrite expr output_headers.append(self.name.clone(), __v) => output_headers.append(&self.name, __v)
//@ extract method ApplyRequestHeader for RequestInsertStatic::apply_request_headers
//@ opt ret r
//@ sec spec
    ensures r is Ok,
        forall|n: Seq<char>| n != self.name@ || hop(n) ==> #[trigger] final(output_headers).lines(n) == old(output_headers).lines(n),
        !hop(self.name@) ==> final(output_headers).lines(self.name@) == if alone(self.name@) { old(output_headers).lines(self.name@).push(self.value@) } else { seq![self.value@] },
//@ end
//@ extract method ApplyRequestHeader for RequestRemoveNamed::apply_request_headers
//@ opt ret r
//@ sec spec
    ensures r is Ok,
        forall|n: Seq<char>| #[trigger] final(output_headers).lines(n) == if !hop(n) && exists|i: int| 0 <= i < self.names@.len() && (#[trigger] self.names@[i])@ == n { seq![] } else { old(output_headers).lines(n) },
//@ sec loop 0 iter it
        invariant
            it.seq().len() == self.names@.len(),
            forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == self.names@[i],
            forall|n: Seq<char>| #[trigger] output_headers.lines(n) == if !hop(n) && exists|i: int| 0 <= i < it.index@ && (#[trigger] self.names@[i])@ == n { seq![] } else { old(output_headers).lines(n) },
//@ sec loopstart 0
        let ghost out0 = *output_headers;
        proof { assert(*header_name == self.names@[it.index@]); }
//@ sec loopend 0
        proof { assert forall|n: Seq<char>| #[trigger] output_headers.lines(n) == if !hop(n) && exists|i: int| 0 <= i < it.index@ + 1 && (#[trigger] self.names@[i])@ == n { seq![] } else { old(output_headers).lines(n) } by {
            let _ = out0.lines(n);
            if n == header_name@ { assert(self.names@[it.index@]@ == n); assert(output_headers.lines(n) =~= seq![]); }
        } }
//@ end
// ---- aggregation of responses ----------------------------------------------------------------------------
//@ file bin/router/src/executor/headers/plan.rs
//@ extract enum HeaderAggregationStrategy
//@ opt derive Clone, Copy
//@ end
//@ extract struct ResponsePropagateNamed
//@ end
//@ extract struct ResponsePropagateRegex
//@ end
//@ extract struct ResponseInsertStatic
//@ end
//@ extract struct ResponseRemoveNamed
//@ end
pub type Slot = (HeaderAggregationStrategy, Seq<B>);
#[verifier::external_body] pub struct Entries { m: u8 }
pub open spec fn slot(v: (HeaderAggregationStrategy, Vec<HeaderValue>)) -> Slot { (v.0, vals(v.1@)) }
impl View for Entries { type V = Map<Seq<char>, Slot>; uninterp spec fn view(&self) -> Map<Seq<char>, Slot>; }
impl Entries {
    #[verifier::external_body] pub fn contains_key(&self, k: &HeaderName) -> (r: bool) ensures r == self@.dom().contains(k@) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: HeaderName, v: (HeaderAggregationStrategy, Vec<HeaderValue>)) ensures final(self)@ == old(self)@.insert(k@, slot(v)) { unimplemented!() }
    #[verifier::external_body] pub fn remove(&mut self, k: &HeaderName) ensures final(self)@ == old(self)@.remove(k@) { unimplemented!() }
    #[verifier::external_body] pub fn get_mut(&mut self, k: &HeaderName) -> (r: Option<&mut (HeaderAggregationStrategy, Vec<HeaderValue>)>)
        ensures r is Some <==> old(self)@.dom().contains(k@), r is None ==> final(self)@ == old(self)@,
            r matches Some(x) ==> slot(*x) == old(self)@[k@] && final(self)@ == old(self)@.insert(k@, slot(*final(x))) { unimplemented!() }
}
pub open spec fn written(e: Map<Seq<char>, Slot>, n: Seq<char>, v: B, s: HeaderAggregationStrategy) -> Map<Seq<char>, Slot> {
    if !e.dom().contains(n) { e.insert(n, (if alone(n) { HeaderAggregationStrategy::Append } else { s }, seq![v])) } else {
        let (t, vs) = e[n];
        e.insert(n, (t, match t { HeaderAggregationStrategy::First => if vs.len() == 0 { vs.push(v) } else { vs }, HeaderAggregationStrategy::Last => seq![v], HeaderAggregationStrategy::Append => vs.push(v) }))
    }
}
pub fn one_value(v: HeaderValue) -> (r: Vec<HeaderValue>) ensures vals(r@) == seq![v@] { let mut x = Vec::new(); x.push(v); proof { assert(vals(x@) =~= seq![v@]); } x }
//@ file bin/router/src/executor/headers/response.rs
//@ rewrite type HashMap<HeaderName,AggregatedHeader> => Entries
//@ rewrite expr once(value.clone()).collect() => one_value(value.clone())
//@ extract struct ResponseHeaderAggregator
//@ end
//@ extract method ResponseHeaderAggregator::write
//@ sec spec
    ensures final(self).entries@ =~= written(old(self).entries@, name@, value@, strategy),
//@ sec start
        broadcast use vals_push;
        proof { vals_none(seq![]); }
//@ sec after call clear 0
        proof { vals_none(values@); assert(Seq::<B>::empty().push(value@) =~= seq![value@]); }
//@ end
// the lines of one response are parts of one value
pub open spec fn comma() -> B { seq![44u8, 32u8] }
pub open spec fn joined(v: Seq<B>, k: nat) -> B decreases k { if k == 0 || k > v.len() { seq![] } else if k == 1 { v[0] } else { joined(v, (k - 1) as nat) + comma() + v[k - 1] } }
pub uninterp spec fn valid(b: B) -> bool;
pub struct InvalidHeaderValue { pub m: u8 }
impl HeaderValue {
    #[verifier::external_body] pub fn as_bytes(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn from_bytes(b: &Vec<u8>) -> (r: Result<HeaderValue, InvalidHeaderValue>) ensures r is Ok <==> valid(b@), r is Ok ==> r->Ok_0@ == b@ { unimplemented!() }
}
#[verifier::external_body] pub fn with_room(cap: usize) -> (r: Vec<u8>) ensures r@.len() == 0 { unimplemented!() }
pub fn put_comma(buf: &mut Vec<u8>) ensures final(buf)@ == old(buf)@ + comma() { buf.push(44); buf.push(32); proof { assert(buf@ =~= old(buf)@ + comma()); } }
pub fn put_bytes(buf: &mut Vec<u8>, b: &[u8]) ensures final(buf)@ == old(buf)@ + b@ { buf.extend_from_slice(b); proof { assert(buf@ =~= old(buf)@ + b@); } }
pub fn bad_value<T>(r: Result<T, InvalidHeaderValue>) -> (q: Result<T, HeaderRuleRuntimeError>) ensures q is Ok <==> r is Ok, q is Ok ==> q->Ok_0 == r->Ok_0 { match r { Ok(x) => Ok(x), Err(_) => Err(HeaderRuleRuntimeError { m: 0 }) } }
//@ rewrite expr buf.extend_from_slice(b", ") => put_comma(&mut buf)
//@ rewrite expr buf.extend_from_slice(value.as_bytes()) => put_bytes(&mut buf, value.as_bytes())
//@ rewrite expr join_with_comma(&lines).map_err(__f)? => bad_value(join_with_comma(lines.as_slice()))?
//@ rewrite expr headers.get_all(name).iter().cloned().collect() => headers.get_all_vec(name)
pub fn numbered<T>(v: &[T]) -> (r: Vec<(usize, &T)>) ensures r@.len() == v@.len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0 == i && *r@[i].1 == v@[i] {
    let mut r: Vec<(usize, &T)> = Vec::new(); let mut k: usize = 0;
    while k < v.len() invariant k <= v@.len(), r@.len() == k, forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0 == i && *r@[i].1 == v@[i], decreases v@.len() - k { r.push((k, &v[k])); k += 1; }
    r
}
//@ rewrite expr values.iter().enumerate() => numbered(values)
//@ rewrite expr Vec::with_capacity(cap) => with_room(cap)
//@ rewrite expr cap += __e => cap = cap.wrapping_add(__e)
//@ rewrite expr 2 * (values.len() - 1) => 2usize.wrapping_mul(values.len() - 1)
//@ extract fn join_with_comma
//@ opt ret r
//@ sec spec
    ensures r is Ok <==> valid(joined(vals(values@), values@.len())), r is Ok ==> r->Ok_0@ == joined(vals(values@), values@.len()),
//@ sec loop 1 iter it
        invariant buf@ == joined(vals(values@), it.index@ as nat), it.seq().len() == values@.len(), forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i]).0 == i && *it.seq()[i].1 == values@[i],
//@ end
// what one header of one response adds under a name
pub open spec fn passed(e: Map<Seq<char>, Slot>, h: HeaderMap, n: Seq<char>, to: Seq<char>, s: HeaderAggregationStrategy) -> Map<Seq<char>, Slot> {
    let ls = h.lines(n);
    if ls.len() == 0 { e } else if alone(n) || ls.len() == 1 { each(e, ls, ls.len(), to, s) } else { written(e, to, joined(ls, ls.len()), s) }
}
pub open spec fn each(e: Map<Seq<char>, Slot>, ls: Seq<B>, k: nat, to: Seq<char>, s: HeaderAggregationStrategy) -> Map<Seq<char>, Slot> decreases k {
    if k == 0 || k > ls.len() { e } else { written(each(e, ls, (k - 1) as nat, to, s), to, ls[k - 1], s) }
}
//@ extract fn propagate_header
//@ opt ret r
//@ sec spec
    ensures r matches Ok(b) ==> b == (headers.lines(name@).len() > 0) && final(accumulator).entries@ == passed(old(accumulator).entries@, *headers, name@, destination_name@, strategy),
        r is Err ==> !alone(name@) && headers.lines(name@).len() > 1 && !valid(joined(headers.lines(name@), headers.lines(name@).len())),
//@ sec loop 0 iter it
        invariant
            vals(lines@) == headers.lines(name@), it.seq().len() == lines@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == lines@[i],
            accumulator.entries@ == each(old(accumulator).entries@, headers.lines(name@), it.index@ as nat, destination_name@, strategy),
//@ end
pub open spec fn denied(n: Seq<char>) -> bool { hop(n) || owned(n) }
pub struct ResponseExpressionContext<'a> { pub subgraph_headers: &'a HeaderMap }
pub open spec fn folded(e: Map<Seq<char>, Slot>, h: HeaderMap, v: Seq<HeaderName>, k: nat, rename: Option<HeaderName>, s: HeaderAggregationStrategy) -> Map<Seq<char>, Slot> decreases k {
    if k == 0 || k > v.len() { e } else {
        let b = folded(e, h, v, (k - 1) as nat, rename, s);
        let n = v[k - 1]@;
        if denied(n) || denied(dest(rename, n)) { b } else { passed(b, h, n, dest(rename, n), s) }
    }
}
pub open spec fn found(h: HeaderMap, v: Seq<HeaderName>, k: nat, rename: Option<HeaderName>) -> bool decreases k {
    if k == 0 || k > v.len() { false } else { found(h, v, (k - 1) as nat, rename) || !denied(v[k - 1]@) && !denied(dest(rename, v[k - 1]@)) && h.lines(v[k - 1]@).len() > 0 }
}
//@ rewrite expr matched |= __e => matched = __e || matched
//@ extract method ApplyResponseHeader for ResponsePropagateNamed::apply_response_headers
//@ opt ret r
//@ sec spec
    ensures r is Ok ==> ({
        let e = folded(old(accumulator).entries@, *ctx.subgraph_headers, self.names@, self.names@.len(), self.rename, self.strategy);
        let d = if self.names@.len() > 0 { dest(self.rename, self.names@[0]@) } else { seq![] };
        final(accumulator).entries@ == if !found(*ctx.subgraph_headers, self.names@, self.names@.len(), self.rename) && self.default is Some && self.names@.len() > 0 && !denied(d) { written(e, d, self.default->0@, self.strategy) } else { e }
    }),
//@ sec loop 0 iter it
        invariant
            it.seq().len() == self.names@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == self.names@[i],
            matched == found(*ctx.subgraph_headers, self.names@, it.index@ as nat, self.rename),
            accumulator.entries@ == folded(old(accumulator).entries@, *ctx.subgraph_headers, self.names@, it.index@ as nat, self.rename, self.strategy),
//@ sec loopstart 0
        proof { assert(*header_name == self.names@[it.index@]); }
//@ end
//@ extract method ApplyResponseHeader for ResponseInsertStatic::apply_response_headers
//@ opt ret r
//@ sec spec
    ensures r is Ok, final(accumulator).entries@ == if denied(self.name@) { old(accumulator).entries@ } else { written(old(accumulator).entries@, self.name@, self.value@, if alone(self.name@) { HeaderAggregationStrategy::Append } else { self.strategy }) },
//@ end
//@ extract method ApplyResponseHeader for ResponseRemoveNamed::apply_response_headers
//@ opt ret r
//@ sec spec
    ensures r is Ok, forall|n: Seq<char>| #[trigger] final(accumulator).entries@.dom().contains(n) <==> old(accumulator).entries@.dom().contains(n) && (denied(n) || !exists|i: int| 0 <= i < self.names@.len() && (#[trigger] self.names@[i])@ == n),
        forall|n: Seq<char>| final(accumulator).entries@.dom().contains(n) ==> #[trigger] final(accumulator).entries@[n] == old(accumulator).entries@[n],
//@ sec loop 0 iter it
        invariant
            it.seq().len() == self.names@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == self.names@[i],
            forall|n: Seq<char>| #[trigger] accumulator.entries@.dom().contains(n) <==> old(accumulator).entries@.dom().contains(n) && (denied(n) || !exists|i: int| 0 <= i < it.index@ && (#[trigger] self.names@[i])@ == n),
            forall|n: Seq<char>| accumulator.entries@.dom().contains(n) ==> #[trigger] accumulator.entries@[n] == old(accumulator).entries@[n],
//@ sec loopstart 0
        let ghost e0 = accumulator.entries@;
        proof { assert(*header_name == self.names@[it.index@]); }
//@ sec loopend 0
        proof { assert forall|n: Seq<char>| #[trigger] accumulator.entries@.dom().contains(n) <==> old(accumulator).entries@.dom().contains(n) && (denied(n) || !exists|i: int| 0 <= i < it.index@ + 1 && (#[trigger] self.names@[i])@ == n) by {
            let _ = e0.dom().contains(n);
            if n == header_name@ { assert(self.names@[it.index@]@ == n); }
        } }
//@ end
} // verus!
fn main() {}
