//@-- C01: restrictive merging of Cache-Control
//@ include ../lib/prelude.rs
use std::collections::HashMap;
verus! {
//@ dropmacro warn debug trace info error
//@ file bin/router/src/executor/headers/cache_control.rs
//@ extract struct CacheControl
//@ end

// What a cleanly parsed header says.  Poisoned: nothing may be stored.
pub open spec fn poisoned(c: CacheControl) -> bool { c.no_store || c.no_cache || c.is_private }
pub open spec fn empty_cc() -> CacheControl {
    CacheControl { no_store: false, no_cache: false, must_revalidate: false, is_private: false, is_public: false, max_age: None }
}
pub open spec fn poison_cc() -> CacheControl { CacheControl { no_store: true, no_cache: true, ..empty_cc() } }
pub open spec fn min_age(a: Option<u32>, b: Option<u32>) -> Option<u32> {
    match (a, b) {
        (Some(x), Some(y)) => Some(if x <= y { x } else { y }),
        (Some(x), None) => Some(x),
        (None, y) => y,
    }
}
pub open spec fn merge2(a: CacheControl, b: CacheControl) -> CacheControl {
    if poisoned(a) || poisoned(b) { poison_cc() } else {
        CacheControl {
            is_public: a.is_public && b.is_public,
            must_revalidate: a.must_revalidate || b.must_revalidate,
            max_age: min_age(a.max_age, b.max_age),
            ..empty_cc()
        }
    }
}
pub open spec fn merge_opt(a: Option<CacheControl>, b: CacheControl) -> CacheControl {
    match a { None => b, Some(x) => merge2(x, b) }
}
// fold of the collected values, left to right
pub open spec fn fold(s: Seq<CacheControl>) -> Option<CacheControl> decreases s.len() {
    if s.len() == 0 { None } else { Some(merge_opt(fold(s.drop_last()), s.last())) }
}
// ---- the property, over any number of values ------------------------------------------------
pub proof fn restrictive(s: Seq<CacheControl>)
    requires s.len() > 0
    ensures
        fold(s) is Some,
        poisoned(fold(s)->0) <==> exists|i: int| 0 <= i < s.len() && poisoned(#[trigger] s[i]),
        !poisoned(fold(s)->0) ==> {
            let m = fold(s)->0;
            &&& m.is_public ==> forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).is_public
            &&& m.must_revalidate <==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).must_revalidate
            &&& (m.max_age is None <==> forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).max_age is None)
            &&& forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]).max_age is Some ==> m.max_age->0 <= s[i].max_age->0
            &&& m.max_age is Some ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).max_age == m.max_age
        },
    decreases s.len()
{
    let p = s.drop_last();
    let n = s.len() - 1;
    if p.len() == 0 {
        assert(fold(p) is None);
        assert(fold(s) == Some(s[0]));
        assert(s[0] == s.last());
    } else {
        restrictive(p);
        let fp = fold(p)->0;
        let m = fold(s)->0;
        assert(m == merge2(fp, s[n]));
        assert forall|i: int| 0 <= i < s.len() implies (i < n && s[i] == p[i]) || i == n by {}
        if poisoned(fp) {
            let i = choose|i: int| 0 <= i < p.len() && poisoned(#[trigger] p[i]);
            assert(poisoned(s[i]));
        }
        if poisoned(s[n]) { assert(exists|i: int| 0 <= i < s.len() && poisoned(#[trigger] s[i])); }
        if exists|i: int| 0 <= i < s.len() && poisoned(#[trigger] s[i]) {
            let i = choose|i: int| 0 <= i < s.len() && poisoned(#[trigger] s[i]);
            if i < n { assert(poisoned(p[i])); }
        }
        if !poisoned(m) {
            assert(!poisoned(fp) && !poisoned(s[n]));
            if fp.must_revalidate {
                let i = choose|i: int| 0 <= i < p.len() && (#[trigger] p[i]).must_revalidate;
                assert(s[i].must_revalidate);
            }
            assert forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]).must_revalidate implies m.must_revalidate by { if i < n { assert(p[i].must_revalidate); } }
            if fp.max_age is Some {
                let i = choose|i: int| 0 <= i < p.len() && (#[trigger] p[i]).max_age == fp.max_age;
                assert(s[i].max_age == fp.max_age);
            }
            assert forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]).max_age is Some implies m.max_age is Some && m.max_age->0 <= s[i].max_age->0 by { if i < n { assert(p[i].max_age is Some); } }
            if m.max_age is None { assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).max_age is None by { if i < n { assert(p[i].max_age is None); } } }
            if m.is_public { assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).is_public by { if i < n { assert(p[i].is_public); } } }
            if m.max_age is Some {
                if m.max_age == s[n].max_age { } else { assert(m.max_age == fp.max_age); }
                assert(exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).max_age == m.max_age);
            }
        }
    }
}

// ---- trusted: std string primitives and the http crate's containers ---------------------------
pub uninterp spec fn sp_trim(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn sp_lower(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn sp_split(s: Seq<char>, c: char) -> Seq<Seq<char>>;
pub uninterp spec fn sp_split_once(s: Seq<char>, c: char) -> Option<(Seq<char>, Seq<char>)>;
pub uninterp spec fn sp_parse_u32(s: Seq<char>) -> Option<u32>;
pub uninterp spec fn sp_max_age_text(n: u32) -> Seq<char>;
pub uninterp spec fn sp_join(s: Seq<Seq<char>>, sep: Seq<char>) -> Seq<char>;
#[verifier::external_body]
pub fn str_trim(s: &str) -> (r: &str) ensures r@ == sp_trim(s@) { s.trim() }
#[verifier::external_body]
pub fn str_lower(s: &str) -> (r: String) ensures r@ == sp_lower(s@) { s.to_ascii_lowercase() }
#[verifier::external_body]
pub fn str_split<'a>(s: &'a str, c: char) -> (r: Vec<&'a str>) ensures r@.len() == sp_split(s@, c).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == sp_split(s@, c)[i] { s.split(c).collect() }
#[verifier::external_body]
pub fn str_split_once<'a>(s: &'a str, c: char) -> (r: Option<(&'a str, &'a str)>)
    ensures r is Some <==> sp_split_once(s@, c) is Some, r is Some ==> ((r->0).0@, (r->0).1@) == sp_split_once(s@, c)->0 { s.split_once(c) }
#[verifier::external_body]
pub fn str_parse_u32(s: &str) -> (r: Result<u32, ()>) ensures r is Ok <==> sp_parse_u32(s@) is Some, r is Ok ==> Some(r->Ok_0) == sp_parse_u32(s@) { s.parse::<u32>().map_err(|_| ()) }
#[verifier::external_body]
pub fn str_is_empty(s: &str) -> (r: bool) ensures r == (s@.len() == 0) { s.is_empty() }
#[verifier::external_body]
pub fn max_age_text(n: u32) -> (r: String) ensures r@ == sp_max_age_text(n) { format!("max-age={n}") }
#[verifier::external_body]
pub fn join_strings(v: &Vec<String>, sep: &str) -> (r: String) ensures r@ == sp_join(v@.map_values(|s: String| s@), sep@) { v.join(sep) }

#[verifier::external_body] pub struct HeaderValue(Vec<u8>);
pub uninterp spec fn hv_text(h: HeaderValue) -> Option<Seq<char>>;
impl HeaderValue {
    #[verifier::external_body]
    pub fn to_str(&self) -> (r: Result<&str, ()>) ensures r is Ok <==> hv_text(*self) is Some, r is Ok ==> r->Ok_0@ == hv_text(*self)->0 { unimplemented!() }
    // HeaderValue::from_str(..).expect(..): non-ASCII text would panic; to_header_value's texts are ASCII (bounded check)
    #[verifier::external_body]
    pub fn from_text(s: &str) -> (r: Self) ensures hv_text(r) == Some(s@) { unimplemented!() }
    #[verifier::external_body]
    pub fn no_store() -> (r: Self) ensures r == no_store_value() { unimplemented!() }
}
// the value of NO_STORE_HEADER_VALUE ("no-store, no-cache, must-revalidate", checked by the bounded part)
pub uninterp spec fn no_store_value() -> HeaderValue;
#[verifier::external_body] pub struct Entries(Vec<u8>);
pub uninterp spec fn cc_entry(e: Entries) -> Option<(HeaderAggregationStrategy, Seq<HeaderValue>)>;
// the entries of every header other than Cache-Control
pub uninterp spec fn other_entries(e: Entries) -> Map<Seq<char>, (HeaderAggregationStrategy, Seq<HeaderValue>)>;
impl Entries {
    #[verifier::external_body]
    pub fn get_cc(&self) -> (r: Option<&(HeaderAggregationStrategy, Vec<HeaderValue>)>)
        ensures r is None <==> cc_entry(*self) is None, r is Some ==> cc_entry(*self)->0 == ((r->0).0, (r->0).1@) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert_cc(&mut self, v: (HeaderAggregationStrategy, Vec<HeaderValue>))
        ensures cc_entry(*final(self)) == Some((v.0, v.1@)), other_entries(*final(self)) == other_entries(*old(self)) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove_cc(&mut self)
        ensures cc_entry(*final(self)) is None, other_entries(*final(self)) == other_entries(*old(self)) { unimplemented!() }
}

// ---- what a header text says -------------------------------------------------------------------
// One comma-separated part applied to what was read so far; None: the header is not understood.
pub open spec fn part_token(p: Seq<char>) -> Seq<char> {
    let t = sp_trim(p);
    match sp_split_once(t, '=') { Some((a, _)) => sp_lower(sp_trim(a)), None => sp_lower(t) }
}
pub open spec fn part_value(p: Seq<char>) -> Option<Seq<char>> {
    match sp_split_once(sp_trim(p), '=') { Some((_, v)) => Some(sp_trim(v)), None => None }
}
pub open spec fn apply_part(c: CacheControl, p: Seq<char>) -> Option<CacheControl> {
    if sp_trim(p).len() == 0 { Some(c) }
    else if part_token(p) == "no-store"@ { Some(CacheControl { no_store: true, ..c }) }
    else if part_token(p) == "no-cache"@ { Some(CacheControl { no_cache: true, ..c }) }
    else if part_token(p) == "must-revalidate"@ { Some(CacheControl { must_revalidate: true, ..c }) }
    else if part_token(p) == "private"@ { Some(CacheControl { is_private: true, ..c }) }
    else if part_token(p) == "public"@ { Some(CacheControl { is_public: true, ..c }) }
    else if part_token(p) == "max-age"@ {
        match part_value(p) {
            Some(v) => match sp_parse_u32(v) { Some(n) => Some(CacheControl { max_age: Some(n), ..c }), None => None },
            None => None,
        }
    } else { None }
}
pub open spec fn apply_parts(s: Seq<Seq<char>>) -> Option<CacheControl> decreases s.len() {
    if s.len() == 0 { Some(empty_cc()) } else {
        match apply_parts(s.drop_last()) { None => None, Some(c) => apply_part(c, s.last()) }
    }
}
pub open spec fn reads(h: Seq<char>) -> Option<CacheControl> {
    if sp_trim(h).len() == 0 { None } else { apply_parts(sp_split(sp_trim(h), ',')) }
}
pub proof fn apply_parts_none(s: Seq<Seq<char>>, n: int)
    requires 0 <= n <= s.len(), apply_parts(s.take(n)) is None
    ensures apply_parts(s) is None
    decreases s.len() - n
{
    if n == s.len() { assert(s.take(n) =~= s); } else {
        assert(s.take(n + 1).drop_last() =~= s.take(n));
        apply_parts_none(s, n + 1);
    }
}
// the values of all collected headers that were understood
pub open spec fn read_all(vs: Seq<HeaderValue>) -> Seq<CacheControl> decreases vs.len() {
    if vs.len() == 0 { seq![] } else {
        let r = read_all(vs.drop_last());
        match hv_text(vs.last()) { None => r, Some(t) => match reads(t) { None => r, Some(c) => r.push(c) } }
    }
}
pub proof fn read_all_len(vs: Seq<HeaderValue>) ensures read_all(vs).len() <= vs.len() decreases vs.len() {
    if vs.len() > 0 { read_all_len(vs.drop_last()); }
}
pub open spec fn text_of(c: CacheControl) -> Seq<char> {
    if poisoned(c) { "no-store, no-cache"@ } else {
        sp_join(
            (if c.is_public { seq!["public"@] } else { seq![] })
            + (match c.max_age { Some(n) => seq![sp_max_age_text(n)], None => seq![] })
            + (if c.must_revalidate { seq!["must-revalidate"@] } else { seq![] }), ", "@)
    }
}
// The outcome of finalize on the Cache-Control entry
pub open spec fn outcome(vs: Seq<HeaderValue>, total: int) -> Option<Seq<char>> {
    match fold(read_all(vs)) {
        None => None,
        Some(m) => Some(text_of(
            // public only if every counted response said so in a header that was understood
            if total > read_all(vs).len() || vs.len() > read_all(vs).len() { CacheControl { is_public: false, ..m } } else { m })),
    }
}

//@ file bin/router/src/executor/headers/plan.rs
//@ extract enum HeaderAggregationStrategy
//@ opt derive Clone, Copy
//@ end
//@ file bin/router/src/executor/headers/response.rs
//@ extract struct ResponseHeaderAggregator
//@ opt field entries: Entries
//@ end
//@ file bin/router/src/executor/headers/cache_control.rs
//@ rewrite expr CacheControl::default() => cc_default()
//@ rewrite expr Default::default() => cc_default()
//@ rewrite expr __a.trim() => str_trim(__a)
//@ rewrite expr __a.split(',') => str_split(__a, ',')
//@ rewrite expr __a.split_once('=') => str_split_once(__a, '=')
//@ rewrite expr __a.parse::<u32>() => str_parse_u32(__a)
//@ rewrite expr token.to_ascii_lowercase() => str_lower(token)
//@ rewrite expr trimmed.is_empty() => str_is_empty(trimmed)
//@ rewrite expr part.is_empty() => str_is_empty(part)
//@ rewrite expr parts.join(", ") => join_strings(&parts, ", ")
//@ rewrite expr aggregator.entries.get(&http::header::CACHE_CONTROL) => aggregator.entries.get_cc()
//@ rewrite expr aggregator.entries.insert(http::header::CACHE_CONTROL, __v) => aggregator.entries.insert_cc(__v)
//@ rewrite expr aggregator.entries.remove(&http::header::CACHE_CONTROL) => aggregator.entries.remove_cc()
//@ rewrite expr NO_STORE_HEADER_VALUE.clone() => HeaderValue::no_store()
//@ rewrite expr HeaderValue::from_str(__s).expect(__m) => HeaderValue::from_text(__s)
//@ rewrite macro format => max_age_text(age)

// #[derive(Default)] of CacheControl (derives are dropped by the extraction): all fields default
pub fn cc_default() -> (r: CacheControl) ensures r == empty_cc() {
    CacheControl { no_store: false, no_cache: false, must_revalidate: false, is_private: false, is_public: false, max_age: None }
}

//@ extract fn parse
//@ sec start
    broadcast use axiom_str_ext;
//@ sec spec
    ensures r == reads(header@)
//@ sec loop 0 iter it
        invariant
            trimmed@ == sp_trim(header@), trimmed@.len() > 0,
            it.seq().len() == sp_split(trimmed@, ',').len(),
            forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i])@ == sp_split(trimmed@, ',')[i],
            apply_parts(sp_split(trimmed@, ',').take(it.index@)) == Some(p),
//@ sec loopstart 0
        proof {
            let ss = sp_split(trimmed@, ',');
            assert(ss.take(it.index@ + 1).drop_last() =~= ss.take(it.index@));
            assert(ss.take(it.index@ + 1).last() == ss[it.index@]);
            if apply_part(p, ss[it.index@]) is None { apply_parts_none(ss, it.index@ + 1); }
        }
//@ sec tail
    proof { let ss = sp_split(trimmed@, ','); assert(ss.take(ss.len() as int) =~= ss); }
//@ end

//@ extract fn merge_into
//@ sec spec
    ensures *final(acc) == Some(merge_opt(*old(acc), incoming))
//@ end

//@ extract fn to_header_value
//@ sec spec
    ensures r@ == text_of(*p)
//@ sec before call join 0
    proof {
        let a = parts@.map_values(|s: String| s@);
        assert(a =~= (if p.is_public { seq!["public"@] } else { seq![] })
            + (match p.max_age { Some(n) => seq![sp_max_age_text(n)], None => seq![] })
            + (if p.must_revalidate { seq!["must-revalidate"@] } else { seq![] }));
    }
//@ end

//@ extract fn finalize
//@ sec loop 0 iter it
        invariant
            it.seq().len() == values@.len(),
            forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == values@[i],
            acc == fold(read_all(values@.take(it.index@))),
            valid_values == read_all(values@.take(it.index@)).len(), valid_values <= it.index@,
//@ sec loopstart 0
        proof {
            let vs = values@;
            assert(vs.take(it.index@ + 1).drop_last() =~= vs.take(it.index@));
            assert(vs.take(it.index@ + 1).last() == vs[it.index@]);
            assert(*v == vs[it.index@]);
            assert(values.len() <= usize::MAX);
            let ra = read_all(vs.take(it.index@));
            assert forall|c: CacheControl| #[trigger] ra.push(c).drop_last() =~= ra by {}
        }
//@ sec after-loop 0
    proof { assert(values@.take(values@.len() as int) =~= values@); read_all_len(values@); }
//@ sec spec
    ensures
        other_entries(final(aggregator).entries) == other_entries(old(aggregator).entries),
        cc_entry(old(aggregator).entries) is None ==> cc_entry(final(aggregator).entries) is None,
        cc_entry(old(aggregator).entries) is Some && force_no_store ==> cc_entry(final(aggregator).entries) == Some((HeaderAggregationStrategy::Last, seq![no_store_value()])),
        cc_entry(old(aggregator).entries) is Some && !force_no_store ==> {
            let vs = (cc_entry(old(aggregator).entries)->0).1;
            match outcome(vs, total_responses as int) {
                None => cc_entry(final(aggregator).entries) is None,
                Some(t) => cc_entry(final(aggregator).entries) is Some && (cc_entry(final(aggregator).entries)->0).1.len() == 1
                    && hv_text((cc_entry(final(aggregator).entries)->0).1[0]) == Some(t)
                    && (cc_entry(final(aggregator).entries)->0).0 == HeaderAggregationStrategy::Last,
            }
        },
//@ end
} // verus!
fn main() {}
