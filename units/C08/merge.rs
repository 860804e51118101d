//@-- C08: what two fetches say about the same place, merged
//@ include ../lib/prelude.rs
verus! {
use std::cmp::Ordering;
broadcast use vstd::seq::axiom_seq_subrange_decreases;
//@ dropmacro warn debug trace info error
pub type T = Seq<char>;
#[verifier::external_body] pub struct Text { m: u8 }
// trusted: the order of str is a strict total order
pub uninterp spec fn less(a: T, b: T) -> bool;
pub axiom fn axiom_order() ensures forall|a: T, b: T| #![trigger less(a, b)] !(less(a, b) && less(b, a)) && (less(a, b) || less(b, a) || a == b) && !less(a, a), forall|a: T, b: T, c: T| #[trigger] less(a, b) && #[trigger] less(b, c) ==> less(a, c);
#[verifier::external_body] pub fn order(a: &str, b: &str) -> (r: Ordering) ensures (r is Less) == less(a@, b@), (r is Greater) == less(b@, a@), (r is Equal) == (a@ == b@), !(r is Less && r is Greater) { unimplemented!() }
//@ file bin/router/src/executor/response/value.rs
//@ rewrite type Cow<'a,str> => Text
//@ extract enum Value
//@ opt attr #[verifier::ext_equal]
//@ end
pub type Fs<'a> = Seq<(&'a str, Value<'a>)>;
// ---- verified shims: an iterator that owns its elements, front first -------------------------------------
pub struct Front<X> { pub v: Vec<X> }
impl<X> View for Front<X> { type V = Seq<X>; open spec fn view(&self) -> Seq<X> { self.v@ } }
impl<X> Front<X> {
    pub fn next(&mut self) -> (r: Option<X>) ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@, old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.subrange(1, old(self)@.len() as int)
    { if self.v.len() == 0 { None } else { let x = self.v.remove(0); proof { assert(self.v@ =~= old(self).v@.subrange(1, old(self).v@.len() as int)); } Some(x) } }
}
pub fn fronts<X>(v: Vec<X>) -> (r: Front<X>) ensures r@ == v@ { Front { v } }
pub fn heads<'a>(a: &Front<(&'a str, Value<'a>)>, b: &Front<(&'a str, Value<'a>)>) -> (r: Option<(&'a str, &'a str)>)
    ensures r is Some == (a@.len() > 0 && b@.len() > 0), r matches Some(k) ==> k.0 == a@[0].0 && k.1 == b@[0].0
{ if a.v.len() == 0 || b.v.len() == 0 { None } else { Some((a.v[0].0, b.v[0].0)) } }
pub fn append_rest<X>(v: &mut Vec<X>, s: Front<X>) ensures final(v)@ == old(v)@ + s@ { let mut s = s; v.append(&mut s.v); }
pub fn append_vec<X>(v: &mut Vec<X>, s: Vec<X>) ensures final(v)@ == old(v)@ + s@ { let mut s = s; v.append(&mut s); }
pub fn take_vec<X>(v: &mut Vec<X>) -> (r: Vec<X>) ensures r@ == old(v)@, final(v)@.len() == 0 { let mut x = Vec::new(); std::mem::swap(&mut x, v); x }
pub fn must<X>(o: Option<X>) -> (r: X) requires o is Some ensures o == Some(r) { o.unwrap() }
// ---- what merging means ------------------------------------------------------------------------------------
// null says nothing; objects by key; lists item by item; anything else is replaced
pub open spec fn is_merge(t: Value, s: Value, r: Value) -> bool decreases s, 1int {
    match (t, s) {
        (_, Value::Null) => r == t,
        (Value::Object(a), Value::Object(b)) => r is Object && merge_fields(a@, b@, r->Object_0@),
        (Value::Array(a), Value::Array(b)) => r is Array && r->Array_0@.len() == a@.len() && forall|i: int| 0 <= i < a@.len() ==> if i < b@.len() { is_merge(a@[i], b@[i], #[trigger] r->Array_0@[i]) } else { r->Array_0@[i] == a@[i] },
        _ => r == s,
    }
}
pub open spec fn merge_fields(a: Fs, b: Fs, r: Fs) -> bool decreases b, a.len() {
    if a.len() == 0 { r == b } else if b.len() == 0 { r == a }
    else if r.len() == 0 { false }
    else if less(a[0].0@, b[0].0@) { r[0] == a[0] && merge_fields(rest(a), b, rest(r)) }
    else if less(b[0].0@, a[0].0@) { r[0] == b[0] && merge_fields(a, rest(b), rest(r)) }
    else { r[0].0 == a[0].0 && is_merge(a[0].1, b[0].1, r[0].1) && merge_fields(rest(a), rest(b), rest(r)) }
}
//@ file bin/router/src/executor/response/merge.rs
//@ rewrite expr let (Some(&(target_key, _)), Some(&(source_key, _))) = (target_iter.peek(), source_iter.peek()) ==>> let Some((target_key, source_key)) = heads(&target_iter, &source_iter)
//@ rewrite expr __x.into_iter().peekable() ==>> fronts(__x)
//@ rewrite expr __a.cmp(__b) ==>> order(__a, __b)
//@ rewrite expr merged.extend(__x) ==>> append_rest(&mut merged, __x)
//@ rewrite expr target_vec.extend(__x) ==>> append_vec(target_vec, __x)
//@ rewrite expr std::mem::take(__x) ==>> take_vec(__x)
//@ rewrite expr __x.unwrap() ==>> must(__x)
//@ rewrite expr Vec::with_capacity(__x) ==>> Vec::new()
//@ extract fn deep_merge
//@ sec spec
    ensures is_merge(*old(target), source, *final(target))
    decreases source, 2nat
//@ end
//@ extract fn deep_merge_internal
//@ sec spec
    ensures is_merge(*old(target), source, *final(target))
    decreases source, 1nat
//@ sec before-loop 0
let ghost s0 = __y0@; let ghost t0 = __x0@;
proof { assert(source == Value::Array(source->Array_0) && source->Array_0@ == s0); assert(t0 == old(target)->Array_0@); }
//@ sec loop 0 zip i
        invariant 0 <= i <= __x0.len(), __x0.len() == t0.len(), __y0@ == s0.skip(i as int), i <= s0.len(), source is Array, source->Array_0@ == s0,
            forall|k: int| i <= k < t0.len() ==> __x0@[k] == t0[k],
            forall|k: int| 0 <= k < i ==> is_merge(t0[k], s0[k], #[trigger] __x0@[k]),
        decreases __x0.len() - i
//@ sec loopstart 0
proof { vstd::std_specs::vec::axiom_vec_index_decreases(source->Array_0, i - 1); assert(source_val == s0[i - 1]); assert(__y0@ =~= s0.skip(i as int)); }
//@ end
//@ extract fn deep_merge_objects
//@ sec spec
    ensures merge_fields(old(target_vec)@, source_obj@, final(target_vec)@)
    decreases source_obj, 0nat
//@ sec start
proof { if source_obj@.len() == 0 && target_vec@.len() == 0 { assert(source_obj@ =~= target_vec@); } assert(Seq::<(&'a str, Value<'a>)>::empty() + source_obj@ =~= source_obj@); assert(target_vec@.len() == 0 ==> target_vec@ + source_obj@ =~= source_obj@); }
//@ sec loop 0
        invariant target_iter@ == t0.skip(i), source_iter@ == s0.skip(j), 0 <= i <= t0.len(), 0 <= j <= s0.len(), s0 == source_obj@,
            forall|tail: Fs| #[trigger] merge_fields(target_iter@, source_iter@, tail) ==> merge_fields(t0, s0, merged@ + tail),
        ensures target_iter@.len() == 0 || source_iter@.len() == 0
        decreases target_iter@.len() + source_iter@.len()
//@ sec before-loop 0
let ghost s0 = source_iter@; let ghost t0 = target_iter@; let ghost mut i = 0int; let ghost mut j = 0int;
proof { assert(t0.skip(0) =~= t0); assert(s0.skip(0) =~= s0); assert forall|tail: Fs| #[trigger] merge_fields(t0, s0, tail) implies merge_fields(t0, s0, merged@ + tail) by { assert(merged@ + tail =~= tail); } }
//@ sec loopstart 0
let ghost (a, b, m0) = (target_iter@, source_iter@, merged@);
proof { axiom_order(); if j < s0.len() { vstd::std_specs::vec::axiom_vec_index_decreases(source_obj, j); } }
//@ sec loopend 0
proof {
    if target_iter@.len() < a.len() { i = i + 1; } if source_iter@.len() < b.len() { j = j + 1; }
    assert(rest(a) =~= t0.skip(t0.len() - a.len() + 1)); assert(rest(b) =~= s0.skip(s0.len() - b.len() + 1));
    let x = merged@.last();
    assert(merged@ =~= m0.push(x));
    assert forall|tail: Fs| #[trigger] merge_fields(target_iter@, source_iter@, tail) implies merge_fields(t0, s0, merged@ + tail) by {
        let r = seq![x] + tail; assert(rest(r) =~= tail); assert(r[0] == x);
        assert(merge_fields(a, b, r));
        assert(m0 + r =~= merged@ + tail);
    }
}
//@ sec after-loop 0
proof {
    let tail = target_iter@ + source_iter@;
    assert(target_iter@.len() == 0 ==> tail =~= source_iter@); assert(source_iter@.len() == 0 ==> tail =~= target_iter@);
    assert(merge_fields(target_iter@, source_iter@, tail));
    assert(merged@ + target_iter@ + source_iter@ =~= merged@ + tail);
}
//@ end
// ---- what that means for objects sorted by key, no key twice -----------------------------------------------
pub open spec fn sorted(a: Fs) -> bool { forall|i: int, j: int| 0 <= i < j < a.len() ==> less(#[trigger] a[i].0@, #[trigger] a[j].0@) }
pub open spec fn holds(a: Fs, k: T) -> bool { exists|i: int| 0 <= i < a.len() && (#[trigger] a[i]).0@ == k }
pub open spec fn value_at<'a>(a: Seq<(&'a str, Value<'a>)>, k: T) -> Value<'a> { a[choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).0@ == k].1 }
pub open spec fn merged_at(a: Fs, b: Fs, r: Fs, k: T) -> bool {
    holds(r, k) == (holds(a, k) || holds(b, k)) && (holds(r, k) ==> if !holds(b, k) { value_at(r, k) == value_at(a, k) } else if !holds(a, k) { value_at(r, k) == value_at(b, k) } else { is_merge(value_at(a, k), value_at(b, k), value_at(r, k)) })
}
proof fn unique(a: Fs, i: int) requires sorted(a), 0 <= i < a.len() ensures holds(a, a[i].0@), value_at(a, a[i].0@) == a[i].1
{ axiom_order(); let k = a[i].0@; assert(a[i].0@ == k); let j = choose|j: int| 0 <= j < a.len() && (#[trigger] a[j]).0@ == k; if j < i { assert(less(a[j].0@, a[i].0@)); } if i < j { assert(less(a[i].0@, a[j].0@)); } }
proof fn shift(a: Fs, k: T) requires a.len() > 0, sorted(a) ensures sorted(rest(a)), holds(a, k) == (a[0].0@ == k || holds(rest(a), k)), holds(rest(a), k) ==> less(a[0].0@, k) && value_at(a, k) == value_at(rest(a), k), a[0].0@ == k ==> value_at(a, k) == a[0].1
{
    let q = rest(a);
    assert forall|i: int, j: int| 0 <= i < j < q.len() implies less(#[trigger] q[i].0@, #[trigger] q[j].0@) by { assert(q[i] == a[i + 1] && q[j] == a[j + 1]); }
    if holds(q, k) { let i = choose|i: int| 0 <= i < q.len() && (#[trigger] q[i]).0@ == k; assert(a[i + 1] == q[i]); unique(a, i + 1); unique(q, i); assert(less(a[0].0@, a[i + 1].0@)); }
    if holds(a, k) { let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).0@ == k; if i > 0 { assert(q[i - 1] == a[i]); } }
    if a[0].0@ == k { unique(a, 0); }
}
// the result is sorted, has the keys of both, keeps what one side says and merges what both say
pub proof fn nothing_lost(a: Fs, b: Fs, r: Fs, k: T) requires sorted(a), sorted(b), merge_fields(a, b, r) ensures sorted(r), merged_at(a, b, r, k) decreases a.len() + b.len()
{
    axiom_order();
    if a.len() > 0 && b.len() > 0 {
        let (p, q) = if less(a[0].0@, b[0].0@) { (rest(a), b) } else if less(b[0].0@, a[0].0@) { (a, rest(b)) } else { (rest(a), rest(b)) };
        shift(a, k); shift(b, k);
        assert forall|i: int| 0 < i < r.len() implies less(r[0].0@, #[trigger] r[i].0@) by {
            let z = r[i].0@; shift(a, z); shift(b, z); nothing_lost(p, q, rest(r), z); assert(rest(r)[i - 1] == r[i]); assert(holds(rest(r), z)); assert(holds(p, z) || holds(q, z));
        }
        nothing_lost(p, q, rest(r), k);
        assert forall|i: int, j: int| 0 <= i < j < r.len() implies less(#[trigger] r[i].0@, #[trigger] r[j].0@) by { if i > 0 { assert(rest(r)[i - 1] == r[i] && rest(r)[j - 1] == r[j]); } }
        shift(r, k);
    }
}
pub open spec fn rest<X>(s: Seq<X>) -> Seq<X> { s.subrange(1, s.len() as int) }
}
fn main() {}
