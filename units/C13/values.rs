//@-- C13: what the variables and extensions of a request are told apart by
//@ include ../lib/prelude.rs
//@ include ../lib/toks.rs
verus! {
// ---- trusted: what sonic_rs's Value is ----------------------------------------------------------------------
pub enum Number { I(i64), U(u64), F(f64) }
pub struct Obj { pub items: Vec<(String, Value)> }
pub enum Value { Null, Bool(bool), Number(Number), Text(String), List(Vec<Value>), Object(Obj) }
pub enum JsonType { Null, Boolean, Number, String, Object, Array }
pub open spec fn kind_of(v: Value) -> JsonType { match v { Value::Null => JsonType::Null, Value::Bool(_) => JsonType::Boolean, Value::Number(_) => JsonType::Number, Value::Text(_) => JsonType::String, Value::List(_) => JsonType::Array, Value::Object(_) => JsonType::Object } }
impl Value {
    pub fn get_type(&self) -> (r: JsonType) ensures r == kind_of(*self) { match self { Value::Null => JsonType::Null, Value::Bool(_) => JsonType::Boolean, Value::Number(_) => JsonType::Number, Value::Text(_) => JsonType::String, Value::List(_) => JsonType::Array, Value::Object(_) => JsonType::Object } }
    pub fn as_bool(&self) -> (r: Option<bool>) ensures r == (match *self { Value::Bool(b) => Some(b), _ => None }) { match self { Value::Bool(b) => Some(*b), _ => None } }
    pub fn as_i64(&self) -> (r: Option<i64>) ensures r == (match *self { Value::Number(Number::I(i)) => Some(i), _ => None }) { match self { Value::Number(Number::I(i)) => Some(*i), _ => None } }
    pub fn as_u64(&self) -> (r: Option<u64>) ensures *self matches Value::Number(Number::U(u)) ==> r == Some(u), *self matches Value::Number(Number::F(_)) ==> r is None { match self { Value::Number(Number::I(i)) => if *i >= 0 { Some(*i as u64) } else { None }, Value::Number(Number::U(u)) => Some(*u), _ => None } }
    #[verifier::external_body] pub fn as_f64(&self) -> (r: Option<f64>) ensures *self matches Value::Number(Number::F(f)) ==> r == Some(f) { unimplemented!() }
    #[verifier::external_body] pub fn as_str(&self) -> (r: Option<&str>) ensures match *self { Value::Text(s) => r is Some && r->Some_0@ == s@, _ => r is None } { unimplemented!() }
    pub fn as_object(&self) -> (r: Option<&Obj>) ensures match *self { Value::Object(o) => r is Some && *r->Some_0 == o, _ => r is None } { match self { Value::Object(o) => Some(o), _ => None } }
    pub fn as_array(&self) -> (r: Option<&Vec<Value>>) ensures match *self { Value::List(o) => r is Some && *r->Some_0 == o, _ => r is None } { match self { Value::List(o) => Some(o), _ => None } }
}
impl Obj { pub fn len(&self) -> (r: usize) ensures r == self.items@.len() { self.items.len() } }
#[verifier::external_body] pub fn bits_of(f: f64) -> (r: u64) ensures r == f64_bits(f) { unimplemented!() }
pub open spec fn vtoks(v: Value) -> Toks decreases v {
    match v {
        Value::Null => word(0),
        Value::Bool(b) => word(1) + word(if b { 1int } else { 0 }),
        Value::Number(Number::I(i)) => word(2) + (word(0) + word(i as int)),
        Value::Number(Number::U(u)) => word(2) + (word(1) + word(u as int)),
        Value::Number(Number::F(f)) => word(2) + (word(2) + word(f64_bits(f) as int)),
        Value::Text(s) => word(3) + text(s@),
        Value::Object(o) => word(4) + (word(o.items@.len() as int) + pairs_from(o, 0)),
        Value::List(l) => word(5) + (word(l@.len() as int) + list_from(l, 0)),
    }
}
pub open spec fn list_from(l: Vec<Value>, i: int) -> Toks decreases l, l@.len() - i via list_from_d { if 0 <= i < l@.len() { vtoks(l@[i]) + list_from(l, i + 1) } else { Seq::empty() } }
#[via_fn] proof fn list_from_d(l: Vec<Value>, i: int) { if 0 <= i < l@.len() { assert(decreases_to!(l => l@[i])); } }
pub open spec fn pairs_from(o: Obj, i: int) -> Toks decreases o, o.items@.len() - i via pairs_from_d { if 0 <= i < o.items@.len() { text(o.items@[i].0@) + vtoks(o.items@[i].1) + pairs_from(o, i + 1) } else { Seq::empty() } }
#[via_fn] proof fn pairs_from_d(o: Obj, i: int) { if 0 <= i < o.items@.len() { assert(decreases_to!(o => o.items)); assert(decreases_to!(o.items => o.items@[i])); assert(decreases_to!(o.items@[i] => o.items@[i].1)); } }
// the first n pairs, as they are fed
pub open spec fn pairs_to(o: Obj, n: int) -> Toks decreases n { if 0 < n <= o.items@.len() { pairs_to(o, n - 1) + (text(o.items@[n - 1].0@) + vtoks(o.items@[n - 1].1)) } else { Seq::empty() } }
pub open spec fn list_to(l: Vec<Value>, n: int) -> Toks decreases n { if 0 < n <= l@.len() { list_to(l, n - 1) + vtoks(l@[n - 1]) } else { Seq::empty() } }
pub proof fn pairs_whole(o: Obj, i: int) requires 0 <= i <= o.items@.len() ensures pairs_to(o, i) + pairs_from(o, i) == pairs_from(o, 0) decreases i {
    if i > 0 { pairs_whole(o, i - 1); add3(pairs_to(o, i - 1), text(o.items@[i - 1].0@) + vtoks(o.items@[i - 1].1), pairs_from(o, i)); } else { assert(pairs_to(o, 0) + pairs_from(o, 0) =~= pairs_from(o, 0)); }
}
pub proof fn list_whole(l: Vec<Value>, i: int) requires 0 <= i <= l@.len() ensures list_to(l, i) + list_from(l, i) == list_from(l, 0) decreases i {
    if i > 0 { list_whole(l, i - 1); add3(list_to(l, i - 1), vtoks(l@[i - 1]), list_from(l, i)); } else { assert(list_to(l, 0) + list_from(l, 0) =~= list_from(l, 0)); }
}
// ---- the values of variables --------------------------------------------------------------------------------
//@ rewrite expr number.to_bits().hash(__h) => bits_of(number).feed(__h)
//@ rewrite expr __x.hash(__h) => __x.feed(__h)
//@ rewrite expr object.iter() => (&object.items)
//@ file bin/router/src/pipeline/mod.rs
//@ extract fn hash_graphql_value
//@ sec spec
    ensures final(hasher).toks() == old(hasher).toks() + vtoks(*value)
    decreases value
//@ sec start
    let ghost h0 = hasher.toks();
    broadcast use add3;
//@ sec before-loop 0
    let ghost h1 = hasher.toks();
//@ sec loop 0 iter it
    invariant value matches Value::Object(o) && o == *object, it.seq().len() == object.items@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == object.items@[i],
        hasher.toks() == h1 + pairs_to(*object, it.index@ as int)
//@ sec loopstart 0
    proof { let i = it.index@ as int; assert(decreases_to!(value => object)); assert(decreases_to!(object.items => object.items@[i])); assert(decreases_to!(object.items@[i] => object.items@[i].1)); }
//@ sec after-loop 0
    proof { pairs_whole(*object, object.items@.len() as int); assert(pairs_from(*object, object.items@.len() as int) =~= Seq::empty()); assert(pairs_to(*object, object.items@.len() as int) =~= pairs_from(*object, 0)); }
//@ sec before-loop 1
    let ghost h1 = hasher.toks();
//@ sec loop 1 iter it
    invariant value matches Value::List(l) && l == *array, slice@ == array@, it.seq().len() == array@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == array@[i],
        hasher.toks() == h1 + list_to(*array, it.index@ as int)
//@ sec loopstart 1
    proof { let i = it.index@ as int; assert(decreases_to!(value => array)); assert(decreases_to!(array => array@[i])); }
//@ sec after-loop 1
    proof { list_whole(*array, array@.len() as int); assert(list_from(*array, array@.len() as int) =~= Seq::empty()); assert(list_to(*array, array@.len() as int) =~= list_from(*array, 0)); }
//@ end
pub open spec fn same_list(x: Vec<Value>, y: Vec<Value>, i: int) -> bool decreases x, x@.len() - i via same_list_d { x@.len() == y@.len() && (0 <= i < x@.len() ==> same(x@[i], y@[i]) && same_list(x, y, i + 1)) }
#[via_fn] proof fn same_list_d(x: Vec<Value>, y: Vec<Value>, i: int) { if 0 <= i < x@.len() { assert(decreases_to!(x => x@[i])); } }
pub open spec fn same_pairs(x: Obj, y: Obj, i: int) -> bool decreases x, x.items@.len() - i via same_pairs_d { x.items@.len() == y.items@.len() && (0 <= i < x.items@.len() ==> x.items@[i].0@ == y.items@[i].0@ && same(x.items@[i].1, y.items@[i].1) && same_pairs(x, y, i + 1)) }
#[via_fn] proof fn same_pairs_d(x: Obj, y: Obj, i: int) { if 0 <= i < x.items@.len() { assert(decreases_to!(x => x.items)); assert(decreases_to!(x.items => x.items@[i])); assert(decreases_to!(x.items@[i] => x.items@[i].1)); } }
pub open spec fn same(a: Value, b: Value) -> bool decreases a {
    match (a, b) {
        (Value::Null, Value::Null) => true, (Value::Bool(x), Value::Bool(y)) => x == y, (Value::Text(x), Value::Text(y)) => x@ == y@,
        (Value::Number(Number::I(x)), Value::Number(Number::I(y))) => x == y, (Value::Number(Number::U(x)), Value::Number(Number::U(y))) => x == y,
        (Value::Number(Number::F(x)), Value::Number(Number::F(y))) => f64_bits(x) == f64_bits(y),
        (Value::List(x), Value::List(y)) => same_list(x, y, 0),
        (Value::Object(x), Value::Object(y)) => same_pairs(x, y, 0),
        _ => false,
    }
}
pub proof fn cut_value(a: Value, b: Value, ra: Toks, rb: Toks) requires vtoks(a) + ra == vtoks(b) + rb ensures same(a, b), ra == rb decreases a {
    let kn = |v: Value| match v { Value::Null => 0int, Value::Bool(_) => 1, Value::Number(_) => 2, Value::Text(_) => 3, Value::Object(_) => 4, Value::List(_) => 5 };
    let ta = vtoks(a).skip(1); let tb = vtoks(b).skip(1);
    assert(vtoks(a) =~= word(kn(a)) + ta); assert(vtoks(b) =~= word(kn(b)) + tb);
    add3(word(kn(a)), ta, ra); add3(word(kn(b)), tb, rb);
    cut_word(kn(a), kn(b), ta + ra, tb + rb);
    match (a, b) {
        (Value::Null, Value::Null) => { assert(ta + ra =~= ra); assert(tb + rb =~= rb); }
        (Value::Bool(x), Value::Bool(y)) => { let i = if x { 1int } else { 0 }; let j = if y { 1int } else { 0 }; assert(ta =~= word(i)); assert(tb =~= word(j)); cut_word(i, j, ra, rb); }
        (Value::Text(x), Value::Text(y)) => { assert(ta =~= text(x@)); assert(tb =~= text(y@)); cut_text(x@, y@, ra, rb); }
        (Value::Number(x), Value::Number(y)) => {
            let nk = |n: Number| match n { Number::I(_) => 0int, Number::U(_) => 1, Number::F(_) => 2 };
            let nv = |n: Number| match n { Number::I(i) => i as int, Number::U(u) => u as int, Number::F(f) => f64_bits(f) as int };
            assert(ta =~= word(nk(x)) + word(nv(x))); assert(tb =~= word(nk(y)) + word(nv(y)));
            add3(word(nk(x)), word(nv(x)), ra); add3(word(nk(y)), word(nv(y)), rb);
            cut_word(nk(x), nk(y), word(nv(x)) + ra, word(nv(y)) + rb); cut_word(nv(x), nv(y), ra, rb);
        }
        (Value::List(x), Value::List(y)) => {
            assert(ta =~= word(x@.len() as int) + list_from(x, 0)); assert(tb =~= word(y@.len() as int) + list_from(y, 0));
            add3(word(x@.len() as int), list_from(x, 0), ra); add3(word(y@.len() as int), list_from(y, 0), rb);
            cut_word(x@.len() as int, y@.len() as int, list_from(x, 0) + ra, list_from(y, 0) + rb);
            cut_list(x, y, 0, ra, rb);
        }
        (Value::Object(x), Value::Object(y)) => {
            assert(ta =~= word(x.items@.len() as int) + pairs_from(x, 0)); assert(tb =~= word(y.items@.len() as int) + pairs_from(y, 0));
            add3(word(x.items@.len() as int), pairs_from(x, 0), ra); add3(word(y.items@.len() as int), pairs_from(y, 0), rb);
            cut_word(x.items@.len() as int, y.items@.len() as int, pairs_from(x, 0) + ra, pairs_from(y, 0) + rb);
            cut_pairs(x, y, 0, ra, rb);
        }
        _ => {}
    }
}
pub proof fn cut_list(x: Vec<Value>, y: Vec<Value>, i: int, ra: Toks, rb: Toks)
    requires x@.len() == y@.len(), 0 <= i <= x@.len(), list_from(x, i) + ra == list_from(y, i) + rb ensures same_list(x, y, i), ra == rb decreases x, x@.len() - i
{
    if i < x@.len() {
        assert(decreases_to!(x => x@[i]));
        add3(vtoks(x@[i]), list_from(x, i + 1), ra); add3(vtoks(y@[i]), list_from(y, i + 1), rb);
        cut_value(x@[i], y@[i], list_from(x, i + 1) + ra, list_from(y, i + 1) + rb);
        cut_list(x, y, i + 1, ra, rb);
    } else { assert(list_from(x, i) + ra =~= ra); assert(list_from(y, i) + rb =~= rb); }
}
pub proof fn cut_pairs(x: Obj, y: Obj, i: int, ra: Toks, rb: Toks)
    requires x.items@.len() == y.items@.len(), 0 <= i <= x.items@.len(), pairs_from(x, i) + ra == pairs_from(y, i) + rb ensures same_pairs(x, y, i), ra == rb decreases x, x.items@.len() - i
{
    if i < x.items@.len() {
        let (p, q) = (x.items@[i], y.items@[i]);
        assert(decreases_to!(x => x.items)); assert(decreases_to!(x.items => x.items@[i])); assert(decreases_to!(x.items@[i] => x.items@[i].1));
        add3(text(p.0@) + vtoks(p.1), pairs_from(x, i + 1), ra); add3(text(q.0@) + vtoks(q.1), pairs_from(y, i + 1), rb);
        add3(text(p.0@), vtoks(p.1), pairs_from(x, i + 1) + ra); add3(text(q.0@), vtoks(q.1), pairs_from(y, i + 1) + rb);
        cut_text(p.0@, q.0@, vtoks(p.1) + (pairs_from(x, i + 1) + ra), vtoks(q.1) + (pairs_from(y, i + 1) + rb));
        cut_value(p.1, q.1, pairs_from(x, i + 1) + ra, pairs_from(y, i + 1) + rb);
        cut_pairs(x, y, i + 1, ra, rb);
    } else { assert(pairs_from(x, i) + ra =~= ra); assert(pairs_from(y, i) + rb =~= rb); }
}
// ---- the variables of a request, and its extensions ---------------------------------------------------------
#[verifier::external_body] pub struct Vars { m: u8 }
impl Vars {
    pub uninterp spec fn view(&self) -> Map<Seq<char>, Value>;
    #[verifier::external_body] pub fn get(&self, k: &str) -> (r: Option<&Value>) ensures match r { Some(v) => self@.contains_key(k@) && *v == self@[k@], None => !self@.contains_key(k@) } { unimplemented!() }
}
// the names of the variables, each of them, no other
pub open spec fn names(m: Map<Seq<char>, Value>, l: Seq<Seq<char>>) -> bool { forall|k: Seq<char>| #[trigger] m.contains_key(k) <==> l.contains(k) }
pub open spec fn texts(l: Seq<&str>) -> Seq<Seq<char>> { l.map_values(|s: &str| s@) }
// HashMap::keys, collected
#[verifier::external_body] pub fn keys_of<'a>(v: &'a Vars) -> (r: Vec<&'a str>) ensures names(v@, texts(r@)) { unimplemented!() }
// slice::sort_unstable: the same texts in another order, one that only they decide
pub uninterp spec fn sorted(l: Set<Seq<char>>, n: nat) -> Seq<Seq<char>>;
#[verifier::external_body] pub fn sort(v: &mut Vec<&str>) ensures final(v)@.len() == old(v)@.len(), texts(final(v)@).to_set() == texts(old(v)@).to_set(), texts(final(v)@) == sorted(texts(old(v)@).to_set(), old(v)@.len()) { unimplemented!() }
pub open spec fn vars_from(m: Map<Seq<char>, Value>, l: Seq<Seq<char>>, i: int) -> Toks decreases l.len() - i { if 0 <= i < l.len() { text(l[i]) + (vtoks(m[l[i]]) + vars_from(m, l, i + 1)) } else { Seq::empty() } }
pub open spec fn vars_to(m: Map<Seq<char>, Value>, l: Seq<Seq<char>>, n: int) -> Toks decreases n { if 0 < n <= l.len() { vars_to(m, l, n - 1) + (text(l[n - 1]) + vtoks(m[l[n - 1]])) } else { Seq::empty() } }
pub proof fn vars_whole(m: Map<Seq<char>, Value>, l: Seq<Seq<char>>, i: int) requires 0 <= i <= l.len() ensures vars_to(m, l, i) + vars_from(m, l, i) == vars_from(m, l, 0) decreases i {
    if i > 0 { vars_whole(m, l, i - 1); let (a, b) = (text(l[i - 1]), vtoks(m[l[i - 1]])); add3(a, b, vars_from(m, l, i)); add3(vars_to(m, l, i - 1), a + b, vars_from(m, l, i)); } else { assert(vars_to(m, l, 0) + vars_from(m, l, 0) =~= vars_from(m, l, 0)); }
}
pub open spec fn vars_toks(m: Map<Seq<char>, Value>, l: Seq<Seq<char>>) -> Toks { word(l.len() as int) + vars_from(m, l, 0) }
// the hash of these variables
pub open spec fn is_hash(m: Map<Seq<char>, Value>, r: u64) -> bool { exists|l: Seq<Seq<char>>| names(m, l) && r == #[trigger] digest(vars_toks(m, l)) }
//@ rewrite type HashMap<String,Value> => Vars
//@ rewrite expr __v.keys().map(String::as_str).collect() => keys_of(__v)
//@ rewrite expr __v.sort_unstable() => sort(&mut __v)
//@ extract fn hash_graphql_variables
//@ opt ret r
//@ sec spec
    ensures is_hash(variables@, r)
//@ sec before call len 0
    proof { let s = texts(keys@); assert(names(variables@, s)) by { assert forall|k: Seq<char>| #[trigger] variables@.contains_key(k) <==> s.contains(k) by { assert(s.contains(k) <==> s.to_set().contains(k)); } } }
//@ sec before-loop 0
    let ghost l = texts(keys@); let ghost h1 = hasher.toks();
    proof { assert(h1 =~= word(l.len() as int)); }
//@ sec loop 0 iter it
    invariant names(variables@, l), it.seq().len() == l.len(), forall|i: int| 0 <= i < l.len() ==> (#[trigger] it.seq()[i])@ == l[i],
        hasher.toks() == h1 + vars_to(variables@, l, it.index@ as int)
//@ sec loopstart 0
    broadcast use add3;
    proof { assert(l.contains(l[it.index@ as int])); assert(variables@.contains_key(l[it.index@ as int])); }
//@ sec after-loop 0
    proof { vars_whole(variables@, l, l.len() as int); assert(vars_from(variables@, l, l.len() as int) =~= Seq::empty()); assert(vars_to(variables@, l, l.len() as int) =~= vars_from(variables@, l, 0)); assert(hasher.toks() == vars_toks(variables@, l)); }
//@ end
//@ extract fn hash_graphql_extensions
//@ opt ret r
//@ sec spec
    ensures is_hash(extensions@, r)
//@ end
// what is hashed tells the variables apart: names, and values down to their kinds
pub proof fn same_vars(a: Map<Seq<char>, Value>, b: Map<Seq<char>, Value>, la: Seq<Seq<char>>, lb: Seq<Seq<char>>)
    requires names(a, la), names(b, lb), vars_toks(a, la) == vars_toks(b, lb)
    ensures forall|k: Seq<char>| #[trigger] a.contains_key(k) == b.contains_key(k), forall|k: Seq<char>| a.contains_key(k) ==> same(#[trigger] a[k], b[k])
{
    cut_word(la.len() as int, lb.len() as int, vars_from(a, la, 0), vars_from(b, lb, 0));
    cut_vars(a, b, la, lb, 0);
    assert(la =~= lb);
    assert forall|k: Seq<char>| a.contains_key(k) implies same(#[trigger] a[k], b[k]) by { let i = choose|i: int| 0 <= i < la.len() && la[i] == k; assert(same(a[la[i]], b[lb[i]])); }
}
proof fn cut_vars(a: Map<Seq<char>, Value>, b: Map<Seq<char>, Value>, la: Seq<Seq<char>>, lb: Seq<Seq<char>>, i: int)
    requires la.len() == lb.len(), 0 <= i <= la.len(), vars_from(a, la, i) == vars_from(b, lb, i)
    ensures forall|j: int| i <= j < la.len() ==> #[trigger] la[j] == lb[j] && same(a[la[j]], b[lb[j]])
    decreases la.len() - i
{
    if i < la.len() {
        cut_text(la[i], lb[i], vtoks(a[la[i]]) + vars_from(a, la, i + 1), vtoks(b[lb[i]]) + vars_from(b, lb, i + 1));
        cut_value(a[la[i]], b[lb[i]], vars_from(a, la, i + 1), vars_from(b, lb, i + 1));
        cut_vars(a, b, la, lb, i + 1);
    }
}
} // verus!
fn main() {}
