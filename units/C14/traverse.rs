//@-- C14: the places a fetch reads its entities from and puts its results to
//@ include ../lib/prelude.rs
verus! {
broadcast use vstd::seq::axiom_seq_subrange_decreases;
//@ dropmacro warn debug trace info error
pub type T = Seq<char>;
pub struct Text { pub s: String }
impl Text { pub fn text(&self) -> (r: &str) ensures r@ == self.s@ { self.s.as_str() } }
//@ file bin/router/src/executor/utils/consts.rs
//@ rewrite type &str => &'static str
//@ extract const TYPENAME_FIELD_NAME
//@ end
//@ norules
//@ file bin/router/src/executor/response/value.rs
//@ rewrite type Cow<'a,str> => Text
//@ extract enum Value
//@ opt attr #[verifier::ext_equal]
//@ end
//@ norules
pub type Fs<'a> = Seq<(&'a str, Value<'a>)>;
// ---- trusted: lookup in entries sorted by name, sets of names, the possible types of the schema --------------
pub open spec fn holds(a: Fs, k: T) -> bool { exists|i: int| 0 <= i < a.len() && (#[trigger] a[i]).0@ == k }
pub open spec fn place(a: Fs, k: T) -> int { choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).0@ == k }
#[verifier::external_body] pub fn find_key(m: &Vec<(&str, Value)>, key: &str) -> (r: Result<usize, usize>)
    ensures r is Ok == holds(m@, key@), r matches Ok(i) ==> i < m@.len() && i == place(m@, key@) && m@[i as int].0@ == key@ { unimplemented!() }
#[verifier::external_body] pub struct Names { m: u8 }
impl View for Names { type V = Set<T>; uninterp spec fn view(&self) -> Set<T>; }
impl Names {
    #[verifier::external_body] pub fn contains(&self, n: &str) -> (r: bool) ensures r == self@.contains(n@) { unimplemented!() }
    // the elements, each once, in some order
    #[verifier::external_body] pub fn items(&self) -> (r: &Vec<String>) ensures forall|i: int| 0 <= i < r@.len() ==> self@.contains((#[trigger] r@[i])@), forall|n: T| #[trigger] self@.contains(n) ==> exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i])@ == n { unimplemented!() }
}
#[verifier::external_body] pub struct Table { m: u8 }
impl Table {
    pub uninterp spec fn of(&self, n: T) -> Option<Set<T>>;
    #[verifier::external_body] pub fn get(&self, n: &str) -> (r: Option<&Names>) ensures r is Some == (self.of(n@) is Some), r matches Some(s) ==> s@ == self.of(n@)->0 { unimplemented!() }
}
pub struct PossibleTypes { pub map: Table }
pub struct SchemaMetadata { pub possible_types: PossibleTypes }
pub open spec fn is_a(t: Table, name: T, cond: T) -> bool { name == cond || (t.of(cond) matches Some(s) && s.contains(name)) }
//@ file bin/router/src/executor/introspection/schema.rs
//@ rewrite expr __a == __b ==>> str_eq(__a, __b)
//@ extract method PossibleTypes::entity_satisfies_type_condition
//@ sec spec
    ensures ret == is_a(self.map, type_name@, type_condition@)
//@ opt ret ret
//@ end
//@ norules
// ---- paths ----------------------------------------------------------------------------------------------------
//@ file bin/router/src/query_planner/planner/plan_nodes.rs
//@ rewrite type BTreeSet<String> => Names
//@ extract enum FlattenNodePathSegment
//@ end
//@ norules
use FlattenNodePathSegment as Seg;
//@ file bin/router/src/executor/response/graphql_error.rs
//@ extract enum GraphQLErrorPathSegment
//@ end
//@ extract struct GraphQLErrorPath
//@ end
pub type E = Seq<ES>;
pub enum ES { S(T), I(int) }
pub open spec fn es(x: GraphQLErrorPathSegment) -> ES { match x { GraphQLErrorPathSegment::String(s) => ES::S(s@), GraphQLErrorPathSegment::Index(i) => ES::I(i as int) } }
impl View for GraphQLErrorPath { type V = E; open spec fn view(&self) -> E { self.segments@.map_values(|x: GraphQLErrorPathSegment| es(x)) } }
#[verifier::external_body] pub fn copy_of(s: &Vec<GraphQLErrorPathSegment>) -> (r: Vec<GraphQLErrorPathSegment>) ensures r@.map_values(|x: GraphQLErrorPathSegment| es(x)) == s@.map_values(|x: GraphQLErrorPathSegment| es(x)) { unimplemented!() }
//@ rewrite expr self.segments.clone() ==>> copy_of(&self.segments)
//@ extract method GraphQLErrorPath::concat
//@ opt ret r
//@ sec spec
    ensures r@ == self@.push(es(segment))
//@ sec tail
proof { assert(new_path@.map_values(|x: GraphQLErrorPathSegment| es(x)) =~= self@.push(es(segment))); }
//@ end
//@ norules
//@ extract method GraphQLErrorPath::concat_index
//@ opt ret r
//@ sec spec
    ensures r@ == self@.push(ES::I(index as int))
//@ end
//@ extract method GraphQLErrorPath::concat_str
//@ opt ret r
//@ sec spec
    ensures r@ == self@.push(ES::S(field@))
//@ end
pub type OE = Option<E>;
pub open spec fn oe(p: Option<GraphQLErrorPath>) -> OE { match p { Some(p) => Some(p@), None => None } }
pub open spec fn at(e: OE, s: ES) -> OE { match e { Some(e) => Some(e.push(s)), None => None } }
pub fn path_at(e: &Option<GraphQLErrorPath>, index: usize) -> (r: Option<GraphQLErrorPath>) ensures oe(r) == at(oe(*e), ES::I(index as int)) { match e { Some(p) => Some(p.concat_index(index)), None => None } }
pub fn path_in(e: Option<GraphQLErrorPath>, name: &String) -> (r: Option<GraphQLErrorPath>) ensures oe(r) == at(oe(e), ES::S(name@)) { match e { Some(p) => Some(p.concat_str(own(name))), None => None } }
#[verifier::external_body] pub fn own(s: &String) -> (r: String) ensures r@ == s@ { s.clone() }
// ---- what a path reaches ----------------------------------------------------------------------------------------
pub type P = Seq<Seg>;
pub type R<'a> = Seq<(Value<'a>, OE)>;
pub open spec fn rest(p: P) -> P { p.skip(1) }
pub open spec fn below<'a>(v: Value<'a>, p: P, list: bool) -> P { if list && !(v is Array) { rest(p) } else { p } }
pub open spec fn name_of(m: Fs) -> Option<T> { if holds(m, TYPENAME_FIELD_NAME@) { match m[place(m, TYPENAME_FIELD_NAME@)].1 { Value::String(s) => Some(s.s@), _ => None } } else { None } }
// an object whose type is not said passes
pub open spec fn fits(m: Fs, c: Set<T>, t: Table) -> bool { name_of(m) matches Some(n) ==> exists|x: T| #[trigger] c.contains(x) && is_a(t, n, x) }
pub open spec fn reach<'a>(v: Value<'a>, p: P, e: OE, t: Table) -> R<'a> decreases v, p.len() {
    if p.len() == 0 { match v { Value::Array(a) => all(a@, p, e, t, false), _ => seq![(v, e)] } }
    else { match p[0] {
        Seg::List => match v { Value::Array(a) => all(a@, p, e, t, true), _ => seq![] },
        Seg::Field(f) => match v { Value::Object(m) => if holds(m@, f@) && place(m@, f@) < m@.len() { reach(m@[place(m@, f@)].1, rest(p), at(e, ES::S(f@)), t) } else { seq![] }, _ => seq![] },
        Seg::TypeCondition(c) => match v { Value::Object(m) => if fits(m@, c@, t) { reach(v, rest(p), e, t) } else { seq![] }, Value::Array(a) => all(a@, p, e, t, false), _ => seq![] },
    } }
}
pub open spec fn all<'a>(s: Seq<Value<'a>>, p: P, e: OE, t: Table, list: bool) -> R<'a> decreases s, p.len() {
    if s.len() == 0 { seq![] } else { all(s.subrange(0, s.len() - 1), p, e, t, list) + reach(s[s.len() - 1], below(s[s.len() - 1], p, list), at(e, ES::I(s.len() - 1)), t) }
}
// ---- the callback: any function of what it is given and of how often it was called before -----------------------
pub uninterp spec fn answer<'a>(n: nat, v: Value<'a>, e: OE) -> Value<'a>;
#[verifier::external_body] pub struct Callback<'a> { m: &'a u8 }
impl<'a> View for Callback<'a> { type V = R<'a>; uninterp spec fn view(&self) -> R<'a>; }
impl<'a> Callback<'a> {
    #[verifier::external_body] pub fn call(&mut self, v: &mut Value<'a>, e: Option<GraphQLErrorPath>) ensures final(self)@ == old(self)@.push((*old(v), oe(e))), *final(v) == answer(old(self)@.len(), *old(v), oe(e)) { unimplemented!() }
    #[verifier::external_body] pub fn see(&mut self, v: &'a Value<'a>) ensures final(self)@ == old(self)@.push((*v, None)) { unimplemented!() }
}
// what is left of v after the n-th and following calls changed what the path reaches, and nothing else
pub open spec fn left<'a>(v: Value<'a>, p: P, e: OE, t: Table, n: nat, r: Value<'a>) -> bool decreases v, p.len() {
    if p.len() == 0 { match v { Value::Array(a) => r is Array && all_left(a@, p, e, t, false, n, r->Array_0@), _ => r == answer(n, v, e) } }
    else { match p[0] {
        Seg::List => match v { Value::Array(a) => r is Array && all_left(a@, p, e, t, true, n, r->Array_0@), _ => r == v },
        Seg::Field(f) => match v { Value::Object(m) => if holds(m@, f@) && place(m@, f@) < m@.len() {
                let i = place(m@, f@); let q = r->Object_0@;
                r is Object && q.len() == m@.len() && (forall|k: int| 0 <= k < q.len() && k != i ==> #[trigger] q[k] == m@[k]) && q[i].0 == m@[i].0 && left(m@[i].1, rest(p), at(e, ES::S(f@)), t, n, q[i].1)
            } else { r == v }, _ => r == v },
        Seg::TypeCondition(c) => match v { Value::Object(m) => if fits(m@, c@, t) { left(v, rest(p), e, t, n, r) } else { r == v }, Value::Array(a) => r is Array && all_left(a@, p, e, t, false, n, r->Array_0@), _ => r == v },
    } }
}
pub open spec fn all_left<'a>(s: Seq<Value<'a>>, p: P, e: OE, t: Table, list: bool, n: nat, r: Seq<Value<'a>>) -> bool decreases s, p.len() {
    r.len() == s.len() && (s.len() > 0 ==> {
        let (h, l) = (s.subrange(0, s.len() - 1), s[s.len() - 1]);
        all_left(h, p, e, t, list, n, r.subrange(0, s.len() - 1)) && left(l, below(l, p, list), at(e, ES::I(s.len() - 1)), t, n + all(h, p, e, t, list).len(), r[s.len() - 1])
    })
}
//@ file bin/router/src/executor/response/value.rs
//@ rewrite type Cow<'a,str> => Text
//@ rewrite expr Some(s) ==>> Some(s.text())
//@ extract method Value::as_str
//@ opt ret r
//@ sec spec
    ensures match self { Value::String(s) => r is Some && r->0@ == s.s@, _ => r is None }
//@ end
//@ norules
//@ file bin/router/src/executor/utils/traverse.rs
//@ rewrite type BTreeSet<String> => Names
//@ rewrite expr type_conditions.iter().any(__f) => slice_any(type_conditions.items(), __f)
//@ extract fn entity_satisfies_any_type_condition
//@ opt ret ret
//@ sec spec
    ensures ret == (exists|x: T| #[trigger] type_conditions@.contains(x) && is_a(possible_types.map, type_name@, x))
//@ sec closure 0
|condition: &String| -> (b: bool)
    ensures b == is_a(possible_types.map, type_name@, condition@)
//@ end
//@ norules
//@ norules
pub fn opt_is_none_or<X, F: FnOnce(X) -> bool>(o: Option<X>, f: F) -> (r: bool) requires o matches Some(x) ==> f.requires((x,)) ensures o is None ==> r, o matches Some(x) ==> f.ensures((x,), r) { match o { Some(x) => f(x), None => true } }
// verified shim for `find(k).ok().and_then(|i| obj[i].1.as_str())`
pub fn text_at<'b>(obj: &'b Vec<(&str, Value)>, k: &str) -> (r: Option<&'b str>)
    ensures match r { Some(n) => holds(obj@, k@) && (obj@[place(obj@, k@)].1 matches Value::String(s) && s.s@ == n@), None => holds(obj@, k@) ==> !(obj@[place(obj@, k@)].1 is String) }
{ match find_key(obj, k) { Ok(idx) => obj[idx].1.as_str(), Err(_) => None } }
pub fn must<X>(o: Option<X>) -> (r: X) requires o is Some ensures o == Some(r) { o.unwrap() }
//@ rewrite expr __o.binary_search_by_key(&__k, |(k, _)| k).ok().and_then(|idx| __q[idx].1.as_str()) ==>> text_at(__o, __k)
//@ rewrite expr __o.binary_search_by_key(&__k, |(k, _)| k) ==>> find_key(__o, __k)
//@ rewrite expr __o.is_none_or(__f) => opt_is_none_or(__o, __f)
//@ rewrite expr callback(__v) ==>> callback.see(__v)
//@ rewrite expr map.get_mut(idx).unwrap() ==>> &mut map[idx]
//@ rewrite expr __e.as_ref().map(|current_error_path| current_error_path.concat_index(index)) ==>> path_at(&__e, index)
//@ rewrite expr __e.map(|current_error_path| { current_error_path.concat_str(field_name.clone()) }) ==>> path_in(__e, field_name)
//@ rewrite type Callback => Callback<'a>
//@ extract fn traverse_and_callback
//@ opt generics <'a>
//@ sec spec
    ensures final(callback)@ == old(callback)@ + reach(*current_data, remaining_path@, None, possible_types.map)
    decreases current_data, remaining_path@.len()
//@ sec closure 3
|type_name: &str| -> (b: bool)
    ensures b == (exists|x: T| #[trigger] type_condition@.contains(x) && is_a(possible_types.map, type_name@, x))
//@ sec start
proof { assert(old(callback)@ + seq![] =~= old(callback)@); reveal_with_fuel(reach, 2); }
//@ sec before-loop 0
let ghost s0 = arr@; let ghost c0 = callback@; let ghost t = possible_types.map;
proof { assert(arr == current_data->Array_0); assert(c0 + seq![] =~= c0); assert(s0.subrange(0, 0) =~= seq![]); }
//@ sec loop 0 index i0
        invariant 0 <= i0 <= __it0@.len(), __it0@ == s0, t == possible_types.map, *current_data is Array, current_data->Array_0@ == s0, callback@ == c0 + all(s0.subrange(0, i0 as int), remaining_path@, None, t, false)
        decreases __it0@.len() - i0
//@ sec loopstart 0
let ghost m = i0 - 1; let ghost c1 = callback@;
proof { vstd::std_specs::vec::axiom_vec_index_decreases(current_data->Array_0, m); assert(*item == s0[m]); let u = s0.subrange(0, m + 1); assert(u.subrange(0, m) =~= s0.subrange(0, m)); assert(u[m] == s0[m]); 
    assert(all(u, remaining_path@, None, t, false) == all(s0.subrange(0, m), remaining_path@, None, t, false) + reach(s0[m], below(s0[m], remaining_path@, false), None, t)); }
//@ sec loopend 0
proof { let x = all(s0.subrange(0, m), remaining_path@, None, t, false); let y = reach(s0[m], below(s0[m], remaining_path@, false), None, t); assert(c0 + x + y =~= c0 + (x + y)); }
//@ sec after-loop 0
proof { assert(s0.subrange(0, s0.len() as int) =~= s0); }
//@ sec before-loop 1
let ghost s0 = arr@; let ghost c0 = callback@; let ghost t = possible_types.map;
proof { assert(arr == current_data->Array_0); assert(c0 + seq![] =~= c0); assert(s0.subrange(0, 0) =~= seq![]); }
//@ sec loop 1 index i1
        invariant 0 <= i1 <= __it1@.len(), __it1@ == s0, t == possible_types.map, *current_data is Array, current_data->Array_0@ == s0, callback@ == c0 + all(s0.subrange(0, i1 as int), remaining_path@, None, t, true), remaining_path@.len() > 0
        decreases __it1@.len() - i1
//@ sec loopstart 1
let ghost m = i1 - 1; let ghost c1 = callback@;
proof { vstd::std_specs::vec::axiom_vec_index_decreases(current_data->Array_0, m); assert(*item == s0[m]); let u = s0.subrange(0, m + 1); assert(u.subrange(0, m) =~= s0.subrange(0, m)); assert(u[m] == s0[m]); 
    assert(all(u, remaining_path@, None, t, true) == all(s0.subrange(0, m), remaining_path@, None, t, true) + reach(s0[m], below(s0[m], remaining_path@, true), None, t)); }
//@ sec loopend 1
proof { let x = all(s0.subrange(0, m), remaining_path@, None, t, true); let y = reach(s0[m], below(s0[m], remaining_path@, true), None, t); assert(c0 + x + y =~= c0 + (x + y)); }
//@ sec after-loop 1
proof { assert(s0.subrange(0, s0.len() as int) =~= s0); }
//@ sec before-loop 2
let ghost s0 = arr@; let ghost c0 = callback@; let ghost t = possible_types.map;
proof { assert(arr == current_data->Array_0); assert(c0 + seq![] =~= c0); assert(s0.subrange(0, 0) =~= seq![]); }
//@ sec loop 2 index i2
        invariant 0 <= i2 <= __it2@.len(), __it2@ == s0, t == possible_types.map, *current_data is Array, current_data->Array_0@ == s0, callback@ == c0 + all(s0.subrange(0, i2 as int), remaining_path@, None, t, false), remaining_path@.len() > 0
        decreases __it2@.len() - i2
//@ sec loopstart 2
let ghost m = i2 - 1; let ghost c1 = callback@;
proof { vstd::std_specs::vec::axiom_vec_index_decreases(current_data->Array_0, m); assert(*item == s0[m]); let u = s0.subrange(0, m + 1); assert(u.subrange(0, m) =~= s0.subrange(0, m)); assert(u[m] == s0[m]); 
    assert(all(u, remaining_path@, None, t, false) == all(s0.subrange(0, m), remaining_path@, None, t, false) + reach(s0[m], below(s0[m], remaining_path@, false), None, t)); }
//@ sec loopend 2
proof { let x = all(s0.subrange(0, m), remaining_path@, None, t, false); let y = reach(s0[m], below(s0[m], remaining_path@, false), None, t); assert(c0 + x + y =~= c0 + (x + y)); }
//@ sec after-loop 2
proof { assert(s0.subrange(0, s0.len() as int) =~= s0); }
//@ end
//@ norules
//@ rewrite expr __o.binary_search_by_key(&__k, |(k, _)| k).ok().and_then(|idx| __q[idx].1.as_str()) ==>> text_at(__o, __k)
//@ rewrite expr __o.binary_search_by_key(&__k, |(k, _)| k) ==>> find_key(__o, __k)
//@ rewrite expr __o.is_none_or(__f) => opt_is_none_or(__o, __f)
//@ rewrite expr callback(__v, __e) ==>> callback.call(__v, __e)
//@ rewrite expr map.get_mut(idx).unwrap() ==>> &mut map[idx]
//@ rewrite expr __e.as_ref().map(|current_error_path| current_error_path.concat_index(index)) ==>> path_at(&__e, index)
//@ rewrite expr __e.map(|current_error_path| { current_error_path.concat_str(field_name.clone()) }) ==>> path_in(__e, field_name)
//@ rewrite type Callback => Callback<'a>
//@ extract fn traverse_and_callback_mut
//@ opt generics <'a>
//@ sec spec
    ensures final(callback)@ == old(callback)@ + reach(*old(current_data), remaining_path@, oe(current_error_path), schema_metadata.possible_types.map),
        left(*old(current_data), remaining_path@, oe(current_error_path), schema_metadata.possible_types.map, old(callback)@.len(), *final(current_data)),
    decreases *old(current_data), remaining_path@.len()
//@ sec start
proof { assert(old(callback)@ + seq![] =~= old(callback)@); reveal_with_fuel(reach, 2); reveal_with_fuel(left, 2); }
//@ sec closure 6
|type_name: &str| -> (b: bool)
    ensures b == (exists|x: T| #[trigger] type_condition@.contains(x) && is_a(schema_metadata.possible_types.map, type_name@, x))
//@ sec before-loop 0
let ghost s0 = __it0@; let ghost mut r: Seq<Value<'a>> = seq![]; let ghost c0 = callback@; let ghost t = schema_metadata.possible_types.map; let ghost e = oe(current_error_path); let ghost a0 = old(current_data)->Array_0;
proof { assert(c0 + seq![] =~= c0); assert(s0.subrange(0, 0) =~= seq![]); assert(s0 == a0@); assert(__it0@.subrange(0, 0) =~= seq![]); }
//@ sec loop 0 index i0 reborrow
        invariant 0 <= i0 <= __it0@.len(), __it0@.len() == s0.len(), t == schema_metadata.possible_types.map, e == oe(current_error_path), *old(current_data) is Array, old(current_data)->Array_0 == a0, a0@ == s0, callback@ == c0 + all(s0.subrange(0, i0 as int), remaining_path@, e, t, false),
            forall|k: int| i0 <= k < s0.len() ==> __it0@[k] == s0[k], all_left(s0.subrange(0, i0 as int), remaining_path@, e, t, false, c0.len(), r), r == __it0@.subrange(0, i0 as int)
        decreases __it0@.len() - i0
//@ sec loopstart 0
let ghost m = i0 - 1; let ghost c1 = callback@; let ghost r1 = r;
proof { vstd::std_specs::vec::axiom_vec_index_decreases(a0, m); assert(*item == s0[m]); let u = s0.subrange(0, m + 1); assert(u.subrange(0, m) =~= s0.subrange(0, m)); assert(u[m] == s0[m]); 
    assert(all(u, remaining_path@, e, t, false) == all(s0.subrange(0, m), remaining_path@, e, t, false) + reach(s0[m], below(s0[m], remaining_path@, false), at(e, ES::I(m)), t)); }
//@ sec loopend 0
proof { let x = all(s0.subrange(0, m), remaining_path@, e, t, false); let y = reach(s0[m], below(s0[m], remaining_path@, false), at(e, ES::I(m)), t); assert(c0 + x + y =~= c0 + (x + y)); assert(c1.len() == c0.len() + x.len());
    let q = __it0@.subrange(0, m + 1); r = q; assert(q.subrange(0, m) =~= r1); let u = s0.subrange(0, m + 1); assert(all_left(u, remaining_path@, e, t, false, c0.len(), q)); }
//@ sec after-loop 0
proof { assert(s0.subrange(0, s0.len() as int) =~= s0); assert(arr@.subrange(0, s0.len() as int) =~= arr@); }
//@ sec before-loop 1
let ghost s0 = __it1@; let ghost mut r: Seq<Value<'a>> = seq![]; let ghost c0 = callback@; let ghost t = schema_metadata.possible_types.map; let ghost e = oe(current_error_path); let ghost a0 = old(current_data)->Array_0;
proof { assert(c0 + seq![] =~= c0); assert(s0.subrange(0, 0) =~= seq![]); assert(s0 == a0@); assert(__it1@.subrange(0, 0) =~= seq![]); }
//@ sec loop 1 index i1 reborrow
        invariant 0 <= i1 <= __it1@.len(), __it1@.len() == s0.len(), t == schema_metadata.possible_types.map, e == oe(current_error_path), *old(current_data) is Array, old(current_data)->Array_0 == a0, a0@ == s0, callback@ == c0 + all(s0.subrange(0, i1 as int), remaining_path@, e, t, true), remaining_path@.len() > 0,
            forall|k: int| i1 <= k < s0.len() ==> __it1@[k] == s0[k], all_left(s0.subrange(0, i1 as int), remaining_path@, e, t, true, c0.len(), r), r == __it1@.subrange(0, i1 as int)
        decreases __it1@.len() - i1
//@ sec loopstart 1
let ghost m = i1 - 1; let ghost c1 = callback@; let ghost r1 = r;
proof { vstd::std_specs::vec::axiom_vec_index_decreases(a0, m); assert(*item == s0[m]); let u = s0.subrange(0, m + 1); assert(u.subrange(0, m) =~= s0.subrange(0, m)); assert(u[m] == s0[m]); 
    assert(all(u, remaining_path@, e, t, true) == all(s0.subrange(0, m), remaining_path@, e, t, true) + reach(s0[m], below(s0[m], remaining_path@, true), at(e, ES::I(m)), t)); }
//@ sec loopend 1
proof { let x = all(s0.subrange(0, m), remaining_path@, e, t, true); let y = reach(s0[m], below(s0[m], remaining_path@, true), at(e, ES::I(m)), t); assert(c0 + x + y =~= c0 + (x + y)); assert(c1.len() == c0.len() + x.len());
    let q = __it1@.subrange(0, m + 1); r = q; assert(q.subrange(0, m) =~= r1); let u = s0.subrange(0, m + 1); assert(all_left(u, remaining_path@, e, t, true, c0.len(), q)); }
//@ sec after-loop 1
proof { assert(s0.subrange(0, s0.len() as int) =~= s0); assert(arr@.subrange(0, s0.len() as int) =~= arr@); }
//@ sec before-loop 2
let ghost s0 = __it2@; let ghost mut r: Seq<Value<'a>> = seq![]; let ghost c0 = callback@; let ghost t = schema_metadata.possible_types.map; let ghost e = oe(current_error_path); let ghost a0 = old(current_data)->Array_0;
proof { assert(c0 + seq![] =~= c0); assert(s0.subrange(0, 0) =~= seq![]); assert(s0 == a0@); assert(__it2@.subrange(0, 0) =~= seq![]); }
//@ sec loop 2 index i2 reborrow
        invariant 0 <= i2 <= __it2@.len(), __it2@.len() == s0.len(), t == schema_metadata.possible_types.map, e == oe(current_error_path), *old(current_data) is Array, old(current_data)->Array_0 == a0, a0@ == s0, callback@ == c0 + all(s0.subrange(0, i2 as int), remaining_path@, e, t, false), remaining_path@.len() > 0,
            forall|k: int| i2 <= k < s0.len() ==> __it2@[k] == s0[k], all_left(s0.subrange(0, i2 as int), remaining_path@, e, t, false, c0.len(), r), r == __it2@.subrange(0, i2 as int)
        decreases __it2@.len() - i2
//@ sec loopstart 2
let ghost m = i2 - 1; let ghost c1 = callback@; let ghost r1 = r;
proof { vstd::std_specs::vec::axiom_vec_index_decreases(a0, m); assert(*item == s0[m]); let u = s0.subrange(0, m + 1); assert(u.subrange(0, m) =~= s0.subrange(0, m)); assert(u[m] == s0[m]); 
    assert(all(u, remaining_path@, e, t, false) == all(s0.subrange(0, m), remaining_path@, e, t, false) + reach(s0[m], below(s0[m], remaining_path@, false), at(e, ES::I(m)), t)); }
//@ sec loopend 2
proof { let x = all(s0.subrange(0, m), remaining_path@, e, t, false); let y = reach(s0[m], below(s0[m], remaining_path@, false), at(e, ES::I(m)), t); assert(c0 + x + y =~= c0 + (x + y)); assert(c1.len() == c0.len() + x.len());
    let q = __it2@.subrange(0, m + 1); r = q; assert(q.subrange(0, m) =~= r1); let u = s0.subrange(0, m + 1); assert(all_left(u, remaining_path@, e, t, false, c0.len(), q)); }
//@ sec after-loop 2
proof { assert(s0.subrange(0, s0.len() as int) =~= s0); assert(arr@.subrange(0, s0.len() as int) =~= arr@); }
//@ end
// ---- reading and putting back go to the same places in the same order -------------------------------------------
pub open spec fn values<'a>(r: R<'a>) -> Seq<Value<'a>> { r.map_values(|x: (Value<'a>, OE)| x.0) }
pub proof fn same_places<'a>(v: Value<'a>, p: P, e: OE, f: OE, t: Table) ensures values(reach(v, p, e, t)) == values(reach(v, p, f, t)) decreases v, p.len()
{
    reveal_with_fuel(reach, 2);
    if p.len() == 0 { match v { Value::Array(a) => { same_items(a@, p, e, f, t, false); }, _ => { assert(values(reach(v, p, e, t)) =~= values(reach(v, p, f, t))); } } }
    else { match p[0] {
        Seg::List => { if let Value::Array(a) = v { same_items(a@, p, e, f, t, true); } },
        Seg::Field(n) => { if let Value::Object(m) = v { if holds(m@, n@) && place(m@, n@) < m@.len() { same_places(m@[place(m@, n@)].1, rest(p), at(e, ES::S(n@)), at(f, ES::S(n@)), t); } } },
        Seg::TypeCondition(c) => { match v { Value::Object(m) => { if fits(m@, c@, t) { same_places(v, rest(p), e, f, t); } }, Value::Array(a) => { same_items(a@, p, e, f, t, false); }, _ => {} } },
    } }
}
pub proof fn same_items<'a>(s: Seq<Value<'a>>, p: P, e: OE, f: OE, t: Table, l: bool) ensures values(all(s, p, e, t, l)) == values(all(s, p, f, t, l)) decreases s, p.len()
{
    if s.len() > 0 {
        let (h, z, i) = (s.subrange(0, s.len() - 1), s[s.len() - 1], ES::I(s.len() - 1));
        same_items(h, p, e, f, t, l); same_places(z, below(z, p, l), at(e, i), at(f, i), t);
        let (a, b) = (all(h, p, e, t, l), reach(z, below(z, p, l), at(e, i), t)); let (c, d) = (all(h, p, f, t, l), reach(z, below(z, p, l), at(f, i), t));
        assert(values(a + b) =~= values(a) + values(b)); assert(values(c + d) =~= values(c) + values(d));
    }
}
}
fn main() {}
