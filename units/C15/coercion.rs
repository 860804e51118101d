//@-- C15: the variables an operation runs with
//@ include ../lib/prelude.rs
verus! {
//@ dropmacro warn debug trace info error
pub type T = Seq<char>;
// ---- trusted: JSON numbers (sonic_rs::Number), sets and maps of names, texts of errors ----------------------------
pub enum N { Int(int), Float }
#[verifier::external_body] pub struct Number { m: u8 }
impl Number {
    pub uninterp spec fn view(&self) -> N;
    #[verifier::external_body] pub fn is_i64(&self) -> (r: bool) ensures r == (self.view() matches N::Int(i) && i64::MIN <= i <= i64::MAX) { unimplemented!() }
    #[verifier::external_body] pub fn is_u64(&self) -> (r: bool) ensures r == (self.view() matches N::Int(i) && 0 <= i <= u64::MAX) { unimplemented!() }
    #[verifier::external_body] pub fn is_f64(&self) -> (r: bool) ensures r == (self.view() is Float) { unimplemented!() }
    #[verifier::external_body] pub fn as_i64(&self) -> (r: Option<i64>) ensures r is Some == (self.view() matches N::Int(i) && i64::MIN <= i <= i64::MAX), r matches Some(x) ==> self.view() == N::Int(x as int) { unimplemented!() }
}
// a JSON value; sonic_rs's Value and ValueRef are read as the value itself
pub enum ValueRef { Null, Bool(bool), Number(Number), String(String), Array(Vec<ValueRef>), Object(Entries) }
pub struct Entries { pub v: Vec<(String, ValueRef)> }
impl Entries { #[verifier::external_body] pub fn get(&self, n: &String) -> (r: Option<&ValueRef>) ensures r matches Some(x) ==> exists|i: int| 0 <= i < self.v@.len() && self.v@[i].1 == *x { unimplemented!() } }
impl ValueRef { #[verifier::external_body] pub fn as_ref(&self) -> (r: ValueRef) ensures r == *self { unimplemented!() } }
pub type Value = ValueRef;
#[verifier::external_body] pub fn text_of<X>(x: &X) -> String { unimplemented!() }
#[verifier::external_body] pub fn own(s: &str) -> (r: String) ensures r@ == s@ { s.to_string() }
#[verifier::external_body] pub struct Names { m: u8 }
impl View for Names { type V = Set<T>; uninterp spec fn view(&self) -> Set<T>; }
impl Names { #[verifier::external_body] pub fn contains(&self, n: &String) -> (r: bool) ensures r == self@.contains(n@) { unimplemented!() } }
#[verifier::external_body] pub struct Enums { m: u8 }
impl Enums {
    pub uninterp spec fn of(&self, n: T) -> Option<Set<T>>;
    #[verifier::external_body] pub fn get(&self, n: &String) -> (r: Option<&Names>) ensures r is Some == (self.of(n@) is Some), r matches Some(s) ==> s@ == self.of(n@)->0 { unimplemented!() }
}
pub struct FieldTypeInfo { pub output_type_name: String }
pub type Fields = Vec<(String, FieldTypeInfo)>;
#[verifier::external_body] pub fn some_text() -> String { unimplemented!() }
#[verifier::external_body] pub struct TypeFields { m: u8 }
impl TypeFields {
    pub uninterp spec fn has(&self, n: T) -> bool;
    #[verifier::external_body] pub fn get(&self, n: &String) -> (r: Option<&Fields>) ensures r is Some == self.has(n@) { unimplemented!() }
}
pub struct SchemaMetadata { pub enum_values: Enums, pub type_fields: TypeFields }
//@ file bin/router/src/query_planner/state/supergraph_state.rs
//@ extract enum TypeNode
//@ end
//@ extract method TypeNode::is_non_null
//@ opt ret r
//@ sec spec
    ensures r == (self is NonNull)
//@ end
//@ norules
//@ file bin/router/src/executor/variables/mod.rs
//@ extract enum VariableCoercionError
//@ end
use VariableCoercionError as Err_;
// ---- what a type accepts (https://spec.graphql.org/September2025/#sec-Input-Values) ----------------------------------
pub open spec fn named_of(t: TypeNode) -> T decreases t { match t { TypeNode::Named(n) => n@, TypeNode::NonNull(i) => named_of(*i), TypeNode::List(i) => named_of(*i) } }
// a variable has an input type; only objects and interfaces have fields here
pub open spec fn is_input(t: TypeNode, m: SchemaMetadata) -> bool { !m.type_fields.has(named_of(t)) }
pub open spec fn accepts(v: ValueRef, t: TypeNode, m: SchemaMetadata) -> bool decreases v, t {
    if v is Null { !(t is NonNull) }
    else { match t {
        TypeNode::NonNull(i) => accepts(v, *i, m),
        TypeNode::List(i) => match v { ValueRef::Array(a) => forall|k: int| 0 <= k < a@.len() ==> accepts(#[trigger] a@[k], *i, m), _ => accepts(v, *i, m) },
        TypeNode::Named(n) => match m.enum_values.of(n@) { Some(e) => v matches ValueRef::String(s) && e.contains(s@), None => accepts_scalar(v, n@) },
    } }
}
pub open spec fn accepts_scalar(v: ValueRef, n: T) -> bool {
    if n == "String"@ { v is String }
    else if n == "ID"@ { v is String || (v matches ValueRef::Number(x) && x.view() matches N::Int(i) && i64::MIN <= i <= u64::MAX) }
    else if n == "Int"@ { v matches ValueRef::Number(x) && x.view() matches N::Int(i) && i32::MIN <= i <= i32::MAX }
    else if n == "Float"@ { v matches ValueRef::Number(x) && match x.view() { N::Int(i) => i64::MIN <= i <= u64::MAX, N::Float => true } }
    else if n == "Boolean"@ { v is Bool }
    else { true } // custom scalars and input objects: the subgraph decides
}
//@ rewrite macro format => some_text()
//@ rewrite expr __x.to_string() ==>> text_of(&__x)
//@ rewrite expr enum_values.contains(&s.to_string()) ==>> enum_values.contains(s)
//@ rewrite expr __x.clone() ==>> text_of(&__x)
#[verifier::external_body] pub fn is_i32(n: i64) -> (r: bool) ensures r == (i32::MIN <= n <= i32::MAX) { i32::try_from(n).is_ok() }
//@ rewrite expr i32::try_from(n).is_ok() ==>> is_i32(n)
//@ rewrite expr __x.is_some_and(__f) => opt_is_some_and(__x, __f)
//@ extract fn validate_runtime_value
//@ opt ret r
//@ sec spec
    requires is_input(*type_node, *schema_metadata)
    ensures r is Ok == accepts(value, *type_node, *schema_metadata)
    decreases value, type_node
//@ sec closure 0
    |n: i64| -> (b: bool) ensures b == (i32::MIN <= n <= i32::MAX)
//@ sec loop 0 index i
        invariant false decreases 0int
//@ sec loop 1 index k
        invariant value is Array, __it1@ == value->Array_0@, 0 <= k <= __it1@.len(), is_input(**inner_type, *schema_metadata), *type_node == TypeNode::List(*inner_type),
            forall|j: int| 0 <= j < k ==> accepts(#[trigger] value->Array_0@[j], **inner_type, *schema_metadata)
        decreases __it1@.len() - k
//@ sec loopstart 1
proof { vstd::std_specs::vec::axiom_vec_index_decreases(value->Array_0, k - 1); }
//@ end
//@ norules
// ---- all variables of an operation -----------------------------------------------------------------------------------
#[verifier::external_body] pub struct AstValue { m: u8 }
pub uninterp spec fn json_of(v: AstValue) -> ValueRef; // From<&Value> for sonic_rs::Value (bounded run)
#[verifier::external_body] pub fn to_json(v: &AstValue) -> (r: Value) ensures r == json_of(*v) { unimplemented!() }
#[verifier::external_body] pub struct Vars { m: u8 }
impl View for Vars { type V = Map<T, ValueRef>; uninterp spec fn view(&self) -> Map<T, ValueRef>; }
impl Vars {
    #[verifier::external_body] pub fn new() -> (r: Vars) ensures r@ == Map::<T, ValueRef>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn remove(&mut self, n: &str) -> (r: Option<Value>) ensures r is Some == old(self)@.contains_key(n@), r matches Some(v) ==> v == old(self)@[n@], final(self)@ == old(self)@.remove(n@) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, n: String, v: Value) ensures final(self)@ == old(self)@.insert(n@, v) { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@ == Map::<T, ValueRef>::empty()) { unimplemented!() }
}
//@ file bin/router/src/query_planner/ast/operation.rs
//@ rewrite type crate::query_planner::ast::value::Value => AstValue
//@ extract struct VariableDefinition
//@ end
//@ norules
pub type Defs = Seq<VariableDefinition>;
pub struct OperationDefinition { pub variable_definitions: Option<Vec<VariableDefinition>> }
// what a variable is: what the request gives (null included), else its default, else nothing at all
pub open spec fn chosen(d: VariableDefinition, given: Map<T, ValueRef>) -> Option<ValueRef> { if given.contains_key(d.name@) { Some(given[d.name@]) } else { match d.default_value { Some(v) => Some(json_of(v)), None => None } } }
pub open spec fn fine(d: VariableDefinition, given: Map<T, ValueRef>, m: SchemaMetadata) -> bool { match chosen(d, given) { Some(v) => accepts(v, d.variable_type, m), None => !(d.variable_type is NonNull) } }
pub open spec fn distinct(s: Defs) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] s[i].name@ != #[trigger] s[j].name@ }
//@ file bin/router/src/executor/variables/mod.rs
//@ rewrite expr variable_name.to_string() ==>> own(variable_name)
//@ rewrite expr __x.to_string() ==>> text_of(&__x)
//@ rewrite expr variables_map.remove(__x) ==>> variables_map.remove(__x)
//@ rewrite expr default_value.into() ==>> to_json(default_value)
//@ extract closure 0 of fn collect_variables as one
//@ opt params variable_definition: &VariableDefinition, variables_map: &mut Vars, schema_metadata: &SchemaMetadata
//@ opt returns Result<Option<(String, Value)>, VariableCoercionError>
//@ opt ret r
//@ sec spec
    requires is_input(variable_definition.variable_type, *schema_metadata)
    ensures final(variables_map)@ == old(variables_map)@.remove(variable_definition.name@),
        r is Ok == fine(*variable_definition, old(variables_map)@, *schema_metadata),
        r matches Ok(o) ==> (match o { Some(x) => x.0@ == variable_definition.name@ && chosen(*variable_definition, old(variables_map)@) == Some(x.1), None => chosen(*variable_definition, old(variables_map)@) is None })
//@ end
//@ norules
// verified shim: `defs.iter().map(|d| one(d)).collect()` into a Result, which stops at the first error
pub fn each(defs: &Vec<VariableDefinition>, given: &mut Vars, m: &SchemaMetadata) -> (r: Result<Vec<Option<(String, Value)>>, VariableCoercionError>)
    requires distinct(defs@), forall|i: int| 0 <= i < defs@.len() ==> is_input((#[trigger] defs@[i]).variable_type, *m)
    ensures r is Ok == (forall|i: int| 0 <= i < defs@.len() ==> fine(#[trigger] defs@[i], old(given)@, *m)),
        r matches Ok(v) ==> v@.len() == defs@.len() && forall|i: int| 0 <= i < v@.len() ==> match #[trigger] v@[i] { Some(x) => x.0@ == defs@[i].name@ && chosen(defs@[i], old(given)@) == Some(x.1), None => chosen(defs@[i], old(given)@) is None }
{
    let mut out: Vec<Option<(String, Value)>> = Vec::new(); let mut k = 0;
    let ghost g0 = given@;
    while k < defs.len()
        invariant 0 <= k <= defs@.len(), out@.len() == k, g0 == old(given)@, distinct(defs@), forall|i: int| 0 <= i < defs@.len() ==> is_input((#[trigger] defs@[i]).variable_type, *m),
            forall|i: int| k <= i < defs@.len() ==> given@.contains_key((#[trigger] defs@[i]).name@) == g0.contains_key(defs@[i].name@) && (g0.contains_key(defs@[i].name@) ==> given@[defs@[i].name@] == g0[defs@[i].name@]),
            forall|i: int| 0 <= i < k ==> fine(#[trigger] defs@[i], g0, *m),
            forall|i: int| 0 <= i < k ==> match #[trigger] out@[i] { Some(x) => x.0@ == defs@[i].name@ && chosen(defs@[i], g0) == Some(x.1), None => chosen(defs@[i], g0) is None }
        decreases defs@.len() - k
    {
        let ghost before = given@; let ghost d = defs@[k as int];
        proof { assert(chosen(d, before) == chosen(d, g0)); assert(fine(d, before, *m) == fine(d, g0, *m)); assert forall|i: int| k < i < defs@.len() implies #[trigger] defs@[i].name@ != d.name@ by { assert(defs@[k as int].name@ != defs@[i].name@); } }
        match one(&defs[k], given, m) { Ok(o) => { out.push(o); } Err(e) => { proof { assert(!fine(defs@[k as int], g0, *m)); } return Err(e); } }
        k += 1;
    }
    Ok(out)
}
// verified shim: `v.into_iter().flatten().collect()` into a map
pub fn to_map(v: Vec<Option<(String, Value)>>) -> (r: Vars)
    requires forall|i: int, j: int| 0 <= i < j < v@.len() && (#[trigger] v@[i]) is Some && (#[trigger] v@[j]) is Some ==> (v@[i]->0).0@ != (v@[j]->0).0@
    ensures forall|i: int| 0 <= i < v@.len() && (#[trigger] v@[i]) is Some ==> r@.contains_key((v@[i]->0).0@) && r@[(v@[i]->0).0@] == (v@[i]->0).1,
        forall|n: T| #[trigger] r@.contains_key(n) ==> exists|i: int| 0 <= i < v@.len() && (#[trigger] v@[i]) is Some && (v@[i]->0).0@ == n
{
    let mut r = Vars::new(); let ghost v0 = v@; let mut v = v;
    while v.len() > 0
        invariant v@.len() <= v0.len(), v@ == v0.skip(v0.len() - v@.len()),
            forall|i: int, j: int| 0 <= i < j < v0.len() && (#[trigger] v0[i]) is Some && (#[trigger] v0[j]) is Some ==> (v0[i]->0).0@ != (v0[j]->0).0@,
            forall|i: int| 0 <= i < v0.len() - v@.len() && (#[trigger] v0[i]) is Some ==> r@.contains_key((v0[i]->0).0@) && r@[(v0[i]->0).0@] == (v0[i]->0).1,
            forall|n: T| #[trigger] r@.contains_key(n) ==> exists|i: int| 0 <= i < v0.len() - v@.len() && (#[trigger] v0[i]) is Some && (v0[i]->0).0@ == n
        decreases v@.len()
    {
        let ghost (k, r0) = (v0.len() - v@.len(), r@);
        let x = v.remove(0);
        proof { assert(x == v0[k]); assert(v@ =~= v0.skip(k + 1)); }
        if let Some((n, y)) = x { r.insert(n, y); proof { assert(v0[k] is Some && (v0[k]->0).0@ == n@); } }
        proof { assert forall|n: T| #[trigger] r@.contains_key(n) implies exists|i: int| 0 <= i < k + 1 && (#[trigger] v0[i]) is Some && (v0[i]->0).0@ == n by { if r0.contains_key(n) { let i = choose|i: int| 0 <= i < k && (#[trigger] v0[i]) is Some && (v0[i]->0).0@ == n; assert(v0[i] is Some); } else { assert(v0[k] is Some); } } }
    }
    r
}
pub open spec fn entry(o: Option<Vars>, n: T) -> Option<ValueRef> { match o { Some(m) => if m@.contains_key(n) { Some(m@[n]) } else { None }, None => None } }
//@ file bin/router/src/executor/variables/mod.rs
//@ rewrite type HashMap<String,Value> => Vars
//@ rewrite path crate::query_planner::ast::operation::OperationDefinition => OperationDefinition
//@ rewrite type crate::query_planner::ast::operation::OperationDefinition => OperationDefinition
//@ rewrite expr operation.variable_definitions.as_ref().unwrap() ==>> must(&operation.variable_definitions)
//@ rewrite expr variable_definitions.iter().map(__f).collect() ==>> each(variable_definitions, variables_map, schema_metadata)
//@ rewrite expr collected_variables?.into_iter().flatten().collect() ==>> { let got = collected_variables?; let ghost v = got@; let out = to_map(got); proof { as_chosen(operation.variable_definitions->0@, old(variables_map)@, v, out@); } out }
pub fn must<X>(o: &Option<X>) -> (r: &X) requires *o is Some ensures *r == (*o)->0 { match o { Some(x) => x, None => vstd::pervasive::unreached() } }
pub open spec fn ones(d: Defs, g: Map<T, ValueRef>, v: Seq<Option<(String, Value)>>) -> bool { v.len() == d.len() && forall|i: int| 0 <= i < v.len() ==> match #[trigger] v[i] { Some(x) => x.0@ == d[i].name@ && chosen(d[i], g) == Some(x.1), None => chosen(d[i], g) is None } }
proof fn as_chosen(d: Defs, g: Map<T, ValueRef>, v: Seq<Option<(String, Value)>>, m: Map<T, ValueRef>)
    requires ones(d, g, v), distinct(d), forall|i: int| 0 <= i < v.len() && (#[trigger] v[i]) is Some ==> m.contains_key((v[i]->0).0@) && m[(v[i]->0).0@] == (v[i]->0).1, forall|n: T| #[trigger] m.contains_key(n) ==> exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]) is Some && (v[i]->0).0@ == n
    ensures forall|i: int| 0 <= i < d.len() ==> (match chosen(#[trigger] d[i], g) { Some(x) => m.contains_key(d[i].name@) && m[d[i].name@] == x, None => !m.contains_key(d[i].name@) }), forall|n: T| #[trigger] m.contains_key(n) ==> exists|i: int| 0 <= i < d.len() && (#[trigger] d[i]).name@ == n
{
    assert forall|i: int| 0 <= i < d.len() implies (match chosen(#[trigger] d[i], g) { Some(x) => m.contains_key(d[i].name@) && m[d[i].name@] == x, None => !m.contains_key(d[i].name@) }) by {
        assert(v[i] is Some == (chosen(d[i], g) is Some));
        if chosen(d[i], g) is None && m.contains_key(d[i].name@) { let j = choose|j: int| 0 <= j < v.len() && (#[trigger] v[j]) is Some && (v[j]->0).0@ == d[i].name@; assert(d[j].name@ == d[i].name@); if j < i { assert(d[j].name@ != d[i].name@); } if i < j { assert(d[i].name@ != d[j].name@); } }
    }
    assert forall|n: T| #[trigger] m.contains_key(n) implies exists|i: int| 0 <= i < d.len() && (#[trigger] d[i]).name@ == n by { let j = choose|j: int| 0 <= j < v.len() && (#[trigger] v[j]) is Some && (v[j]->0).0@ == n; assert(d[j].name@ == n); }
}
//@ extract fn collect_variables
//@ opt ret r
//@ sec spec
    requires operation.variable_definitions matches Some(d) ==> distinct(d@) && forall|i: int| 0 <= i < d@.len() ==> is_input((#[trigger] d@[i]).variable_type, *schema_metadata)
    ensures match operation.variable_definitions {
        None => r matches Ok(o) && o is None,
        Some(d) => {
            // refused unless every definition accepts what it gets; else exactly the chosen values, under the defined names only
            &&& r is Ok == (forall|i: int| 0 <= i < d@.len() ==> fine(#[trigger] d@[i], old(variables_map)@, *schema_metadata))
            &&& r matches Ok(o) ==> (forall|i: int| 0 <= i < d@.len() ==> entry(o, (#[trigger] d@[i]).name@) == chosen(d@[i], old(variables_map)@))
                && forall|n: T| (#[trigger] entry(o, n)) is Some ==> exists|i: int| 0 <= i < d@.len() && (#[trigger] d@[i]).name@ == n
        }
    }
//@ end
}
fn main() {}
