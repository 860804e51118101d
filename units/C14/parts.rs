//@-- C14: which branch of a condition is executed, and what an entity fetch returns
//@ include ../lib/prelude.rs
verus! {
//@ dropmacro warn debug trace info error
pub type T = Seq<char>;
#[verifier::external_body] pub struct Text { m: u8 }
//@ file bin/router/src/executor/response/value.rs
//@ rewrite type Cow<'a,str> => Text
//@ extract enum Value
//@ opt attr #[verifier::ext_equal]
//@ end
//@ norules
pub type Fs<'a> = Seq<(&'a str, Value<'a>)>;
pub open spec fn holds(a: Fs, k: T) -> bool { exists|i: int| 0 <= i < a.len() && (#[trigger] a[i]).0@ == k }
pub open spec fn place(a: Fs, k: T) -> int { choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).0@ == k }
#[verifier::external_body] pub fn find_key(m: &Vec<(&str, Value)>, key: &str) -> (r: Result<usize, usize>)
    ensures r is Ok == holds(m@, key@), r matches Ok(i) ==> i < m@.len() && i == place(m@, key@) && m@[i as int].0@ == key@ { unimplemented!() }
//@ rewrite expr data.binary_search_by_key(&key, |(k, _)| *k) ==>> find_key(data, key)
//@ extract method Value::take_entities_by_key
//@ opt ret r
//@ sec spec
    // the list under that name, which leaves the data; nothing when there is no such list
    ensures match *old(self) {
        Value::Object(m) if holds(m@, key@) && m@[place(m@, key@)].1 is Array => r == Some(m@[place(m@, key@)].1->Array_0) && *final(self) is Object && final(self)->Object_0@ == m@.remove(place(m@, key@)),
        Value::Object(_) => r is None,
        _ => r is None && *final(self) == *old(self),
    }
//@ end
//@ norules
// ---- conditions ---------------------------------------------------------------------------------------------------
#[verifier::external_body] pub struct PlanNode { m: u8 }
#[verifier::external_body] pub struct VariablesMap { m: u8 }
#[verifier::external_body] pub struct JsonValue { m: u8 }
pub enum ValueRef { Bool(bool), Other }
impl JsonValue { pub uninterp spec fn view(&self) -> ValueRef; #[verifier::external_body] pub fn as_ref(&self) -> (r: ValueRef) ensures r == self.view() { unimplemented!() } }
impl VariablesMap {
    pub uninterp spec fn of(&self, n: T) -> Option<ValueRef>;
    #[verifier::external_body] pub fn get(&self, n: &String) -> (r: Option<&JsonValue>) ensures r is Some == (self.of(n@) is Some), r matches Some(v) ==> v.view() == self.of(n@)->0 { unimplemented!() }
}
pub open spec fn settled(v: Option<VariablesMap>, n: T) -> Option<bool> { match v { None => None, Some(m) => match m.of(n) { None => None, Some(x) => Some(x == ValueRef::Bool(true)) } } }
//@ file bin/router/src/query_planner/planner/plan_nodes.rs
//@ extract struct ConditionNode
//@ end
pub fn target<'a>(o: &'a Option<Box<PlanNode>>) -> (r: Option<&'a PlanNode>) ensures r is Some == (*o is Some), r matches Some(x) ==> *x == *((*o)->0) { match o { Some(b) => Some(b), None => None } }
//@ file bin/router/src/executor/execution/plan.rs
//@ rewrite expr condition_node.if_clause.as_deref() ==>> { target(&condition_node.if_clause) }
//@ rewrite expr condition_node.else_clause.as_deref() ==>> { target(&condition_node.else_clause) }
//@ extract fn condition_node_by_variables
//@ opt ret r
//@ sec spec
    // the branch that the variable settles: `if` when it is true, otherwise `else`; a variable without a value runs neither
    ensures match settled(*variable_values, condition_node.condition@) {
        None => r is None,
        Some(b) => { let c = if b { condition_node.if_clause } else { condition_node.else_clause }; r is Some == (c is Some) && (c matches Some(x) ==> *(r->0) == *x) },
    }
//@ end
}
fn main() {}
