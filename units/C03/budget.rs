//@-- C03: which subgraphs are over their budget, default list sizes
//@ include ../lib/prelude.rs
use std::sync::Arc;
verus! {
//@ dropmacro warn debug trace info error
// trusted: HashMap<String, usize> of the configuration
#[verifier::external_body] pub struct LimitMap { m: u8 }
impl View for LimitMap { type V = Map<Seq<char>, usize>; uninterp spec fn view(&self) -> Map<Seq<char>, usize>; }
impl LimitMap {
    #[verifier::external_body]
    pub fn get(&self, k: &str) -> (r: Option<&usize>)
        ensures r is Some <==> self@.dom().contains(k@), r matches Some(x) ==> *x == self@[k@] { unimplemented!() }
}
// trusted: BTreeMap<String, u64>; `entries` lists it (the iteration of `for (k, v) in map`)
#[verifier::external_body] pub struct CostMap { m: u8 }
impl View for CostMap { type V = Map<Seq<char>, u64>; uninterp spec fn view(&self) -> Map<Seq<char>, u64>; }
impl CostMap {
    #[verifier::external_body]
    pub fn new() -> (r: CostMap) ensures r@ == Map::<Seq<char>, u64>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: String, v: u64) -> (r: Option<u64>) ensures final(self)@ == old(self)@.insert(k@, v) { unimplemented!() }
    #[verifier::external_body]
    pub fn entries(&self) -> (r: Vec<(&String, &u64)>)
        ensures
            forall|i: int| 0 <= i < r@.len() ==> self@.dom().contains((#[trigger] r@[i]).0@) && self@[r@[i].0@] == *r@[i].1,
            forall|k: Seq<char>| #[trigger] self@.dom().contains(k) ==> exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i]).0@ == k,
    { unimplemented!() }
}
#[verifier::external_body]
pub fn clone_string(s: &String) -> (r: String) ensures r == *s { s.clone() }
// verified shims
pub fn opt_copied(o: Option<&usize>) -> (r: Option<usize>) ensures r is Some <==> o is Some, r matches Some(x) ==> x == *(o->0) { match o { Some(x) => Some(*x), None => None } }
pub fn opt_or<T>(a: Option<T>, b: Option<T>) -> (r: Option<T>) ensures a is Some ==> r == a, a is None ==> r == b { match a { Some(x) => Some(x), None => b } }
pub fn opt_get<'a>(o: Option<&'a LimitMap>, k: &str) -> (r: Option<&'a usize>)
    ensures r is Some <==> (o is Some && o->0@.dom().contains(k@)), r matches Some(x) ==> *x == o->0@[k@]
{ match o { Some(m) => m.get(k), None => None } }
pub fn opt_wide(o: Option<&usize>) -> (r: Option<u64>) ensures r is Some <==> o is Some, r matches Some(x) ==> x == *(o->0) { match o { Some(x) => Some(*x as u64), None => None } }

//@ file bin/router/src/config/demand_control.rs
//@ rewrite type HashMap<String,usize> => LimitMap
//@ extract struct DefaultListSizeConfig
//@ end
//@ extract struct SubgraphsBudgetConfig
//@ opt keepfields all subgraphs
//@ end
//@ extract struct DemandControlConfig
//@ opt keepfields default_list_size subgraphs_budget
//@ end
pub struct DemandControlEvaluation { pub estimated_cost: u64, pub per_subgraph: Arc<CostMap> }
//@ file bin/router/src/pipeline/demand_control/runtime.rs
//@ rewrite type BTreeMap<String,u64> => CostMap
//@ rewrite expr BTreeMap::new() => CostMap::new()
//@ rewrite expr default_list_size_cfg.subgraphs.as_ref().and_then(|subgraphs| subgraphs.get(subgraph_name)).copied().or(default_list_size_cfg.all) => opt_or(opt_copied(opt_get(default_list_size_cfg.subgraphs.as_ref(), subgraph_name)), default_list_size_cfg.all)
//@ rewrite expr subgraphs_overrides.and_then(|subgraphs| subgraphs.get(subgraph.as_str())) => opt_get(subgraphs_overrides, subgraph.as_str())
//@ rewrite expr subgraph_override_max.or(default_subgraph_max).map(|cfg| *cfg as u64) => opt_wide(opt_or(subgraph_override_max, default_subgraph_max))
//@ rewrite expr evaluation.per_subgraph.as_ref() => evaluation.per_subgraph.entries()
//@ rewrite expr subgraph.clone() => clone_string(subgraph)
//@ extract struct DemandControlRuntime
//@ opt keepfields config
//@ end
// the limit of one subgraph: its own one, else the one for all, else none
pub open spec fn over<T>(own: Option<LimitMap>, all: Option<usize>, name: Seq<char>) -> Option<usize> {
    if own is Some && own->0@.dom().contains(name) { Some(own->0@[name]) } else { all }
}
pub open spec fn blocked(c: SubgraphsBudgetConfig, costs: Map<Seq<char>, u64>, name: Seq<char>) -> bool {
    costs.dom().contains(name) && (over::<u8>(c.subgraphs, c.all, name) matches Some(m) && costs[name] > m)
}
//@ extract method DemandControlRuntime::default_list_size_for_subgraph
//@ sec spec
    ensures r == match over::<u8>(self.config.default_list_size.subgraphs, self.config.default_list_size.all, subgraph_name@) { Some(n) => n, None => 0 }
//@ end
//@ extract method DemandControlRuntime::list_blocked_subgraphs
//@ sec spec
    ensures
        forall|k: Seq<char>| #[trigger] r@.dom().contains(k) <==> blocked(self.config.subgraphs_budget, (*evaluation.per_subgraph)@, k),
        forall|k: Seq<char>| #[trigger] r@.dom().contains(k) ==> r@[k] == over::<u8>(self.config.subgraphs_budget.subgraphs, self.config.subgraphs_budget.all, k)->0,
//@ sec loop 0 iter it
        invariant
            *subgraph_config == self.config.subgraphs_budget,
            default_subgraph_max is Some <==> subgraph_config.all is Some, default_subgraph_max is Some ==> *default_subgraph_max->0 == subgraph_config.all->0,
            subgraphs_overrides is Some <==> subgraph_config.subgraphs is Some, subgraphs_overrides is Some ==> *subgraphs_overrides->0 == subgraph_config.subgraphs->0,
            forall|i: int| 0 <= i < it.seq().len() ==> (*evaluation.per_subgraph)@.dom().contains((#[trigger] it.seq()[i]).0@) && (*evaluation.per_subgraph)@[it.seq()[i].0@] == *it.seq()[i].1,
            forall|k: Seq<char>| #[trigger] (*evaluation.per_subgraph)@.dom().contains(k) ==> exists|i: int| 0 <= i < it.seq().len() && (#[trigger] it.seq()[i]).0@ == k,
            forall|k: Seq<char>| #[trigger] over_limit@.dom().contains(k) ==> blocked(self.config.subgraphs_budget, (*evaluation.per_subgraph)@, k)
                && over_limit@[k] == over::<u8>(self.config.subgraphs_budget.subgraphs, self.config.subgraphs_budget.all, k)->0,
            forall|i: int| 0 <= i < it.index@ && blocked(self.config.subgraphs_budget, (*evaluation.per_subgraph)@, (#[trigger] it.seq()[i]).0@) ==> over_limit@.dom().contains(it.seq()[i].0@),
//@ end
} // verus!
fn main() {}
