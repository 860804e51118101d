//@-- C12: progressive overrides, and what of them goes into the key
//@ include ../lib/prelude.rs
//@ include ../lib/toks.rs
verus! {
// ---- trusted: std's sets and maps ----------------------------------------------------------------------
// a set or a map is walked over in some order; which, is not said
pub struct Bag<T> { pub items: Vec<T> }
pub trait Key { type V; spec fn v(&self) -> Self::V; }
impl Key for String { type V = Seq<char>; open spec fn v(&self) -> Seq<char> { self@ } }
impl Key for u64 { type V = u64; open spec fn v(&self) -> u64 { *self } }
impl<T: Key> Bag<T> {
    pub open spec fn has(&self, x: T::V) -> bool { exists|i: int| 0 <= i < self.items@.len() && (#[trigger] self.items@[i]).v() == x }
    #[verifier::external_body] pub fn insert(&mut self, x: T) ensures forall|y: T::V| #[trigger] final(self).has(y) <==> old(self).has(y) || y == x.v() { unimplemented!() }
}
impl<T> vstd::view::View for Bag<T> { type V = Seq<T>; open spec fn view(&self) -> Seq<T> { self.items@ } }
impl<T> Bag<T> { pub fn len(&self) -> (r: usize) ensures r == self@.len() { self.items.len() } }
impl<T> vstd::std_specs::core::IndexSpecImpl<usize> for Bag<T> { open spec fn index_req(&self, i: &usize) -> bool { *i < self@.len() } }
impl<T> std::ops::Index<usize> for Bag<T> { type Output = T; fn index(&self, i: usize) -> (r: &T) ensures *r == self@[i as int] { &self.items[i] } }
impl Bag<String> { #[verifier::external_body] pub fn contains(&self, x: &str) -> (r: bool) ensures r == self.has(x@) { unimplemented!() } }
impl<T: Key> Clone for Bag<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures forall|y: T::V| #[trigger] r.has(y) <==> self.has(y) { unimplemented!() } }
#[verifier::external_body] #[verifier::reject_recursive_types(K)] pub struct Sorted<K> { m: Vec<K> }
pub uninterp spec fn map_toks<V>(m: Map<V, bool>) -> Toks;
// a map feeds how many entries it has, then each: what is read off one stream is read off an equal one
pub axiom fn cut_map<V>(a: Map<V, bool>, b: Map<V, bool>, ra: Toks, rb: Toks) requires map_toks(a) + ra == map_toks(b) + rb ensures a == b, ra == rb;
impl<K: Key> Sorted<K> {
    pub uninterp spec fn view(&self) -> Map<K::V, bool>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Map::<K::V, bool>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: K, v: bool) ensures final(self)@ == old(self)@.insert(k.v(), v) { unimplemented!() }
}
impl<K: Key> Feed for Sorted<K> { open spec fn toks(&self) -> Toks { map_toks(self@) } #[verifier::external_body] fn feed<H: Hasher>(&self, state: &mut H) { unimplemented!() } }
pub type Percentage = u64;
// ---- which labels a supergraph has ----------------------------------------------------------------------
//@ norules
//@ rewrite type HashSet<String> => Bag<String>
//@ rewrite type HashSet<Percentage> => Bag<Percentage>
//@ file bin/router/src/query_planner/graph/edge.rs
//@ extract enum OverrideLabel
//@ end
// of a field's @join__field, only its label is read here; the rest of it is dropped
pub struct JoinFieldDirective { pub override_label: Option<OverrideLabel> }
pub struct FieldDef { pub join_field: Vec<JoinFieldDirective> }
pub struct Definition { pub all: Vec<FieldDef> }
pub struct DefinitionMap { pub all: Vec<Definition> }
impl DefinitionMap { pub fn values(&self) -> (r: &Vec<Definition>) ensures *r == self.all { &self.all } }
impl Definition { pub fn fields(&self) -> (r: &Definition) ensures *r == *self { self } pub fn values(&self) -> (r: &Vec<FieldDef>) ensures *r == self.all { &self.all } }
//@ file bin/router/src/query_planner/state/supergraph_state.rs
//@ extract struct ProgressiveOverrides
//@ end
#[verifier::external_body] pub fn no_overrides() -> (r: ProgressiveOverrides) ensures forall|y: Seq<char>| !#[trigger] r.flags.has(y), forall|y: u64| !#[trigger] r.percentages.has(y) { unimplemented!() }
pub open spec fn knows(p: ProgressiveOverrides, l: OverrideLabel) -> bool { match l { OverrideLabel::Custom(f) => p.flags.has(f@), OverrideLabel::Percentage(x) => p.percentages.has(x) } }
pub open spec fn known_join(p: ProgressiveOverrides, f: FieldDef, n: int) -> bool { forall|k: int| 0 <= k < n ==> ((#[trigger] f.join_field@[k]).override_label matches Some(l) ==> knows(p, l)) }
pub open spec fn known_fields(p: ProgressiveOverrides, d: Definition, n: int) -> bool { forall|j: int| 0 <= j < n ==> known_join(p, #[trigger] d.all@[j], d.all@[j].join_field@.len() as int) }
pub open spec fn known_defs(p: ProgressiveOverrides, m: DefinitionMap, n: int) -> bool { forall|i: int| 0 <= i < n ==> known_fields(p, #[trigger] m.all@[i], m.all@[i].all@.len() as int) }
pub open spec fn grows(p: ProgressiveOverrides, q: ProgressiveOverrides) -> bool { forall|l: OverrideLabel| #[trigger] knows(p, l) ==> knows(q, l) }
// of a supergraph, only its labels are read here
pub struct SupergraphState { pub progressive_overrides: ProgressiveOverrides }
//@ rewrite expr ProgressiveOverrides::default() => no_overrides()
//@ extract method SupergraphState::extract_progressive_overrides
//@ opt ret r
//@ sec spec
    ensures known_defs(r, *definitions, definitions.all@.len() as int)
//@ sec loop 0 iter i0
    invariant i0.seq().len() == definitions.all@.len(), forall|i: int| 0 <= i < i0.seq().len() ==> *(#[trigger] i0.seq()[i]) == definitions.all@[i], known_defs(overrides, *definitions, i0.index@ as int)
//@ sec loop 1 iter i1
    invariant i1.seq().len() == definition.all@.len(), forall|i: int| 0 <= i < i1.seq().len() ==> *(#[trigger] i1.seq()[i]) == definition.all@[i],
        known_defs(overrides, *definitions, i0.index@ as int), known_fields(overrides, *definition, i1.index@ as int)
//@ sec loop 2 iter i2
    invariant i2.seq().len() == field.join_field@.len(), forall|i: int| 0 <= i < i2.seq().len() ==> *(#[trigger] i2.seq()[i]) == field.join_field@[i],
        known_defs(overrides, *definitions, i0.index@ as int), known_fields(overrides, *definition, i1.index@ as int), known_join(overrides, *field, i2.index@ as int)
//@ end
// ---- what of a request decides overrides ----------------------------------------------------------------
//@ norules
//@ rewrite type HashSet<String> => Bag<String>
//@ rewrite type BTreeMap<String,bool> => Sorted<String>
//@ rewrite type BTreeMap<u64,bool> => Sorted<u64>
//@ rewrite expr BTreeMap::new() => Sorted::new()
//@ rewrite expr __x.hash(__h) => __x.feed(__h)
//@ file bin/router/src/query_planner/graph/edge.rs
pub type ActiveFlags = Bag<String>;
//@ extract struct PlannerOverrideContext
//@ end
//@ extract method PlannerOverrideContext::new
//@ opt ret r
//@ sec spec
    ensures r.active_flags == active_flags, r.request_percentage_value == request_percentage_value
//@ end
//@ extract method PlannerOverrideContext::is_flag_active
//@ opt ret r
//@ sec spec
    ensures r == self.active_flags.has(flag_name@)
//@ end
//@ extract method PlannerOverrideContext::is_in_range
//@ opt ret r
//@ sec spec
    ensures r == (self.request_percentage_value < *percentage)
//@ end
// of a move, only what the overrides read
pub struct FieldMove { pub override_label: Option<OverrideLabel>, pub overridden_by: Option<(String, Option<OverrideLabel>)> }
pub open spec fn on(l: OverrideLabel, c: PlannerOverrideContext) -> bool { match l { OverrideLabel::Custom(f) => c.active_flags.has(f@), OverrideLabel::Percentage(p) => c.request_percentage_value < p } }
pub open spec fn open_to(m: FieldMove, c: PlannerOverrideContext) -> bool {
    match m.overridden_by { Some((_, Some(l))) => !on(l, c), Some((_, None)) => false, None => match m.override_label { Some(l) => on(l, c), None => true } }
}
//@ extract method FieldMove::check_progressive_override
//@ opt ret r
//@ sec spec
    ensures r == (is_overriding_field == on(*label, *ctx))
//@ end
//@ extract method FieldMove::satisfies_override_rules
//@ opt ret r
//@ sec spec
    ensures r == open_to(*self, *ctx)
//@ end
//@ file bin/router/src/pipeline/progressive_override.rs
//@ extract struct RequestOverrideContext
//@ end
//@ extract method From<&RequestOverrideContext> for PlannerOverrideContext::from
//@ opt ret r
//@ sec spec
    ensures r.request_percentage_value == value.percentage_value, forall|y: Seq<char>| #[trigger] r.active_flags.has(y) <==> value.active_flags.has(y)
//@ end
//@ extract struct StableOverrideContext
//@ end
pub open spec fn stable_flags(m: Map<Seq<char>, bool>, p: ProgressiveOverrides, r: RequestOverrideContext) -> bool { forall|f: Seq<char>| #[trigger] p.flags.has(f) ==> m.dom().contains(f) && m[f] == r.active_flags.has(f) }
pub open spec fn stable(s: StableOverrideContext, p: ProgressiveOverrides, r: RequestOverrideContext) -> bool {
    stable_flags(s.active_flags@, p, r)
    && (forall|t: u64| #[trigger] p.percentages.has(t) ==> s.percentage_outcomes@.dom().contains(t) && s.percentage_outcomes@[t] == (r.percentage_value < t))
}
//@ rewrite expr &supergraph.progressive_overrides.flags => &supergraph.progressive_overrides.flags.items
//@ rewrite expr &supergraph.progressive_overrides.percentages => &supergraph.progressive_overrides.percentages.items
//@ extract method StableOverrideContext::new
//@ opt ret r
//@ sec spec
    ensures stable(r, supergraph.progressive_overrides, *request_override_context)
//@ sec loop 0 iter it
    invariant it.seq().len() == supergraph.progressive_overrides.flags.items@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == supergraph.progressive_overrides.flags.items@[i],
        forall|i: int| 0 <= i < it.index@ ==> active_flags@.dom().contains((#[trigger] supergraph.progressive_overrides.flags.items@[i])@),
        forall|f: Seq<char>| #[trigger] active_flags@.dom().contains(f) ==> active_flags@[f] == request_override_context.active_flags.has(f)
//@ sec loop 1 index k
    invariant __it1@ == supergraph.progressive_overrides.percentages.items@, k <= __it1@.len(),
        stable_flags(active_flags@, supergraph.progressive_overrides, *request_override_context),
        forall|i: int| 0 <= i < k ==> percentage_outcomes@.dom().contains(#[trigger] supergraph.progressive_overrides.percentages.items@[i]),
        forall|t: u64| #[trigger] percentage_outcomes@.dom().contains(t) ==> percentage_outcomes@[t] == (request_override_context.percentage_value < t)
    decreases __it1@.len() - k
//@ end
//@ file bin/router/src/pipeline/query_plan.rs
// trusted: what #[derive(Hash)] does
impl Feed for StableOverrideContext { open spec fn toks(&self) -> Toks { map_toks(self.active_flags@) + map_toks(self.percentage_outcomes@) } #[verifier::external_body] fn feed<H: Hasher>(&self, state: &mut H) { unimplemented!() } }
pub open spec fn key_toks(h: u64, s: StableOverrideContext) -> Toks { word(h as int) + s.toks() }
//@ extract fn calculate_cache_key
//@ opt ret r
//@ sec spec
    ensures r == digest(key_toks(operation_hash, *context))
//@ sec start
    broadcast use add3;
//@ end
// two requests that feed the key of the plan cache the same are decided the same way, for every move
// over a field whose labels the supergraph lists
pub proof fn one_key_one_plan(p: ProgressiveOverrides, h1: u64, h2: u64, s1: StableOverrideContext, s2: StableOverrideContext, r1: RequestOverrideContext, r2: RequestOverrideContext, c1: PlannerOverrideContext, c2: PlannerOverrideContext, m: FieldMove)
    requires key_toks(h1, s1) == key_toks(h2, s2), stable(s1, p, r1), stable(s2, p, r2),
        PlannerOverrideContext::from.ensures((&r1,), c1), PlannerOverrideContext::from.ensures((&r2,), c2),
        m.override_label matches Some(l) ==> knows(p, l), m.overridden_by matches Some((_, Some(l))) ==> knows(p, l),
    ensures h1 == h2, open_to(m, c1) == open_to(m, c2),
{
    cut_word(h1 as int, h2 as int, s1.toks(), s2.toks());
    let (e1, e2) = (map_toks(s1.percentage_outcomes@), map_toks(s2.percentage_outcomes@));
    cut_map(s1.active_flags@, s2.active_flags@, e1, e2);
    assert(e1 + Seq::<Tok>::empty() =~= e1); assert(e2 + Seq::<Tok>::empty() =~= e2);
    cut_map(s1.percentage_outcomes@, s2.percentage_outcomes@, Seq::<Tok>::empty(), Seq::<Tok>::empty());
}
} // verus!
fn main() {}
