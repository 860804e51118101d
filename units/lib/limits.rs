// ---- trusted: the two hash maps of the limit rules, as maps from fragment names ---------------
#[verifier::external_body]
pub struct FragMap<'doc> { p: std::marker::PhantomData<&'doc ()> }
pub uninterp spec fn frags<'doc>(m: FragMap<'doc>) -> Map<Seq<char>, FragmentDefinition>;
impl<'doc> FragMap<'doc> {
    #[verifier::external_body]
    pub fn get(&self, k: &str) -> (r: Option<&&'doc FragmentDefinition>)
        ensures r is Some <==> frags(*self).contains_key(k@), r is Some ==> **(r->0) == frags(*self)[k@] { unimplemented!() }
}
#[verifier::external_body]
pub struct VisitedMap<'doc> { p: std::marker::PhantomData<&'doc ()> }
pub uninterp spec fn seen<'doc>(m: VisitedMap<'doc>) -> Map<Seq<char>, VisitedFragment>;
impl<'doc> VisitedMap<'doc> {
    #[verifier::external_body]
    pub fn get(&self, k: &str) -> (r: Option<&VisitedFragment>)
        ensures r is Some <==> seen(*self).contains_key(k@), r is Some ==> *(r->0) == seen(*self)[k@] { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: &'doc str, v: VisitedFragment)
        ensures seen(*final(self)) == seen(*old(self)).insert(k@, v) { unimplemented!() }
    #[verifier::external_body]
    pub fn empty() -> (r: Self) ensures seen(r) == Map::<Seq<char>, VisitedFragment>::empty() { unimplemented!() }
}
pub open spec fn frag_copied<'a, 'd>(o: Option<&'a &'d FragmentDefinition>) -> Option<&'d FragmentDefinition> {
    match o { Some(x) => Some(*x), None => None }
}
pub fn opt_copied<'a, 'd>(o: Option<&'a &'d FragmentDefinition>) -> (r: Option<&'d FragmentDefinition>) ensures r == frag_copied(o) {
    match o { Some(x) => Some(*x), None => None }
}
#[verifier::external_body]
pub struct Locations { p: Vec<u8> }
#[verifier::external_body]
pub fn no_locations() -> Locations { unimplemented!() }
#[verifier::external_body]
pub fn owned(s: &str) -> (r: String) ensures r@ == s@ { s.to_string() }
pub struct ValidationError { pub locations: Locations, pub message: String, pub error_code: &'static str }
pub struct ErrorSink { pub errors: Vec<ValidationError> }
impl ErrorSink {
    pub fn report_error(&mut self, e: ValidationError) ensures final(self).errors@ == old(self).errors@.push(e) { self.errors.push(e); }
}
pub struct DocContext<'doc> { pub known_fragments: FragMap<'doc> }

// ---- which fragments are spread below a node: acyclicity is a strictly decreasing rank ----------
pub uninterp spec fn rank<'doc>(m: FragMap<'doc>, name: Seq<char>) -> nat;
pub open spec fn below_sel<'doc>(m: FragMap<'doc>, s: Selection, b: nat) -> bool decreases s, 0nat {
    match s {
        Selection::Field(f) => below_items(m, f.selection_set.items, f.selection_set.items@.len(), b),
        Selection::InlineFragment(f) => below_items(m, f.selection_set.items, f.selection_set.items@.len(), b),
        Selection::FragmentSpread(f) => rank(m, f.fragment_name@) < b,
    }
}
pub open spec fn below_items<'doc>(m: FragMap<'doc>, items: Vec<Selection>, k: nat, b: nat) -> bool decreases items, k {
    if k == 0 || k > items@.len() { true } else { below_items(m, items, (k - 1) as nat, b) && below_sel(m, items@[k - 1], b) }
}
pub open spec fn below<'doc>(m: FragMap<'doc>, n: CountableNode, b: nat) -> bool {
    match n {
        CountableNode::FragmentSpread(f) => rank(m, f.fragment_name@) < b,
        _ => below_items(m, node_sel(n)->0.items, node_sel(n)->0.items@.len(), b),
    }
}
pub proof fn below_sel_mono<'doc>(m: FragMap<'doc>, s: Selection, b: nat, c: nat)
    requires below_sel(m, s, b), b <= c ensures below_sel(m, s, c) decreases s, 0nat
{
    match s {
        Selection::Field(f) => below_items_mono(m, f.selection_set.items, f.selection_set.items@.len(), b, c),
        Selection::InlineFragment(f) => below_items_mono(m, f.selection_set.items, f.selection_set.items@.len(), b, c),
        Selection::FragmentSpread(f) => {}
    }
}
pub proof fn below_items_mono<'doc>(m: FragMap<'doc>, items: Vec<Selection>, k: nat, b: nat, c: nat)
    requires below_items(m, items, k, b), b <= c ensures below_items(m, items, k, c) decreases items, k
{
    if k == 0 || k > items@.len() { } else {
        below_items_mono(m, items, (k - 1) as nat, b, c);
        below_sel_mono(m, items@[k - 1], b, c);
    }
}
pub proof fn below_at<'doc>(m: FragMap<'doc>, items: Vec<Selection>, k: nat, b: nat, i: int)
    requires below_items(m, items, k, b), 0 <= i < k <= items@.len() ensures below_sel(m, items@[i], b) decreases k
{
    if i < k - 1 { below_at(m, items, (k - 1) as nat, b, i); }
}
