//@-- C04: authorization rules, and the traversal that turns them into rejected paths
//@ include ../lib/prelude.rs
verus! {
//@ dropmacro warn debug trace info error
// ---- trusted: the maps, with Rust's meaning ------------------------------------------------------
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct ScopeId(pub u32);
#[verifier::external_body] pub struct IdSet { m: u8 }
impl View for IdSet { type V = Set<ScopeId>; uninterp spec fn view(&self) -> Set<ScopeId>; }
impl IdSet { #[verifier::external_body] pub fn contains(&self, k: &ScopeId) -> (r: bool) ensures r == self@.contains(*k) { unimplemented!() } }
#[verifier::external_body] pub struct RuleMap { m: u8 }
impl View for RuleMap { type V = Map<Seq<char>, AuthorizationRule>; uninterp spec fn view(&self) -> Map<Seq<char>, AuthorizationRule>; }
impl RuleMap { #[verifier::external_body] pub fn get(&self, k: &str) -> (r: Option<&AuthorizationRule>) ensures r is Some <==> self@.dom().contains(k@), r matches Some(x) ==> *x == self@[k@] { unimplemented!() } }
#[verifier::external_body] pub struct FieldRuleMap { m: u8 }
impl View for FieldRuleMap { type V = Map<Seq<char>, RuleMap>; uninterp spec fn view(&self) -> Map<Seq<char>, RuleMap>; }
impl FieldRuleMap { #[verifier::external_body] pub fn get(&self, k: &str) -> (r: Option<&RuleMap>) ensures r is Some <==> self@.dom().contains(k@), r matches Some(x) ==> *x == self@[k@] { unimplemented!() } }
#[verifier::external_body] pub struct BoolMap { m: u8 }
impl View for BoolMap { type V = Map<Seq<char>, bool>; uninterp spec fn view(&self) -> Map<Seq<char>, bool>; }
impl BoolMap { #[verifier::external_body] pub fn get(&self, k: &str) -> (r: Option<&bool>) ensures r is Some <==> self@.dom().contains(k@), r matches Some(x) ==> *x == self@[k@] { unimplemented!() } }
// a cache keyed by the address of a string: it may miss, a hit is an entry made for the same text
pub struct StrByAddr<'op>(pub &'op str);
#[verifier::external_body] #[verifier::reject_recursive_types(V)] pub struct AddrMap<'op, V> { p: std::marker::PhantomData<(&'op str, V)> }
impl<'op, V> View for AddrMap<'op, V> { type V = Map<Seq<char>, V>; uninterp spec fn view(&self) -> Map<Seq<char>, V>; }
impl<'op, V> AddrMap<'op, V> {
    #[verifier::external_body] pub fn get(&self, k: &StrByAddr<'op>) -> (r: Option<&V>) ensures r is Some ==> self@.dom().contains(k.0@) && *(r->0) == self@[k.0@] { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: StrByAddr<'op>, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k.0@, v) { unimplemented!() }
    #[verifier::external_body] pub fn empty() -> (r: Self) ensures r@ == Map::<Seq<char>, V>::empty() { unimplemented!() }
}
pub fn opt_copied<T: Copy>(o: Option<&T>) -> (r: Option<T>) ensures r is Some <==> o is Some, r matches Some(x) ==> x == *(o->0) { match o { Some(x) => Some(*x), None => None } }
pub fn opt_or_true(o: Option<bool>) -> (r: bool) ensures r == (o is None || o->0) { match o { Some(x) => x, None => true } }
pub fn opt_is_none_or<T, F: FnOnce(T) -> bool>(o: Option<T>, f: F) -> (r: bool)
    requires o matches Some(x) ==> f.requires((x,)),
    ensures o is None ==> r, o matches Some(x) ==> f.ensures((x,), r),
{ match o { Some(x) => f(x), None => true } }
pub fn opt_rule<'a>(o: Option<&'a RuleMap>, k: &str) -> (r: Option<&'a AuthorizationRule>)
    ensures r is Some <==> (o is Some && o->0@.dom().contains(k@)), r matches Some(x) ==> *x == o->0@[k@]
{ match o { Some(m) => m.get(k), None => None } }

// ---- rules -----------------------------------------------------------------------------------------
//@ file bin/router/src/pipeline/authorization/metadata.rs
//@ rewrite type TypeRulesMap => RuleMap
//@ rewrite type TypeFieldRulesMap => FieldRuleMap
//@ rewrite type HashMap<String,bool> => BoolMap
//@ extract struct ScopeAndGroup
//@ end
//@ extract struct RequiredScopes
//@ end
//@ extract enum AuthorizationRule
//@ end
//@ extract struct AuthorizationMetadata
//@ opt keepfields type_rules field_rules type_has_any_auth
//@ end
//@ file bin/router/src/pipeline/authorization/user_auth_context.rs
//@ rewrite type HashSet<ScopeId> => IdSet
//@ extract struct UserAuthContext
//@ end
pub open spec fn group_held(g: ScopeAndGroup, s: Set<ScopeId>) -> bool { forall|j: int| 0 <= j < g.0@.len() ==> s.contains(#[trigger] g.0@[j]) }
pub open spec fn satisfied(u: UserAuthContext, r: AuthorizationRule) -> bool {
    match r {
        AuthorizationRule::Authenticated => u.is_authenticated,
        AuthorizationRule::RequiresScopes(s) => u.is_authenticated && exists|i: int| 0 <= i < s.0@.len() && group_held(#[trigger] s.0@[i], u.scope_ids@),
    }
}
pub open spec fn type_ok(m: AuthorizationMetadata, u: UserAuthContext, t: Seq<char>) -> bool { m.type_rules@.dom().contains(t) ==> satisfied(u, m.type_rules@[t]) }
pub open spec fn field_ok(m: AuthorizationMetadata, u: UserAuthContext, t: Seq<char>, f: Seq<char>) -> bool {
    m.field_rules@.dom().contains(t) && m.field_rules@[t]@.dom().contains(f) ==> satisfied(u, m.field_rules@[t]@[f])
}
// the rule of the property: parent type, field and output type; `clear` types carry no rule in reach
pub open spec fn clear(m: AuthorizationMetadata, t: Seq<char>) -> bool { m.type_has_any_auth@.dom().contains(t) && !m.type_has_any_auth@[t] }
pub open spec fn allowed(m: AuthorizationMetadata, u: UserAuthContext, s: Selection) -> bool {
    match s {
        Selection::Field(f) => clear(m, f.parent_type_name@) || type_ok(m, u, f.parent_type_name@) && field_ok(m, u, f.parent_type_name@, f.field_name@) && type_ok(m, u, f.output_type_name@),
        Selection::Fragment(f) => clear(m, f.parent_type_name@) || type_ok(m, u, f.type_condition@),
    }
}
//@ file bin/router/src/pipeline/authorization/mod.rs
//@ rewrite type HashMap<StrByAddr<'op>,bool> => AddrMap<'op,bool>
//@ rewrite expr self.auth_metadata.type_has_any_auth.get(parent_type_name).copied().unwrap_or(true) => opt_or_true(opt_copied(self.auth_metadata.type_has_any_auth.get(parent_type_name)))
//@ rewrite expr self.auth_metadata.type_rules.get(type_name).is_none_or(__f) => opt_is_none_or(self.auth_metadata.type_rules.get(type_name), __f)
//@ rewrite expr self.auth_metadata.field_rules.get(type_name).and_then(|fields| fields.get(field_name)) => opt_rule(self.auth_metadata.field_rules.get(type_name), field_name)
//@ rewrite expr scopes.0.iter().any(__f) => slice_any(scopes.0.as_slice(), __f)
//@ rewrite expr and_group.0.iter().all(__f) => slice_all(and_group.0.as_slice(), __f)
//@ extract struct AuthorizationChecker
//@ end
pub open spec fn cache_ok(c: AuthorizationChecker) -> bool { forall|t: Seq<char>| #[trigger] c.cache@.dom().contains(t) ==> c.cache@[t] == type_ok(*c.auth_metadata, *c.user_context, t) }
//@ extract method AuthorizationChecker::parent_has_auth
//@ opt ret r
//@ sec spec
    ensures r == !clear(*self.auth_metadata, parent_type_name@)
//@ end
//@ extract method AuthorizationChecker::is_rule_satisfied
//@ opt ret r
//@ sec spec
    ensures r == satisfied(*self.user_context, *rule)
//@ sec closure 0
    |and_group: &ScopeAndGroup| -> (r: bool) ensures r == group_held(*and_group, self.user_context.scope_ids@)
//@ sec closure 1
    |scope_id: &ScopeId| -> (r: bool) ensures r == self.user_context.scope_ids@.contains(*scope_id)
//@ end
//@ extract method AuthorizationChecker::is_field_authorized
//@ opt ret r
//@ sec spec
    ensures r == field_ok(*self.auth_metadata, *self.user_context, type_name@, field_name@)
//@ end
//@ extract method AuthorizationChecker::is_type_authorized
//@ opt ret r
//@ sec spec
    requires cache_ok(*old(self)),
    ensures r == type_ok(*old(self).auth_metadata, *old(self).user_context, type_name@), cache_ok(*final(self)),
        final(self).auth_metadata == old(self).auth_metadata, final(self).user_context == old(self).user_context,
//@ sec closure 0
    |rule: &AuthorizationRule| -> (r: bool) ensures r == satisfied(*self.user_context, *rule)
//@ end
// ---- selections and decisions -----------------------------------------------------------------------
#[verifier::external_body] pub struct GraphQLError { m: u8 }
#[verifier::external_body] pub fn unauthorized_error() -> GraphQLError { unimplemented!() }
#[verifier::external_body] pub fn clone_error(e: &GraphQLError) -> (r: GraphQLError) ensures r == *e { unimplemented!() }
//@ file bin/router/src/executor/operation_filter.rs
//@ extract struct FieldInfo
//@ end
//@ extract struct TypeConditionInfo
//@ end
//@ extract enum Selection
//@ end
//@ extract enum FilterDecision
//@ end
//@ extract method Selection::keep
//@ opt ret r
//@ sec spec
    ensures r is Keep
//@ end
//@ extract method Selection::reject
//@ opt ret r
//@ sec spec
    ensures r is Reject
//@ end

// ---- the operation and the schema ----------------------------------------------------------------------
//@ file bin/router/src/query_planner/ast/selection_set.rs
//@ extract struct SelectionSet
//@ end
//@ extract struct FieldSelection
//@ opt keepfields name selections alias skip_if include_if
//@ end
//@ extract struct InlineFragmentSelection
//@ end
//@ file bin/router/src/query_planner/ast/selection_item.rs
//@ extract enum SelectionItem
//@ end
//@ file bin/router/src/query_planner/ast/selection_set.rs
//@ extract method SelectionSet::is_empty
//@ opt ret r
//@ sec spec
    ensures r == (self.items@.len() == 0)
//@ end
//@ file bin/router/src/executor/introspection/schema.rs
//@ extract enum FieldNullability
//@ end
//@ extract struct FieldTypeInfo
//@ end
pub open spec fn non_null(n: FieldNullability) -> bool { match n { FieldNullability::Leaf { non_null } => non_null, FieldNullability::List { non_null, .. } => non_null } }
//@ extract method FieldNullability::is_non_null
//@ opt ret r
//@ sec spec
    ensures r == non_null(*self)
//@ end
// trusted: the schema's field table and the coerced variables
#[verifier::external_body] pub struct FieldTable { m: u8 }
impl View for FieldTable { type V = Map<Seq<char>, FieldTypeInfo>; uninterp spec fn view(&self) -> Map<Seq<char>, FieldTypeInfo>; }
impl FieldTable { #[verifier::external_body] pub fn get(&self, k: &str) -> (r: Option<&FieldTypeInfo>) ensures r is Some <==> self@.dom().contains(k@), r matches Some(x) ==> *x == self@[k@] { unimplemented!() } }
#[verifier::external_body] pub struct SchemaMetadata { m: u8 }
impl View for SchemaMetadata { type V = Map<Seq<char>, FieldTable>; uninterp spec fn view(&self) -> Map<Seq<char>, FieldTable>; }
impl SchemaMetadata { #[verifier::external_body] pub fn get_type_fields(&self, k: &str) -> (r: Option<&FieldTable>) ensures r is Some <==> self@.dom().contains(k@), r matches Some(x) ==> *x == self@[k@] { unimplemented!() } }
pub fn opt_field<'a>(o: Option<&'a FieldTable>, k: &str) -> (r: Option<&'a FieldTypeInfo>)
    ensures r is Some <==> (o is Some && o->0@.dom().contains(k@)), r matches Some(x) ==> *x == o->0@[k@]
{ match o { Some(m) => m.get(k), None => None } }
#[verifier::external_body] pub struct CoerceVariablesPayload { m: u8 }
pub uninterp spec fn vtrue(p: CoerceVariablesPayload, n: Seq<char>) -> bool;
impl CoerceVariablesPayload { #[verifier::external_body] pub fn variable_equals_true(&self, n: &str) -> (r: bool) ensures r == vtrue(*self, n@) { unimplemented!() } }
#[verifier::external_body] pub fn owned(s: &str) -> (r: String) ensures r@ == s@ { s.to_string() }
pub fn opt_as_str<'a>(o: &'a Option<String>) -> (r: Option<&'a str>) ensures r is Some <==> o is Some, r matches Some(x) ==> x@ == o->0@ { match o { Some(x) => Some(x.as_str()), None => None } }
pub fn opt_unwrap_or<'a>(o: Option<&'a str>, d: &'a str) -> (r: &'a str) ensures o is Some ==> r == o->0, o is None ==> r == d { match o { Some(x) => x, None => d } }
pub fn opt_found<'a>(o: Option<&'a FieldTypeInfo>, p: &str, f: &str) -> (r: Result<&'a FieldTypeInfo, OperationFilterError>)
    ensures r is Ok <==> o is Some, r is Ok ==> r->Ok_0 == o->0
{ match o { Some(x) => Ok(x), None => Err(OperationFilterError::FieldNotFound { parent_type_name: owned(p), field_name: owned(f) }) } }
//@ file bin/router/src/executor/operation_filter.rs
//@ extract enum OperationFilterError
//@ end
//@ extract enum NullPropagation
//@ opt derive Clone, Copy
//@ end
//@ extract method NullPropagation::or
//@ opt ret r
//@ sec spec
    ensures r is Propagate <==> self is Propagate || other is Propagate
//@ end
//@ extract method NullPropagation::is_propagate
//@ opt ret r
//@ sec spec
    ensures r == (self is Propagate)
//@ end
//@ extract enum PathSegment
//@ end
//@ extract struct OperationFilterOutput
//@ end
// ---- which decisions: a visitor that decides by parent type, field and output type, or by type condition ----
pub ghost enum Ask { F(Seq<char>, Seq<char>, Seq<char>), I(Seq<char>, Seq<char>) }
pub open spec fn asked(s: Selection) -> Ask { match s { Selection::Field(f) => Ask::F(f.parent_type_name@, f.field_name@, f.output_type_name@), Selection::Fragment(f) => Ask::I(f.parent_type_name@, f.type_condition@) } }
#[verifier::external_body] pub struct Visitor { m: u8 }
pub uninterp spec fn rejects(v: Visitor, a: Ask) -> bool;
pub open spec fn same(v: Visitor, w: Visitor) -> bool { forall|a: Ask| #[trigger] rejects(v, a) == rejects(w, a) }
impl Visitor { #[verifier::external_body] pub fn visit(&mut self, s: &Selection) -> (r: FilterDecision) ensures r is Reject <==> rejects(*old(self), asked(*s)), same(*old(self), *final(self)) { unimplemented!() } }
#[verifier::external_body] pub struct Decisions { m: u8 }
impl View for Decisions { type V = Map<(Seq<char>, Seq<char>), FilterDecision>; uninterp spec fn view(&self) -> Map<(Seq<char>, Seq<char>), FilterDecision>; }
impl Decisions {
    #[verifier::external_body] pub fn get<'a>(&self, k: (&'a str, &'a str)) -> (r: Option<FilterDecision>) ensures r is Some <==> self@.dom().contains((k.0@, k.1@)), r matches Some(x) ==> x == self@[(k.0@, k.1@)] { unimplemented!() }
    #[verifier::external_body] pub fn insert<'a>(&mut self, k: (&'a str, &'a str), v: &FilterDecision) ensures final(self)@ == old(self)@.insert((k.0@, k.1@), *v) { unimplemented!() }
    // the entry API written out: the decision on record, else a new one put on record
    pub fn decide<'a>(&mut self, k: (&'a str, &'a str), visitor: &mut Visitor, s: &Selection) -> (r: FilterDecision)
        ensures same(*old(visitor), *final(visitor)),
            old(self)@.dom().contains((k.0@, k.1@)) ==> r == old(self)@[(k.0@, k.1@)] && final(self)@ == old(self)@,
            !old(self)@.dom().contains((k.0@, k.1@)) ==> (r is Reject <==> rejects(*old(visitor), asked(*s))) && final(self)@ == old(self)@.insert((k.0@, k.1@), r),
    {
        match self.get(k) { Some(x) => x, None => { let d = visitor.visit(s); self.insert(k, &d); d } }
    }
}
//@ rewrite type HashMap<(&'execstr,&'execstr),FilterDecision> => Decisions
//@ extract struct FilteringContext
//@ end
// ---- the property: which paths are rejected, which paths carry an error, what propagates ---------------
pub ghost enum Seg { F(Seq<char>), T(Seq<char>) }
pub open spec fn seg(p: PathSegment) -> Seg { match p { PathSegment::Field(s) => Seg::F(s@), PathSegment::Fragment(s) => Seg::T(s@) } }
pub open spec fn path(p: Seq<PathSegment>) -> Seq<Seg> { p.map_values(|x: PathSegment| seg(x)) }
pub uninterp spec fn at(e: GraphQLError) -> Seq<Seg>;
pub ghost struct Out { pub rej: Seq<Seq<Seg>>, pub err: Seq<Seq<Seg>>, pub up: bool }
pub open spec fn cat(a: Out, b: Out) -> Out { Out { rej: a.rej + b.rej, err: a.err + b.err, up: a.up || b.up } }
pub open spec fn nothing() -> Out { Out { rej: seq![], err: seq![], up: false } }
pub open spec fn off(v: CoerceVariablesPayload, skip: Option<String>, include: Option<String>) -> bool {
    (skip is Some && vtrue(v, skip->0@)) || (include is Some && !vtrue(v, include->0@))
}
pub open spec fn key(f: FieldSelection) -> Seq<char> { match f.alias { Some(a) => a@, None => f.name@ } }
pub open spec fn typename() -> Seq<char> { "__typename"@ }
pub ghost struct Cx { pub schema: Map<Seq<char>, FieldTable>, pub vars: CoerceVariablesPayload, pub v: Visitor }
pub open spec fn known(c: Cx, t: Seq<char>, f: Seq<char>) -> bool { c.schema.dom().contains(t) && c.schema[t]@.dom().contains(f) }
// every field of a set, through its fragments
pub open spec fn whole(items: Vec<SelectionItem>, k: nat, p: Seq<Seg>) -> Seq<Seq<Seg>> decreases items, k via whole_dec {
    if k == 0 || k > items@.len() { seq![] } else {
        whole(items, (k - 1) as nat, p) + match items@[k - 1] {
            SelectionItem::Field(f) => seq![p.push(Seg::F(key(f)))],
            SelectionItem::InlineFragment(f) => whole(f.selections.items, f.selections.items@.len(), p.push(Seg::T(f.type_condition@))),
            SelectionItem::FragmentSpread(_) => seq![],
        }
    }
}
#[via_fn] proof fn whole_dec(items: Vec<SelectionItem>, k: nat, p: Seq<Seg>) { if 0 < k <= items@.len() { assert(decreases_to!(items => items@[k - 1])); } }
pub open spec fn set_out(c: Cx, items: Vec<SelectionItem>, k: nat, t: Seq<char>, p: Seq<Seg>) -> Out decreases items, k, 1nat via set_dec {
    if k == 0 || k > items@.len() { nothing() } else {
        cat(set_out(c, items, (k - 1) as nat, t, p), match items@[k - 1] {
            SelectionItem::Field(f) => if off(c.vars, f.skip_if, f.include_if) { nothing() } else { field_out(c, f, t, p) },
            SelectionItem::InlineFragment(f) => if off(c.vars, f.skip_if, f.include_if) { nothing() } else { frag_out(c, f, t, p) },
            SelectionItem::FragmentSpread(_) => nothing(),
        })
    }
}
#[via_fn] proof fn set_dec(c: Cx, items: Vec<SelectionItem>, k: nat, t: Seq<char>, p: Seq<Seg>) { if 0 < k <= items@.len() { assert(decreases_to!(items => items@[k - 1])); match items@[k - 1] { SelectionItem::Field(f) => { assert(decreases_to!(items@[k - 1] => f)); } SelectionItem::InlineFragment(f) => { assert(decreases_to!(items@[k - 1] => f)); } _ => {} } } }
pub open spec fn field_out(c: Cx, f: FieldSelection, t: Seq<char>, p: Seq<Seg>) -> Out decreases f, 0nat, 0nat {
    if f.name@ == typename() || !known(c, t, f.name@) { nothing() } else {
        let info = c.schema[t]@[f.name@];
        let me = p.push(Seg::F(key(f)));
        if rejects(c.v, Ask::F(t, f.name@, info.output_type_name@)) { Out { rej: seq![me], err: seq![me], up: non_null(info.nullability) } } else {
            let o = if f.selections.items@.len() == 0 { nothing() } else { set_out(c, f.selections.items, f.selections.items@.len(), info.output_type_name@, me) };
            // a non-null child that was rejected takes this field with it
            if o.up { Out { rej: o.rej.push(me), err: o.err, up: non_null(info.nullability) } } else { o }
        }
    }
}
pub open spec fn frag_out(c: Cx, f: InlineFragmentSelection, t: Seq<char>, p: Seq<Seg>) -> Out decreases f, 0nat, 0nat {
    let me = p.push(Seg::T(f.type_condition@));
    if rejects(c.v, Ask::I(t, f.type_condition@)) { Out { rej: whole(f.selections.items, f.selections.items@.len(), me), err: seq![p], up: false } }
    else { set_out(c, f.selections.items, f.selections.items@.len(), f.type_condition@, me) }
}
pub open spec fn item_out(c: Cx, i: SelectionItem, t: Seq<char>, p: Seq<Seg>) -> Out {
    match i {
        SelectionItem::Field(f) => if off(c.vars, f.skip_if, f.include_if) { nothing() } else { field_out(c, f, t, p) },
        SelectionItem::InlineFragment(f) => if off(c.vars, f.skip_if, f.include_if) { nothing() } else { frag_out(c, f, t, p) },
        SelectionItem::FragmentSpread(_) => nothing(),
    }
}
pub open spec fn item_whole(i: SelectionItem, p: Seq<Seg>) -> Seq<Seq<Seg>> {
    match i {
        SelectionItem::Field(f) => seq![p.push(Seg::F(key(f)))],
        SelectionItem::InlineFragment(f) => whole(f.selections.items, f.selections.items@.len(), p.push(Seg::T(f.type_condition@))),
        SelectionItem::FragmentSpread(_) => seq![],
    }
}
pub open spec fn rejs(r: OperationFilterOutput) -> Seq<Seq<Seg>> { r.rejected_paths@.map_values(|x: Vec<PathSegment>| path(x@)) }
pub open spec fn errs(r: OperationFilterOutput) -> Seq<Seq<Seg>> { r.errors@.map_values(|x: GraphQLError| at(x)) }
pub open spec fn cx(s: FilteringContext, v: Visitor) -> Cx { Cx { schema: s.schema_metadata@, vars: *s.variable_payload, v } }
pub open spec fn same_cx(c: Cx, d: Cx) -> bool { c.schema == d.schema && c.vars == d.vars && same(c.v, d.v) }
// the decision is a function of what the cache is keyed by
pub open spec fn cached(s: FilteringContext, v: Visitor) -> bool {
    forall|k: (Seq<char>, Seq<char>)| #[trigger] s.decisions@.dom().contains(k) ==> known(cx(s, v), k.0, k.1)
        && (s.decisions@[k] is Reject <==> rejects(v, Ask::F(k.0, k.1, s.schema_metadata@[k.0]@[k.1].output_type_name@)))
}
pub open spec fn keeps(a: FilteringContext, b: FilteringContext) -> bool { a.schema_metadata == b.schema_metadata && a.variable_payload == b.variable_payload && path(a.path@) == path(b.path@) }
pub open spec fn adds(a: FilteringContext, b: FilteringContext, o: Out) -> bool { rejs(b.result) == rejs(a.result) + o.rej && errs(b.result) == errs(a.result) + o.err }
pub proof fn same_field(c: Cx, d: Cx, f: FieldSelection, t: Seq<char>, p: Seq<Seg>)
    requires same_cx(c, d) ensures field_out(c, f, t, p) == field_out(d, f, t, p) decreases f, 0nat, 0nat
{
    if known(c, t, f.name@) {
        let o = c.schema[t]@[f.name@].output_type_name@;
        assert(rejects(c.v, Ask::F(t, f.name@, o)) == rejects(d.v, Ask::F(t, f.name@, o)));
        same_out(c, d, f.selections.items, f.selections.items@.len(), o, p.push(Seg::F(key(f))));
    }
}
pub proof fn same_frag(c: Cx, d: Cx, f: InlineFragmentSelection, t: Seq<char>, p: Seq<Seg>)
    requires same_cx(c, d) ensures frag_out(c, f, t, p) == frag_out(d, f, t, p) decreases f, 0nat, 0nat
{
    assert(rejects(c.v, Ask::I(t, f.type_condition@)) == rejects(d.v, Ask::I(t, f.type_condition@)));
    same_out(c, d, f.selections.items, f.selections.items@.len(), f.type_condition@, p.push(Seg::T(f.type_condition@)));
}
pub proof fn same_out(c: Cx, d: Cx, items: Vec<SelectionItem>, k: nat, t: Seq<char>, p: Seq<Seg>)
    requires same_cx(c, d) ensures set_out(c, items, k, t, p) == set_out(d, items, k, t, p) decreases items, k, 1nat
{
    if 0 < k <= items@.len() {
        same_out(c, d, items, (k - 1) as nat, t, p);
        assert(decreases_to!(items => items@[k - 1]));
        match items@[k - 1] {
            SelectionItem::Field(f) => { assert(decreases_to!(items@[k - 1] => f)); same_field(c, d, f, t, p); }
            SelectionItem::InlineFragment(f) => { assert(decreases_to!(items@[k - 1] => f)); same_frag(c, d, f, t, p); }
            _ => {}
        }
    }
}
pub proof fn path_push(s: Seq<PathSegment>, x: PathSegment) ensures path(s.push(x)) == path(s).push(seg(x)) { assert(path(s.push(x)) =~= path(s).push(seg(x))); }
// after a visit below, the path is as it was before the push
pub proof fn path_pop(s: Seq<PathSegment>, x: PathSegment, e: Seq<PathSegment>)
    requires path(e) == path(s.push(x)), e.len() == s.len() + 1 ensures path(e.drop_last()) == path(s)
{
    assert forall|i: int| 0 <= i < s.len() implies path(e.drop_last())[i] == #[trigger] path(s)[i] by { assert(path(e)[i] == path(s.push(x))[i]); assert(path(e)[i] == seg(e[i])); assert(path(s.push(x))[i] == seg(s[i])); assert(e.drop_last()[i] == e[i]); }
    assert(path(e.drop_last()) =~= path(s));
}
pub proof fn adds_trans(a: FilteringContext, b: FilteringContext, c: FilteringContext, o: Out, q: Out)
    requires adds(a, b, o), adds(b, c, q) ensures adds(a, c, cat(o, q))
{ assert(rejs(a.result) + o.rej + q.rej =~= rejs(a.result) + (o.rej + q.rej)); assert(errs(a.result) + o.err + q.err =~= errs(a.result) + (o.err + q.err)); }
pub proof fn adds_none(a: FilteringContext, u: bool) ensures adds(a, a, Out { rej: seq![], err: seq![], up: u })
{ assert(rejs(a.result) + Seq::<Seq<Seg>>::empty() =~= rejs(a.result)); assert(errs(a.result) + Seq::<Seq<Seg>>::empty() =~= errs(a.result)); }
// trusted: the path is copied, the error message gets it; the joined text is checked by the bounded run
impl<'exec> FilteringContext<'exec> {
    #[verifier::external_body]
    fn record_rejected_path(&mut self)
        ensures rejs(final(self).result) == rejs(old(self).result).push(path(old(self).path@)), errs(final(self).result) == errs(old(self).result), keeps(*old(self), *final(self)), final(self).path == old(self).path, final(self).decisions == old(self).decisions { unimplemented!() }
    #[verifier::external_body]
    fn record_error(&mut self, error: GraphQLError)
        ensures errs(final(self).result) == errs(old(self).result).push(path(old(self).path@)), rejs(final(self).result) == rejs(old(self).result), keeps(*old(self), *final(self)), final(self).path == old(self).path, final(self).decisions == old(self).decisions { unimplemented!() }
}
//@ rewrite type &mutimplFnMut(&Selection<'exec>)->FilterDecision => &mut Visitor
//@ rewrite expr field.alias.as_deref().unwrap_or(__n) => opt_unwrap_or(opt_as_str(&field.alias), __n)
//@ rewrite expr field_name == "__typename" => str_eq(field_name, "__typename")
//@ rewrite expr self.schema_metadata.get_type_fields(parent_type_name).and_then(|fields| fields.get(field_name)).ok_or_else(__f)? => opt_found(opt_field(self.schema_metadata.get_type_fields(parent_type_name), field_name), parent_type_name, field_name)?
//@ rewrite expr match self.decisions.entry((parent_type_name, field_name)) { Entry::Occupied(entry) => entry.get().clone(), Entry::Vacant(entry) => { let decision = visitor(&Selection::Field(FieldInfo { response_key, field_name, parent_type_name, output_type_name, is_non_null, })); entry.insert(decision.clone()); decision } } ==>> self.decisions.decide((parent_type_name, field_name), visitor, &Selection::Field(FieldInfo { response_key, field_name, parent_type_name, output_type_name, is_non_null }))
//@ rewrite expr visitor(__s) => visitor.visit(__s)
//@ extract method FilteringContext::is_ignored
//@ opt ret r
//@ sec spec
    ensures r == off(*self.variable_payload, *skip_if, *include_if)
//@ end
//@ extract method FilteringContext::collect_all_field_paths
//@ opt attr #[verifier::exec_allows_no_decreases_clause]
//@ sec spec
    ensures keeps(*old(self), *final(self)), final(self).path@.len() == old(self).path@.len(), final(self).decisions == old(self).decisions,
        adds(*old(self), *final(self), Out { rej: whole(selection_set.items, selection_set.items@.len(), path(old(self).path@)), err: seq![], up: false }),
//@ sec loop 0 iter it
        invariant
            keeps(*old(self), *self), self.path@.len() == old(self).path@.len(), self.decisions == old(self).decisions,
            it.seq().len() == selection_set.items@.len(),
            forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == selection_set.items@[i],
            adds(*old(self), *self, Out { rej: whole(selection_set.items, it.index@ as nat, path(old(self).path@)), err: seq![], up: false }),
//@ sec before-loop 0
        proof { adds_none(*self, false); }
//@ sec loopstart 0
        let ghost s0 = *self;
        let ghost mut s1 = *self;
        let ghost mut s2 = *self;
        proof { assert(*item == selection_set.items@[it.index@]); }
//@ sec before call record_rejected_path 0
        proof { path_push(s0.path@, self.path@.last()); }
//@ sec before call collect_all_field_paths 0
        proof { s1 = *self; path_push(s0.path@, self.path@.last()); }
//@ sec after call collect_all_field_paths 0
        proof { s2 = *self; }
//@ sec loopend 0
        proof {
            let me = item_whole(*item, path(s0.path@));
            if let SelectionItem::FragmentSpread(_) = item { assert(rejs(self.result) =~= rejs(s0.result) + me); assert(errs(self.result) =~= errs(s0.result) + seq![]); }
            if let SelectionItem::Field(_) = item { assert(rejs(self.result) =~= rejs(s0.result) + me); assert(errs(self.result) =~= errs(s0.result) + seq![]); assert(self.path@ =~= s0.path@); }
            if let SelectionItem::InlineFragment(_) = item { path_pop(s0.path@, s1.path@.last(), s2.path@); }
            adds_trans(*old(self), s0, *self, Out { rej: whole(selection_set.items, it.index@ as nat, path(old(self).path@)), err: seq![], up: false }, Out { rej: me, err: seq![], up: false });
            assert(seq![] + Seq::<Seq<Seg>>::empty() =~= Seq::<Seq<Seg>>::empty());
        }
//@ end
//@ extract method FilteringContext::visit_selection_set
//@ opt attr #[verifier::exec_allows_no_decreases_clause]
//@ opt ret r
//@ sec spec
    requires cached(*old(self), *old(visitor)),
    ensures same(*old(visitor), *final(visitor)),
        r is Ok ==> keeps(*old(self), *final(self)) && final(self).path@.len() == old(self).path@.len() && cached(*final(self), *final(visitor)),
        r matches Ok(u) ==> ({
            let o = set_out(cx(*old(self), *old(visitor)), selection_set.items, selection_set.items@.len(), parent_type_name@, path(old(self).path@));
            adds(*old(self), *final(self), o) && (u is Propagate <==> o.up)
        }),
//@ sec before-loop 0
        proof { adds_none(*self, false); }
//@ sec loop 0 iter it
        invariant
            same(*old(visitor), *visitor), keeps(*old(self), *self), self.path@.len() == old(self).path@.len(), cached(*self, *visitor),
            it.seq().len() == selection_set.items@.len(),
            forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == selection_set.items@[i],
            adds(*old(self), *self, set_out(cx(*old(self), *old(visitor)), selection_set.items, it.index@ as nat, parent_type_name@, path(old(self).path@))),
            null_propagation is Propagate <==> set_out(cx(*old(self), *old(visitor)), selection_set.items, it.index@ as nat, parent_type_name@, path(old(self).path@)).up,
//@ sec loopstart 0
        let ghost s0 = *self;
        proof {
            assert(*item == selection_set.items@[it.index@]);
            let c0 = cx(*old(self), *old(visitor));
            adds_none(*self, false);
            if let SelectionItem::Field(f) = item { same_field(c0, cx(*self, *visitor), *f, parent_type_name@, path(self.path@)); }
            if let SelectionItem::InlineFragment(f) = item { same_frag(c0, cx(*self, *visitor), *f, parent_type_name@, path(self.path@)); }
        }
//@ sec loopend 0
        proof {
            let c0 = cx(*old(self), *old(visitor));
            let me = item_out(c0, *item, parent_type_name@, path(old(self).path@));
            adds_trans(*old(self), s0, *self, set_out(c0, selection_set.items, it.index@ as nat, parent_type_name@, path(old(self).path@)), me);
        }
//@ end
//@ extract method FilteringContext::visit_field
//@ opt attr #[verifier::exec_allows_no_decreases_clause]
//@ opt ret r
//@ sec spec
    requires cached(*old(self), *old(visitor)),
    ensures same(*old(visitor), *final(visitor)),
        r is Ok ==> keeps(*old(self), *final(self)) && final(self).path@.len() == old(self).path@.len() && cached(*final(self), *final(visitor)),
        r matches Ok(u) ==> ({
            let o = field_out(cx(*old(self), *old(visitor)), *field, parent_type_name@, path(old(self).path@));
            adds(*old(self), *final(self), o) && (u is Propagate <==> o.up)
        }),
//@ sec start
        let ghost s0 = *self;
        let ghost mut s1 = *self;
        let ghost mut s2 = *self;
        proof { adds_none(*self, false); adds_none(*self, true); }
//@ sec before call record_rejected_path 0
        proof { s1 = *self; path_push(s0.path@, self.path@.last()); }
//@ sec after call record_error 0
        proof {
            s2 = *self;
            let me = path(s0.path@).push(Seg::F(key(*field)));
            assert(rejs(self.result) =~= rejs(s0.result) + seq![me]); assert(errs(self.result) =~= errs(s0.result) + seq![me]);
            path_pop(s0.path@, s1.path@.last(), s2.path@);
        }
//@ sec before call is_empty 0
        proof {
            s1 = *self; path_push(s0.path@, self.path@.last()); path_pop(s0.path@, self.path@.last(), self.path@); adds_none(*self, false);
            assert(rejs(self.result) == rejs(s0.result) && errs(self.result) == errs(s0.result));
            if field.selections.items@.len() > 0 { same_out(cx(s0, *old(visitor)), cx(*self, *visitor), field.selections.items, field.selections.items@.len(), s0.schema_metadata@[parent_type_name@]@[field_name@].output_type_name@, path(self.path@)); }
        }
//@ sec before call is_propagate 0
        proof { path_pop(s0.path@, s1.path@.last(), self.path@); s2 = *self; }
//@ sec after call record_rejected_path 1
        proof {
            let me = path(s0.path@).push(Seg::F(key(*field)));
            let o = set_out(cx(s0, *old(visitor)), field.selections.items, field.selections.items@.len(), s0.schema_metadata@[parent_type_name@]@[field_name@].output_type_name@, me);
            assert(rejs(self.result) =~= rejs(s0.result) + o.rej.push(me));
        }
//@ end
//@ extract method FilteringContext::visit_inline_fragment
//@ opt attr #[verifier::exec_allows_no_decreases_clause]
//@ opt ret r
//@ sec spec
    requires cached(*old(self), *old(visitor)),
    ensures same(*old(visitor), *final(visitor)),
        r is Ok ==> keeps(*old(self), *final(self)) && final(self).path@.len() == old(self).path@.len() && cached(*final(self), *final(visitor)),
        r matches Ok(u) ==> ({
            let o = frag_out(cx(*old(self), *old(visitor)), *fragment, parent_type_name@, path(old(self).path@));
            adds(*old(self), *final(self), o) && (u is Propagate <==> o.up)
        }),
//@ sec start
        let ghost s0 = *self;
        let ghost mut s1 = *self;
//@ sec before call visit_selection_set 0
        proof {
            s1 = *self; path_push(s0.path@, self.path@.last());
            same_out(cx(s0, *old(visitor)), cx(*self, *visitor), fragment.selections.items, fragment.selections.items@.len(), fragment.type_condition@, path(self.path@));
        }
//@ sec after call visit_selection_set 0
        proof { if result is Ok { path_pop(s0.path@, s1.path@.last(), self.path@); } }
//@ sec before call collect_all_field_paths 0
        proof { s1 = *self; path_push(s0.path@, self.path@.last()); }
//@ sec after call collect_all_field_paths 0
        proof {
            path_pop(s0.path@, s1.path@.last(), self.path@);
            assert(errs(self.result) =~= errs(s0.result) + seq![path(s0.path@)]);
        }
//@ end
} // verus!
fn main() {}
