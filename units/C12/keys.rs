//@-- C12: the key of a cached plan
//@ include ../lib/prelude.rs
//@ include ../lib/toks.rs
verus! {
//@ dropmacro warn debug trace info error
#[verifier::external_body] pub fn bits_of(f: &f64) -> (r: u64) ensures r == f64_bits(*f) { unimplemented!() }
// a sorted map is read as the list of its pairs; std feeds their number, then each
pub struct Fields { pub pairs: Vec<(String, Value)> }
impl Feed for Fields { open spec fn toks(&self) -> Toks { word(self.pairs@.len() as int) + pairs_from(*self, 0) } #[verifier::external_body] fn feed<H: Hasher>(&self, state: &mut H) { unimplemented!() } }
impl Feed for Vec<Value> { open spec fn toks(&self) -> Toks { word(self@.len() as int) + list_from(*self, 0) } #[verifier::external_body] fn feed<H: Hasher>(&self, state: &mut H) { unimplemented!() } }
pub open spec fn list_from(l: Vec<Value>, i: int) -> Toks decreases l, l@.len() - i via list_from_d { if 0 <= i < l@.len() { vtoks(l@[i]) + list_from(l, i + 1) } else { Seq::empty() } }
#[via_fn] proof fn list_from_d(l: Vec<Value>, i: int) { if 0 <= i < l@.len() { assert(decreases_to!(l => l@[i])); } }
pub open spec fn pairs_from(o: Fields, i: int) -> Toks decreases o, o.pairs@.len() - i via pairs_from_d { if 0 <= i < o.pairs@.len() { text(o.pairs@[i].0@) + vtoks(o.pairs@[i].1) + pairs_from(o, i + 1) } else { Seq::empty() } }
#[via_fn] proof fn pairs_from_d(o: Fields, i: int) { if 0 <= i < o.pairs@.len() { assert(decreases_to!(o => o.pairs)); assert(decreases_to!(o.pairs => o.pairs@[i])); assert(decreases_to!(o.pairs@[i] => o.pairs@[i].1)); } }
// ---- the values of arguments ---------------------------------------------------------------------------
//@ file bin/router/src/query_planner/ast/value.rs
//@ rewrite type BTreeMap<String,Value> => Fields
//@ rewrite expr mem::discriminant(self).hash(state) => feed_kind(self, state)
//@ rewrite expr f.to_bits().hash(state) => bits_of(f).feed(state)
//@ rewrite expr __x.hash(__h) => __x.feed(__h)
//@ rewrite path std::hash::Hasher => Hasher
//@ extract enum Value
//@ end
pub open spec fn kind(v: Value) -> int { match v { Value::Variable(_) => 0, Value::Int(_) => 1, Value::Float(_) => 2, Value::String(_) => 3, Value::Boolean(_) => 4, Value::Null => 5, Value::Enum(_) => 6, Value::List(_) => 7, Value::Object(_) => 8 } }
// trusted: the discriminants of two variants differ (their numbers do not matter)
#[verifier::external_body] pub fn feed_kind<H: Hasher>(v: &Value, state: &mut H) ensures final(state).toks() == old(state).toks() + word(kind(*v)) { unimplemented!() }
pub open spec fn vtoks(v: Value) -> Toks decreases v {
    word(kind(v)) + (match v {
        Value::Variable(s) => text(s@), Value::String(s) => text(s@), Value::Enum(s) => text(s@),
        Value::Int(i) => word(i as int), Value::Float(f) => word(f64_bits(f) as int), Value::Boolean(b) => word(if b { 1int } else { 0 }),
        Value::Null => word(0),
        Value::List(l) => word(l@.len() as int) + list_from(l, 0),
        Value::Object(o) => word(o.pairs@.len() as int) + pairs_from(o, 0),
    })
}
//@ extract method Hash for Value::hash
//@ sec spec
    ensures final(state).toks() == old(state).toks() + vtoks(*self)
//@ sec tail
    broadcast use add3;
//@ end
impl Feed for Value { open spec fn toks(&self) -> Toks { vtoks(*self) } fn feed<H: Hasher>(&self, state: &mut H) { self.hash(state) } }
pub open spec fn same(a: Value, b: Value) -> bool decreases a {
    match (a, b) {
        (Value::Variable(x), Value::Variable(y)) => x@ == y@, (Value::String(x), Value::String(y)) => x@ == y@, (Value::Enum(x), Value::Enum(y)) => x@ == y@,
        (Value::Int(x), Value::Int(y)) => x == y, (Value::Float(x), Value::Float(y)) => f64_bits(x) == f64_bits(y), (Value::Boolean(x), Value::Boolean(y)) => x == y,
        (Value::Null, Value::Null) => true,
        (Value::List(x), Value::List(y)) => same_list(x, y, 0),
        (Value::Object(x), Value::Object(y)) => same_pairs(x, y, 0),
        _ => false,
    }
}
// equal from the i-th item on, and equally long
pub open spec fn same_list(x: Vec<Value>, y: Vec<Value>, i: int) -> bool decreases x, x@.len() - i via same_list_d { x@.len() == y@.len() && (0 <= i < x@.len() ==> same(x@[i], y@[i]) && same_list(x, y, i + 1)) }
#[via_fn] proof fn same_list_d(x: Vec<Value>, y: Vec<Value>, i: int) { if 0 <= i < x@.len() { assert(decreases_to!(x => x@[i])); } }
pub open spec fn same_pairs(x: Fields, y: Fields, i: int) -> bool decreases x, x.pairs@.len() - i via same_pairs_d { x.pairs@.len() == y.pairs@.len() && (0 <= i < x.pairs@.len() ==> x.pairs@[i].0@ == y.pairs@[i].0@ && same(x.pairs@[i].1, y.pairs@[i].1) && same_pairs(x, y, i + 1)) }
#[via_fn] proof fn same_pairs_d(x: Fields, y: Fields, i: int) { if 0 <= i < x.pairs@.len() { assert(decreases_to!(x => x.pairs)); assert(decreases_to!(x.pairs => x.pairs@[i])); assert(decreases_to!(x.pairs@[i] => x.pairs@[i].1)); } }
pub proof fn cut_value(a: Value, b: Value, ra: Toks, rb: Toks) requires vtoks(a) + ra == vtoks(b) + rb ensures same(a, b), ra == rb decreases a {
    let ta = vtoks(a).skip(1); let tb = vtoks(b).skip(1);
    assert(vtoks(a) =~= word(kind(a)) + ta); assert(vtoks(b) =~= word(kind(b)) + tb);
    add3(word(kind(a)), ta, ra); add3(word(kind(b)), tb, rb);
    cut_word(kind(a), kind(b), ta + ra, tb + rb);
    match (a, b) {
        (Value::Variable(x), Value::Variable(y)) => { assert(ta =~= text(x@)); assert(tb =~= text(y@)); cut_text(x@, y@, ra, rb); }
        (Value::String(x), Value::String(y)) => { assert(ta =~= text(x@)); assert(tb =~= text(y@)); cut_text(x@, y@, ra, rb); }
        (Value::Enum(x), Value::Enum(y)) => { assert(ta =~= text(x@)); assert(tb =~= text(y@)); cut_text(x@, y@, ra, rb); }
        (Value::Int(x), Value::Int(y)) => { assert(ta =~= word(x as int)); assert(tb =~= word(y as int)); cut_word(x as int, y as int, ra, rb); }
        (Value::Float(x), Value::Float(y)) => { assert(ta =~= word(f64_bits(x) as int)); assert(tb =~= word(f64_bits(y) as int)); cut_word(f64_bits(x) as int, f64_bits(y) as int, ra, rb); }
        (Value::Boolean(x), Value::Boolean(y)) => { let i = if x { 1int } else { 0 }; let j = if y { 1int } else { 0 }; assert(ta =~= word(i)); assert(tb =~= word(j)); cut_word(i, j, ra, rb); }
        (Value::Null, Value::Null) => { assert(ta =~= word(0)); assert(tb =~= word(0)); cut_word(0, 0, ra, rb); }
        (Value::List(x), Value::List(y)) => {
            assert(ta =~= word(x@.len() as int) + list_from(x, 0)); assert(tb =~= word(y@.len() as int) + list_from(y, 0));
            add3(word(x@.len() as int), list_from(x, 0), ra); add3(word(y@.len() as int), list_from(y, 0), rb);
            cut_word(x@.len() as int, y@.len() as int, list_from(x, 0) + ra, list_from(y, 0) + rb);
            cut_list(x, y, 0, ra, rb);
        }
        (Value::Object(x), Value::Object(y)) => {
            assert(ta =~= word(x.pairs@.len() as int) + pairs_from(x, 0)); assert(tb =~= word(y.pairs@.len() as int) + pairs_from(y, 0));
            add3(word(x.pairs@.len() as int), pairs_from(x, 0), ra); add3(word(y.pairs@.len() as int), pairs_from(y, 0), rb);
            cut_word(x.pairs@.len() as int, y.pairs@.len() as int, pairs_from(x, 0) + ra, pairs_from(y, 0) + rb);
            cut_pairs(x, y, 0, ra, rb);
        }
        _ => {}
    }
}
pub proof fn cut_list(x: Vec<Value>, y: Vec<Value>, i: int, ra: Toks, rb: Toks)
    requires x@.len() == y@.len(), 0 <= i <= x@.len(), list_from(x, i) + ra == list_from(y, i) + rb ensures same_list(x, y, i), ra == rb decreases x, x@.len() - i
{
    if i < x@.len() {
        assert(decreases_to!(x => x@[i]));
        add3(vtoks(x@[i]), list_from(x, i + 1), ra); add3(vtoks(y@[i]), list_from(y, i + 1), rb);
        cut_value(x@[i], y@[i], list_from(x, i + 1) + ra, list_from(y, i + 1) + rb);
        cut_list(x, y, i + 1, ra, rb);
    } else { assert(list_from(x, i) + ra =~= ra); assert(list_from(y, i) + rb =~= rb); }
}
pub proof fn cut_pairs(x: Fields, y: Fields, i: int, ra: Toks, rb: Toks)
    requires x.pairs@.len() == y.pairs@.len(), 0 <= i <= x.pairs@.len(), pairs_from(x, i) + ra == pairs_from(y, i) + rb ensures same_pairs(x, y, i), ra == rb decreases x, x.pairs@.len() - i
{
    if i < x.pairs@.len() {
        let (p, q) = (x.pairs@[i], y.pairs@[i]);
        assert(decreases_to!(x => x.pairs)); assert(decreases_to!(x.pairs => x.pairs@[i])); assert(decreases_to!(x.pairs@[i] => x.pairs@[i].1));
        add3(text(p.0@) + vtoks(p.1), pairs_from(x, i + 1), ra); add3(text(q.0@) + vtoks(q.1), pairs_from(y, i + 1), rb);
        add3(text(p.0@), vtoks(p.1), pairs_from(x, i + 1) + ra); add3(text(q.0@), vtoks(q.1), pairs_from(y, i + 1) + rb);
        cut_text(p.0@, q.0@, vtoks(p.1) + (pairs_from(x, i + 1) + ra), vtoks(q.1) + (pairs_from(y, i + 1) + rb));
        cut_value(p.1, q.1, pairs_from(x, i + 1) + ra, pairs_from(y, i + 1) + rb);
        cut_pairs(x, y, i + 1, ra, rb);
    } else { assert(pairs_from(x, i) + ra =~= ra); assert(pairs_from(y, i) + rb =~= rb); }
}
// ---- operations ----------------------------------------------------------------------------------------
//@ file bin/router/src/query_planner/ast/arguments.rs
//@ extract struct ArgumentsMap
//@ end
pub open spec fn atoks(a: ArgumentsMap) -> Toks { word(a.arguments_map.pairs@.len() as int) + pairs_from(a.arguments_map, 0) }
//@ extract method Hash for ArgumentsMap::hash
//@ sec spec
    ensures final(state).toks() == old(state).toks() + atoks(*self)
//@ end
impl Feed for ArgumentsMap { open spec fn toks(&self) -> Toks { atoks(*self) } fn feed<H: Hasher>(&self, state: &mut H) { self.hash(state) } }
pub open spec fn opt_args(o: Option<ArgumentsMap>) -> Toks { match o { None => word(0), Some(a) => word(1) + atoks(a) } }
pub open spec fn opt_text(o: Option<String>) -> Toks { match o { None => word(0), Some(a) => word(1) + text(a@) } }
pub open spec fn opt_value(o: Option<Value>) -> Toks { match o { None => word(0), Some(a) => word(1) + vtoks(a) } }
pub open spec fn flag(b: bool) -> Toks { word(if b { 1int } else { 0 }) }
//@ file bin/router/src/query_planner/state/supergraph_state.rs
//@ extract enum OperationKind
//@ end
//@ extract enum TypeNode
//@ end
pub open spec fn kind_name(k: OperationKind) -> Seq<char> { match k { OperationKind::Query => "query"@, OperationKind::Mutation => "mutation"@, OperationKind::Subscription => "subscription"@ } }
//@ extract method OperationKind::as_str
//@ opt ret r
//@ sec spec
    ensures r@ == kind_name(*self)
//@ end
pub open spec fn ttoks(t: TypeNode) -> Toks decreases t { match t { TypeNode::List(i) => word(0) + ttoks(*i), TypeNode::NonNull(i) => word(1) + ttoks(*i), TypeNode::Named(n) => word(2) + text(n@) } }
// trusted: what #[derive(Hash)] does
impl Feed for TypeNode { open spec fn toks(&self) -> Toks { ttoks(*self) } #[verifier::external_body] fn feed<H: Hasher>(&self, state: &mut H) { unimplemented!() } }
//@ file bin/router/src/query_planner/ast/selection_set.rs
//@ extract struct SelectionSet
//@ end
//@ extract struct FieldSelection
//@ end
//@ extract struct InlineFragmentSelection
//@ end
//@ file bin/router/src/query_planner/ast/selection_item.rs
//@ extract enum SelectionItem
//@ end
//@ file bin/router/src/query_planner/ast/operation.rs
//@ rewrite type crate::query_planner::ast::value::Value => Value
//@ rewrite expr __x.as_ref().unwrap_or(&OperationKind::Query) => or_query(__x.as_ref())
//@ extract struct VariableDefinition
//@ end
//@ extract struct OperationDefinition
//@ end
#[verifier::external_body] pub fn or_query(o: Option<&OperationKind>) -> (r: &OperationKind) ensures *r == (match o { Some(k) => *k, None => OperationKind::Query }) { unimplemented!() }
pub open spec fn op_kind(o: OperationDefinition) -> OperationKind { match o.operation_kind { Some(k) => k, None => OperationKind::Query } }
//@ extract method OperationDefinition::parts
//@ opt ret r
//@ sec spec
    ensures *r.0 == op_kind(*self), *r.1 == self.selection_set
//@ end
pub open spec fn itoks(i: SelectionItem) -> Toks decreases i {
    match i {
        SelectionItem::Field(f) => word(0) + (text(f.name@) + (opt_text(f.alias) + (opt_args(f.arguments) + (opt_text(f.include_if) + (opt_text(f.skip_if) + (flag(f.omit_from_response) + stoks(f.selections))))))),
        SelectionItem::InlineFragment(f) => word(1) + (text(f.type_condition@) + (opt_text(f.include_if) + (opt_text(f.skip_if) + stoks(f.selections)))),
        SelectionItem::FragmentSpread(n) => word(2) + text(n@),
    }
}
pub open spec fn stoks(s: SelectionSet) -> Toks decreases s, s.items@.len() + 1 { word(s.items@.len() as int) + items_from(s, 0) }
pub open spec fn items_from(s: SelectionSet, i: int) -> Toks decreases s, s.items@.len() - i via items_from_d { if 0 <= i < s.items@.len() { itoks(s.items@[i]) + items_from(s, i + 1) } else { Seq::empty() } }
#[via_fn] proof fn items_from_d(s: SelectionSet, i: int) { if 0 <= i < s.items@.len() { assert(decreases_to!(s => s.items)); assert(decreases_to!(s.items => s.items@[i])); } }
//@ file bin/router/src/query_planner/ast/hash.rs
//@ extract fn hash_selection_set
//@ sec spec
    ensures final(hasher).toks() == old(hasher).toks() + stoks(*selection_set)
    decreases selection_set
//@ sec loop 0 iter it
    invariant it.seq().len() == selection_set.items@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == selection_set.items@[i], hasher.toks() + items_from(*selection_set, it.index@ as int) == old(hasher).toks() + stoks(*selection_set)
//@ sec before-loop 0
    proof { add3(old(hasher).toks(), word(selection_set.items@.len() as int), items_from(*selection_set, 0)); }
//@ sec after-loop 0
    proof { assert(hasher.toks() + Seq::<Tok>::empty() =~= hasher.toks()); }
//@ sec loopstart 0
    proof { assert(decreases_to!(selection_set => selection_set.items)); assert(decreases_to!(selection_set.items => selection_set.items@[it.index@ as int])); }
    let ghost h0 = hasher.toks();
//@ sec loopend 0
    proof {
        add3(h0, itoks(*item), items_from(*selection_set, it.index@ + 1));
        assert(items_from(*selection_set, it.index@ as int) == itoks(*item) + items_from(*selection_set, it.index@ + 1));
        match item {
            SelectionItem::Field(f) => {
                assert(f.alias.toks() == opt_text(f.alias)); assert(f.include_if.toks() == opt_text(f.include_if)); assert(f.skip_if.toks() == opt_text(f.skip_if));
                assert(f.arguments.toks() == opt_args(f.arguments)); assert(f.omit_from_response.toks() == flag(f.omit_from_response));
                chain8(h0, word(0), text(f.name@), opt_text(f.alias), opt_args(f.arguments), opt_text(f.include_if), opt_text(f.skip_if), flag(f.omit_from_response), stoks(f.selections));
                assert(hasher.toks() == h0 + itoks(*item));
            }
            SelectionItem::InlineFragment(f) => {
                assert(f.include_if.toks() == opt_text(f.include_if)); assert(f.skip_if.toks() == opt_text(f.skip_if));
                chain5(h0, word(1), text(f.type_condition@), opt_text(f.include_if), opt_text(f.skip_if), stoks(f.selections));
                assert(hasher.toks() == h0 + itoks(*item));
            }
            SelectionItem::FragmentSpread(n) => { add3(h0, word(2), text(n@)); assert(hasher.toks() == h0 + itoks(*item)); }
        }
    }
//@ end
pub open spec fn vars_from(v: Seq<VariableDefinition>, i: int) -> Toks decreases v.len() - i { if 0 <= i < v.len() { text(v[i].name@) + (ttoks(v[i].variable_type) + (opt_value(v[i].default_value) + vars_from(v, i + 1))) } else { Seq::empty() } }
pub open spec fn vars_of(o: OperationDefinition) -> Seq<VariableDefinition> { match o.variable_definitions { Some(v) => v@, None => Seq::empty() } }
pub open spec fn otoks(o: OperationDefinition) -> Toks { text(kind_name(op_kind(o))) + (stoks(o.selection_set) + (word(vars_of(o).len() as int) + vars_from(vars_of(o), 0))) }
#[verifier::external_body] pub fn defs(o: &Option<Vec<VariableDefinition>>) -> (r: &[VariableDefinition]) ensures r@ == (match *o { Some(v) => v@, None => Seq::empty() }) { unimplemented!() }
//@ rewrite expr __x.as_deref().unwrap_or(&[]) => defs(&__x)
//@ extract fn operation_hash
//@ opt ret r
//@ sec spec
    ensures r == digest(otoks(*operation))
//@ sec start
    broadcast use add3;
//@ sec loop 0 iter it
    invariant it.seq().len() == vars_of(*operation).len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == vars_of(*operation)[i], hasher.toks() + vars_from(vars_of(*operation), it.index@ as int) == otoks(*operation)
//@ end
//@ file bin/router/src/query_planner/ast/operation.rs
//@ extract method OperationDefinition::hash
//@ opt ret r
//@ sec spec
    ensures r == digest(otoks(*self))
//@ end
// ---- what is alike in every part but the name ---------------------------------------------------------
pub open spec fn same_text(a: Option<String>, b: Option<String>) -> bool { match (a, b) { (None, None) => true, (Some(x), Some(y)) => x@ == y@, _ => false } }
pub open spec fn same_value(a: Option<Value>, b: Option<Value>) -> bool { match (a, b) { (None, None) => true, (Some(x), Some(y)) => same(x, y), _ => false } }
pub open spec fn same_args(a: Option<ArgumentsMap>, b: Option<ArgumentsMap>) -> bool { match (a, b) { (None, None) => true, (Some(x), Some(y)) => same_pairs(x.arguments_map, y.arguments_map, 0), _ => false } }
pub open spec fn same_type(a: TypeNode, b: TypeNode) -> bool decreases a { match (a, b) { (TypeNode::List(x), TypeNode::List(y)) => same_type(*x, *y), (TypeNode::NonNull(x), TypeNode::NonNull(y)) => same_type(*x, *y), (TypeNode::Named(x), TypeNode::Named(y)) => x@ == y@, _ => false } }
pub open spec fn same_item(a: SelectionItem, b: SelectionItem) -> bool decreases a {
    match (a, b) {
        (SelectionItem::Field(x), SelectionItem::Field(y)) => x.name@ == y.name@ && same_text(x.alias, y.alias) && same_args(x.arguments, y.arguments) && same_text(x.include_if, y.include_if)
            && same_text(x.skip_if, y.skip_if) && x.omit_from_response == y.omit_from_response && same_items(x.selections, y.selections, 0),
        (SelectionItem::InlineFragment(x), SelectionItem::InlineFragment(y)) => x.type_condition@ == y.type_condition@ && same_text(x.include_if, y.include_if) && same_text(x.skip_if, y.skip_if) && same_items(x.selections, y.selections, 0),
        (SelectionItem::FragmentSpread(x), SelectionItem::FragmentSpread(y)) => x@ == y@,
        _ => false,
    }
}
// equal from the i-th selection on, and equally long
pub open spec fn same_items(a: SelectionSet, b: SelectionSet, i: int) -> bool decreases a, a.items@.len() - i via same_items_d { a.items@.len() == b.items@.len() && (0 <= i < a.items@.len() ==> same_item(a.items@[i], b.items@[i]) && same_items(a, b, i + 1)) }
#[via_fn] proof fn same_items_d(a: SelectionSet, b: SelectionSet, i: int) { if 0 <= i < a.items@.len() { assert(decreases_to!(a => a.items)); assert(decreases_to!(a.items => a.items@[i])); } }
pub open spec fn same_var(a: VariableDefinition, b: VariableDefinition) -> bool { a.name@ == b.name@ && same_type(a.variable_type, b.variable_type) && same_value(a.default_value, b.default_value) }
pub open spec fn same_op(a: OperationDefinition, b: OperationDefinition) -> bool {
    op_kind(a) == op_kind(b) && same_items(a.selection_set, b.selection_set, 0)
        && vars_of(a).len() == vars_of(b).len() && forall|i: int| 0 <= i < vars_of(a).len() ==> same_var(#[trigger] vars_of(a)[i], vars_of(b)[i])
}
pub proof fn cut_opt_text(a: Option<String>, b: Option<String>, ra: Toks, rb: Toks) requires opt_text(a) + ra == opt_text(b) + rb ensures same_text(a, b), ra == rb {
    let ta = match a { Some(x) => text(x@), None => Seq::empty() }; let tb = match b { Some(x) => text(x@), None => Seq::empty() };
    let (na, nb) = (if a is Some { 1int } else { 0 }, if b is Some { 1int } else { 0 });
    assert(opt_text(a) =~= word(na) + ta); assert(opt_text(b) =~= word(nb) + tb);
    add3(word(na), ta, ra); add3(word(nb), tb, rb); cut_word(na, nb, ta + ra, tb + rb);
    match (a, b) { (Some(x), Some(y)) => { cut_text(x@, y@, ra, rb); } _ => { assert(ta + ra =~= ra); assert(tb + rb =~= rb); } }
}
pub proof fn cut_opt_value(a: Option<Value>, b: Option<Value>, ra: Toks, rb: Toks) requires opt_value(a) + ra == opt_value(b) + rb ensures same_value(a, b), ra == rb {
    let ta = match a { Some(x) => vtoks(x), None => Seq::empty() }; let tb = match b { Some(x) => vtoks(x), None => Seq::empty() };
    let (na, nb) = (if a is Some { 1int } else { 0 }, if b is Some { 1int } else { 0 });
    assert(opt_value(a) =~= word(na) + ta); assert(opt_value(b) =~= word(nb) + tb);
    add3(word(na), ta, ra); add3(word(nb), tb, rb); cut_word(na, nb, ta + ra, tb + rb);
    match (a, b) { (Some(x), Some(y)) => { cut_value(x, y, ra, rb); } _ => { assert(ta + ra =~= ra); assert(tb + rb =~= rb); } }
}
pub proof fn cut_opt_args(a: Option<ArgumentsMap>, b: Option<ArgumentsMap>, ra: Toks, rb: Toks) requires opt_args(a) + ra == opt_args(b) + rb ensures same_args(a, b), ra == rb {
    let ta = match a { Some(x) => atoks(x), None => Seq::empty() }; let tb = match b { Some(x) => atoks(x), None => Seq::empty() };
    let (na, nb) = (if a is Some { 1int } else { 0 }, if b is Some { 1int } else { 0 });
    assert(opt_args(a) =~= word(na) + ta); assert(opt_args(b) =~= word(nb) + tb);
    add3(word(na), ta, ra); add3(word(nb), tb, rb); cut_word(na, nb, ta + ra, tb + rb);
    match (a, b) {
        (Some(p), Some(q)) => {
            let (x, y) = (p.arguments_map, q.arguments_map);
            add3(word(x.pairs@.len() as int), pairs_from(x, 0), ra); add3(word(y.pairs@.len() as int), pairs_from(y, 0), rb);
            cut_word(x.pairs@.len() as int, y.pairs@.len() as int, pairs_from(x, 0) + ra, pairs_from(y, 0) + rb);
            cut_pairs(x, y, 0, ra, rb);
        }
        _ => { assert(ta + ra =~= ra); assert(tb + rb =~= rb); }
    }
}
pub proof fn cut_type(a: TypeNode, b: TypeNode, ra: Toks, rb: Toks) requires ttoks(a) + ra == ttoks(b) + rb ensures same_type(a, b), ra == rb decreases a {
    let (na, nb) = (match a { TypeNode::List(_) => 0int, TypeNode::NonNull(_) => 1, TypeNode::Named(_) => 2 }, match b { TypeNode::List(_) => 0int, TypeNode::NonNull(_) => 1, TypeNode::Named(_) => 2 });
    let ta = match a { TypeNode::List(x) => ttoks(*x), TypeNode::NonNull(x) => ttoks(*x), TypeNode::Named(x) => text(x@) };
    let tb = match b { TypeNode::List(x) => ttoks(*x), TypeNode::NonNull(x) => ttoks(*x), TypeNode::Named(x) => text(x@) };
    add3(word(na), ta, ra); add3(word(nb), tb, rb); cut_word(na, nb, ta + ra, tb + rb);
    match (a, b) {
        (TypeNode::List(x), TypeNode::List(y)) => { cut_type(*x, *y, ra, rb); }
        (TypeNode::NonNull(x), TypeNode::NonNull(y)) => { cut_type(*x, *y, ra, rb); }
        (TypeNode::Named(x), TypeNode::Named(y)) => { cut_text(x@, y@, ra, rb); }
        _ => {}
    }
}
pub proof fn cut_flag(a: bool, b: bool, ra: Toks, rb: Toks) requires flag(a) + ra == flag(b) + rb ensures a == b, ra == rb { cut_word(if a { 1 } else { 0 }, if b { 1 } else { 0 }, ra, rb); }
pub proof fn cut_set(a: SelectionSet, b: SelectionSet, ra: Toks, rb: Toks) requires stoks(a) + ra == stoks(b) + rb ensures same_items(a, b, 0), ra == rb decreases a, a.items@.len() + 1 {
    add3(word(a.items@.len() as int), items_from(a, 0), ra); add3(word(b.items@.len() as int), items_from(b, 0), rb);
    cut_word(a.items@.len() as int, b.items@.len() as int, items_from(a, 0) + ra, items_from(b, 0) + rb);
    cut_items(a, b, 0, ra, rb);
}
pub proof fn cut_items(a: SelectionSet, b: SelectionSet, i: int, ra: Toks, rb: Toks)
    requires a.items@.len() == b.items@.len(), 0 <= i <= a.items@.len(), items_from(a, i) + ra == items_from(b, i) + rb ensures same_items(a, b, i), ra == rb decreases a, a.items@.len() - i
{
    if i < a.items@.len() {
        let (x, y) = (a.items@[i], b.items@[i]);
        assert(decreases_to!(a => a.items)); assert(decreases_to!(a.items => a.items@[i]));
        add3(itoks(x), items_from(a, i + 1), ra); add3(itoks(y), items_from(b, i + 1), rb);
        cut_item(x, y, items_from(a, i + 1) + ra, items_from(b, i + 1) + rb);
        cut_items(a, b, i + 1, ra, rb);
    } else { assert(items_from(a, i) + ra =~= ra); assert(items_from(b, i) + rb =~= rb); }
}
pub open spec fn item_kind(i: SelectionItem) -> int { match i { SelectionItem::Field(_) => 0, SelectionItem::InlineFragment(_) => 1, SelectionItem::FragmentSpread(_) => 2 } }
pub open spec fn item_rest(i: SelectionItem, r: Toks) -> Toks {
    match i {
        SelectionItem::Field(f) => text(f.name@) + (opt_text(f.alias) + (opt_args(f.arguments) + (opt_text(f.include_if) + (opt_text(f.skip_if) + (flag(f.omit_from_response) + (stoks(f.selections) + r)))))),
        SelectionItem::InlineFragment(f) => text(f.type_condition@) + (opt_text(f.include_if) + (opt_text(f.skip_if) + (stoks(f.selections) + r))),
        SelectionItem::FragmentSpread(n) => text(n@) + r,
    }
}
pub proof fn item_split(i: SelectionItem, r: Toks) ensures itoks(i) + r == word(item_kind(i)) + item_rest(i, r) {
    match i {
        SelectionItem::Field(f) => {
            let (t1, t2, t3, t4, t5, t6, t7) = (text(f.name@), opt_text(f.alias), opt_args(f.arguments), opt_text(f.include_if), opt_text(f.skip_if), flag(f.omit_from_response), stoks(f.selections));
            let (r6, r5, r4, r3) = (t6 + t7, t5 + (t6 + t7), t4 + (t5 + (t6 + t7)), t3 + (t4 + (t5 + (t6 + t7))));
            add3(word(0), t1 + (t2 + r3), r); add3(t1, t2 + r3, r); add3(t2, r3, r); add3(t3, r4, r); add3(t4, r5, r); add3(t5, r6, r); add3(t6, t7, r);
        }
        SelectionItem::InlineFragment(f) => {
            let (t1, t2, t3, t4) = (text(f.type_condition@), opt_text(f.include_if), opt_text(f.skip_if), stoks(f.selections));
            add3(word(1), t1 + (t2 + (t3 + t4)), r); add3(t1, t2 + (t3 + t4), r); add3(t2, t3 + t4, r); add3(t3, t4, r);
        }
        SelectionItem::FragmentSpread(n) => { add3(word(2), text(n@), r); }
    }
}
pub proof fn cut_item(a: SelectionItem, b: SelectionItem, ra: Toks, rb: Toks) requires itoks(a) + ra == itoks(b) + rb ensures same_item(a, b), ra == rb decreases a {
    item_split(a, ra); item_split(b, rb);
    cut_word(item_kind(a), item_kind(b), item_rest(a, ra), item_rest(b, rb));
    match (a, b) {
        (SelectionItem::Field(f), SelectionItem::Field(g)) => {
            let (r7, s7) = (stoks(f.selections) + ra, stoks(g.selections) + rb);
            let (r6, s6) = (flag(f.omit_from_response) + r7, flag(g.omit_from_response) + s7);
            let (r5, s5) = (opt_text(f.skip_if) + r6, opt_text(g.skip_if) + s6);
            let (r4, s4) = (opt_text(f.include_if) + r5, opt_text(g.include_if) + s5);
            let (r3, s3) = (opt_args(f.arguments) + r4, opt_args(g.arguments) + s4);
            let (r2, s2) = (opt_text(f.alias) + r3, opt_text(g.alias) + s3);
            cut_text(f.name@, g.name@, r2, s2); cut_opt_text(f.alias, g.alias, r3, s3); cut_opt_args(f.arguments, g.arguments, r4, s4);
            cut_opt_text(f.include_if, g.include_if, r5, s5); cut_opt_text(f.skip_if, g.skip_if, r6, s6); cut_flag(f.omit_from_response, g.omit_from_response, r7, s7);
            cut_set(f.selections, g.selections, ra, rb);
        }
        (SelectionItem::InlineFragment(f), SelectionItem::InlineFragment(g)) => {
            let (r4, s4) = (stoks(f.selections) + ra, stoks(g.selections) + rb);
            let (r3, s3) = (opt_text(f.skip_if) + r4, opt_text(g.skip_if) + s4);
            let (r2, s2) = (opt_text(f.include_if) + r3, opt_text(g.include_if) + s3);
            cut_text(f.type_condition@, g.type_condition@, r2, s2); cut_opt_text(f.include_if, g.include_if, r3, s3); cut_opt_text(f.skip_if, g.skip_if, r4, s4);
            cut_set(f.selections, g.selections, ra, rb);
        }
        (SelectionItem::FragmentSpread(n), SelectionItem::FragmentSpread(m)) => { cut_text(n@, m@, ra, rb); }
        _ => {}
    }
}
pub proof fn cut_vars(a: Seq<VariableDefinition>, b: Seq<VariableDefinition>, i: int)
    requires a.len() == b.len(), 0 <= i <= a.len(), vars_from(a, i) == vars_from(b, i) ensures forall|j: int| i <= j < a.len() ==> same_var(#[trigger] a[j], b[j]) decreases a.len() - i
{
    if i < a.len() {
        let (x, y) = (a[i], b[i]);
        let (r3, s3) = (vars_from(a, i + 1), vars_from(b, i + 1));
        let (r2, s2) = (opt_value(x.default_value) + r3, opt_value(y.default_value) + s3);
        let (r1, s1) = (ttoks(x.variable_type) + r2, ttoks(y.variable_type) + s2);
        cut_text(x.name@, y.name@, r1, s1); cut_type(x.variable_type, y.variable_type, r2, s2); cut_opt_value(x.default_value, y.default_value, r3, s3);
        cut_vars(a, b, i + 1);
    }
}
// two operations feed the hasher the same only when they are alike in everything but their names
pub proof fn one_hash_one_operation(a: OperationDefinition, b: OperationDefinition) requires otoks(a) == otoks(b) ensures same_op(a, b) {
    let (r2, s2) = (word(vars_of(a).len() as int) + vars_from(vars_of(a), 0), word(vars_of(b).len() as int) + vars_from(vars_of(b), 0));
    let (r1, s1) = (stoks(a.selection_set) + r2, stoks(b.selection_set) + s2);
    cut_text(kind_name(op_kind(a)), kind_name(op_kind(b)), r1, s1);
    reveal_strlit("query"); reveal_strlit("mutation"); reveal_strlit("subscription");
    assert("query"@.len() == 5 && "mutation"@.len() == 8 && "subscription"@.len() == 12);
    cut_set(a.selection_set, b.selection_set, r2, s2);
    cut_word(vars_of(a).len() as int, vars_of(b).len() as int, vars_from(vars_of(a), 0), vars_from(vars_of(b), 0));
    cut_vars(vars_of(a), vars_of(b), 0);
}
// ---- the hash of a whole request: what is planned, and what is answered by introspection --------------
//@ file bin/router/src/pipeline/normalize.rs
//@ rewrite expr __x.map(OperationDefinition::hash) => hash_of(__x)
#[verifier::external_body] pub fn hash_of(o: Option<&OperationDefinition>) -> (r: Option<u64>) ensures r == (match o { Some(x) => Some(digest(otoks(*x))), None => None }) { unimplemented!() }
//@ extract struct NormalizedOperationHashes
//@ end
pub open spec fn opt_hash(o: Option<&OperationDefinition>) -> Toks { match o { Some(x) => word(1) + word(digest(otoks(*x)) as int), None => word(0) } }
//@ extract fn hash_normalized_operation
//@ opt ret r
//@ sec spec
    ensures r.operation_for_plan_hash == digest(otoks(*operation_for_plan)),
        r.operation_for_introspection_hash == (match operation_for_introspection { Some(x) => Some(digest(otoks(*x))), None => None }),
        r.combined_operation_hash == digest(word(digest(otoks(*operation_for_plan)) as int) + opt_hash(operation_for_introspection))
//@ sec tail
    proof { assert(hasher.toks() =~= word(digest(otoks(*operation_for_plan)) as int) + opt_hash(operation_for_introspection)); }
//@ end
} // verus!
fn main() {}
