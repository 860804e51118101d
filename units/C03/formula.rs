//@-- C03: estimated cost
//@ include ../lib/prelude.rs
verus! {
use std::sync::Arc;
//@ dropmacro warn debug trace info error
// ---- the world around ----------------------------------------------------------------------
// coerced variables of the request; what a variable says is read through two trusted functions
#[verifier::external_body] pub struct CoerceVariablesPayload { x: u8 }
#[verifier::external_body] pub struct AstValue { x: u8 }
#[verifier::external_body] pub struct TypeNode { x: u8 }
#[verifier::external_body] pub struct SupergraphState { x: u8 }
#[verifier::external_body] pub struct CompiledActualCostPlan { x: u8 }
pub uninterp spec fn is_true(e: CoerceVariablesPayload, v: Seq<char>) -> bool;
pub uninterp spec fn slice_size(v: AstValue, path: Seq<String>, e: CoerceVariablesPayload) -> Option<u64>;
pub uninterp spec fn input_cost(v: AstValue, t: TypeNode, s: SupergraphState, e: CoerceVariablesPayload) -> u64;
impl CoerceVariablesPayload {
    // trusted: executor/execution/plan.rs, read of the coerced variables
    #[verifier::external_body]
    pub fn variable_equals_true(&self, n: &str) -> (r: bool) ensures r == is_true(*self, n@) { unimplemented!() }
}
// trusted: bounded run only (values of the sonic JSON type)
#[verifier::external_body]
pub fn resolve_integer_value(v: &AstValue, path: &[String], e: &CoerceVariablesPayload) -> (r: Option<u64>)
    ensures r == slice_size(*v, path@, *e) { unimplemented!() }
#[verifier::external_body]
pub fn estimate_input_value_cost(v: &AstValue, t: &TypeNode, s: &SupergraphState, e: &CoerceVariablesPayload) -> (r: u64)
    ensures r == input_cost(*v, *t, *s, *e) { unimplemented!() }
pub enum ClientPipelineError { CostInvalidSlicingArguments { field_name: String, found: usize } }
pub struct PipelineError { pub e: ClientPipelineError }
pub fn to_pipeline(e: ClientPipelineError) -> (r: PipelineError) ensures r.e == e { PipelineError { e } }
// trusted: BTreeMap<String, u64>
#[verifier::external_body] pub struct CostMap { m: u8 }
impl View for CostMap { type V = Map<Seq<char>, u64>; uninterp spec fn view(&self) -> Map<Seq<char>, u64>; }
impl CostMap {
    #[verifier::external_body]
    pub fn new() -> (r: CostMap) ensures r@ == Map::<Seq<char>, u64>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &String) -> (r: bool) ensures r == self@.dom().contains(k@) { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &String) -> (r: Option<&u64>)
        ensures r is Some <==> self@.dom().contains(k@), r matches Some(x) ==> *x == self@[k@] { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut<'a>(&'a mut self, k: &String) -> (r: Option<&'a mut u64>)
        ensures
            r is Some <==> old(self)@.dom().contains(k@),
            r matches Some(x) ==> *x == old(self)@[k@] && final(self)@ == old(self)@.insert(k@, *final(x)),
            r is None ==> final(self)@ == old(self)@ { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: String, v: u64) -> (r: Option<u64>) ensures final(self)@ == old(self)@.insert(k@, v) { unimplemented!() }
}
// trusted: String::clone copies the characters
#[verifier::external_body]
pub fn clone_string(s: &String) -> (r: String) ensures r == *s { s.clone() }

//@ file bin/router/src/pipeline/demand_control/formula.rs
//@ rewrite type BTreeMap<String,u64> => CostMap
//@ rewrite expr BTreeMap::new() => CostMap::new()
//@ rewrite expr fetch_node.service_name.clone() => clone_string(&fetch_node.service_name)
//@ rewrite expr field_name.clone() => clone_string(field_name)
//@ rewrite expr Err(ClientPipelineError::CostInvalidSlicingArguments { field_name: field_name.clone(), found: resolved_count, }.into()) => Err(to_pipeline(ClientPipelineError::CostInvalidSlicingArguments { field_name: clone_string(field_name), found: resolved_count }))
//@ extract enum CostExpr
//@ end
//@ extract struct FormulaFetchNode
//@ end
//@ extract enum FormulaPlanNode
//@ end
//@ extract struct DemandControlFormulaPlan
//@ end

// ---- what a formula is worth: an exact natural number, or none when a list's slicing
// ---- arguments are not exactly one although exactly one is required
pub open spec fn sat(n: nat) -> u64 { if n > u64::MAX { u64::MAX } else { n as u64 } }
pub open spec fn known(args: Seq<(AstValue, Vec<String>)>, k: nat, e: CoerceVariablesPayload) -> nat decreases k {
    if k == 0 { 0 } else { known(args, (k - 1) as nat, e) + if slice_size(args[k - 1].0, args[k - 1].1@, e) is Some { 1nat } else { 0 } }
}
pub open spec fn last_known(args: Seq<(AstValue, Vec<String>)>, k: nat, e: CoerceVariablesPayload) -> u64 decreases k {
    if k == 0 { 0 } else { match slice_size(args[k - 1].0, args[k - 1].1@, e) { Some(x) => x, None => last_known(args, (k - 1) as nat, e) } }
}
pub open spec fn largest(args: Seq<(AstValue, Vec<String>)>, k: nat, e: CoerceVariablesPayload) -> Option<u64> decreases k {
    if k == 0 { None } else {
        match (slice_size(args[k - 1].0, args[k - 1].1@, e), largest(args, (k - 1) as nat, e)) {
            (Some(x), Some(y)) => Some(if x > y { x } else { y }), (Some(x), None) => Some(x), (None, y) => y,
        }
    }
}
pub open spec fn worth(x: CostExpr, s: SupergraphState, e: CoerceVariablesPayload) -> Option<nat> decreases x, 0nat {
    match x {
        CostExpr::Const(n) => Some(n as nat),
        CostExpr::Add(v) => worth_sum(v, v@.len(), s, e),
        CostExpr::Mul(a, b) => match (worth(*a, s, e), worth(*b, s, e)) { (Some(p), Some(q)) => Some(p * q), _ => None },
        CostExpr::Cond { variable, if_true, if_false } => if is_true(e, variable@) { worth(*if_true, s, e) } else { worth(*if_false, s, e) },
        CostExpr::ListSize { field_name, args, require_one, default } =>
            if require_one {
                if known(args@, args@.len(), e) == 1 { Some(last_known(args@, args@.len(), e) as nat) } else { None }
            } else {
                match largest(args@, args@.len(), e) { Some(n) => Some(n as nat), None => Some(default as nat) }
            },
        CostExpr::InputArgCost { value, value_type } => Some(input_cost(value, value_type, s, e) as nat),
    }
}
pub open spec fn worth_sum(v: Vec<CostExpr>, k: nat, s: SupergraphState, e: CoerceVariablesPayload) -> Option<nat>
    decreases v, k via worth_sum_dec
{
    if k == 0 || k > v@.len() { Some(0) } else {
        match (worth_sum(v, (k - 1) as nat, s, e), worth(v@[k - 1], s, e)) { (Some(p), Some(q)) => Some(p + q), _ => None }
    }
}
#[via_fn]
proof fn worth_sum_dec(v: Vec<CostExpr>, k: nat, s: SupergraphState, e: CoerceVariablesPayload) {
    if k > 0 && k <= v@.len() { assert(decreases_to!(v => v@[k - 1])); }
}
pub proof fn sat_mul(a: nat, b: nat)
    ensures sat((sat(a) as nat) * (sat(b) as nat)) == sat(a * b)
{
    let m = u64::MAX as nat;
    if a > m || b > m {
        if a == 0 { assert((sat(a) as nat) * (sat(b) as nat) == 0) by (nonlinear_arith) requires sat(a) == 0; assert(a * b == 0) by (nonlinear_arith) requires a == 0; }
        else if b == 0 { assert((sat(a) as nat) * (sat(b) as nat) == 0) by (nonlinear_arith) requires sat(b) == 0; assert(a * b == 0) by (nonlinear_arith) requires b == 0; }
        else {
            let x = sat(a) as nat; let y = sat(b) as nat;
            assert(x * y >= m) by (nonlinear_arith) requires x >= 1, y >= 1, x == m || y == m;
            assert(a * b > m) by (nonlinear_arith) requires a >= 1, b >= 1, a > m || b > m;
        }
    }
}
pub proof fn sum_none(v: Vec<CostExpr>, k: nat, n: nat, s: SupergraphState, e: CoerceVariablesPayload)
    requires k <= n <= v@.len(), worth_sum(v, k, s, e) is None
    ensures worth_sum(v, n, s, e) is None
    decreases n - k
{ if k < n { assert(worth_sum(v, k + 1, s, e) is None); sum_none(v, k + 1, n, s, e); } }
pub proof fn known_le(args: Seq<(AstValue, Vec<String>)>, k: nat, e: CoerceVariablesPayload)
    ensures known(args, k, e) <= k decreases k
{ if k > 0 { known_le(args, (k - 1) as nat, e); } }

//@ extract fn eval_cost_expr
//@ opt attr #[verifier::exec_allows_no_decreases_clause]
//@ sec spec
    ensures
        r is Ok <==> worth(*expr, *supergraph_state, *variable_payload) is Some,
        r matches Ok(n) ==> n == sat(worth(*expr, *supergraph_state, *variable_payload)->0),
//@ sec loop 0 iter it
        invariant
            expr matches CostExpr::Add(v) && v == exprs,
            it.seq().len() == exprs@.len(),
            forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == exprs@[i],
            worth_sum(*exprs, it.index@ as nat, *supergraph_state, *variable_payload) is Some,
            total == sat(worth_sum(*exprs, it.index@ as nat, *supergraph_state, *variable_payload)->0),
//@ sec loopstart 0
        proof {
            assert(*e == exprs@[it.index@]);
            if worth(*e, *supergraph_state, *variable_payload) is None {
                assert(worth_sum(*exprs, (it.index@ + 1) as nat, *supergraph_state, *variable_payload) is None);
                sum_none(*exprs, (it.index@ + 1) as nat, exprs@.len(), *supergraph_state, *variable_payload);
            }
        }
//@ sec start
    proof {
        if let CostExpr::Mul(a, b) = expr {
            if let (Some(p), Some(q)) = (worth(**a, *supergraph_state, *variable_payload), worth(**b, *supergraph_state, *variable_payload)) { sat_mul(p, q); }
        }
    }
//@ sec loop 1 iter it
        invariant
            it.seq().len() == args@.len(),
            forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == args@[i],
            resolved_count == known(args@, it.index@ as nat, *variable_payload),
            resolved_count <= it.index@, args.len() == args@.len(),
            only_value == last_known(args@, it.index@ as nat, *variable_payload),
//@ sec loop 2 iter it
        invariant
            it.seq().len() == args@.len(),
            forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == args@[i],
            max_value == largest(args@, it.index@ as nat, *variable_payload),
//@ end

// ---- construction keeps the worth -------------------------------------------------------------
pub open spec fn same_as_sum(r: CostExpr, v: Vec<CostExpr>, s: SupergraphState, e: CoerceVariablesPayload) -> bool {
    &&& (worth(r, s, e) is Some <==> worth_sum(v, v@.len(), s, e) is Some)
    &&& worth(r, s, e) is Some ==> sat(worth(r, s, e)->0) == sat(worth_sum(v, v@.len(), s, e)->0)
}
pub proof fn prefix_sum(a: Vec<CostExpr>, b: Vec<CostExpr>, k: nat, s: SupergraphState, e: CoerceVariablesPayload)
    requires k <= a@.len(), k <= b@.len(), forall|i: int| 0 <= i < k ==> a@[i] == b@[i]
    ensures worth_sum(a, k, s, e) == worth_sum(b, k, s, e)
    decreases k
{ if k > 0 { prefix_sum(a, b, (k - 1) as nat, s, e); } }
pub open spec fn partial(f: Vec<CostExpr>, c: u64, v: Vec<CostExpr>, k: nat, s: SupergraphState, e: CoerceVariablesPayload) -> bool {
    &&& (worth_sum(f, f@.len(), s, e) is Some <==> worth_sum(v, k, s, e) is Some)
    &&& worth_sum(v, k, s, e) is Some ==> sat(worth_sum(f, f@.len(), s, e)->0 + c as nat) == sat(worth_sum(v, k, s, e)->0)
}
pub open spec fn all_partial(f: Vec<CostExpr>, c: u64, v: Vec<CostExpr>, k: nat) -> bool {
    forall|s: SupergraphState, e: CoerceVariablesPayload| #[trigger] partial(f, c, v, k, s, e)
}
// one more addend: a constant goes into the running total, anything else is kept
pub proof fn partial_const(f: Vec<CostExpr>, c: u64, c2: u64, v: Vec<CostExpr>, k: nat, n: u64)
    requires k < v@.len(), v@[k as int] == CostExpr::Const(n), c2 == sat(c as nat + n as nat),
        all_partial(f, c, v, k)
    ensures all_partial(f, c2, v, k + 1)
{
    assert forall|s: SupergraphState, e: CoerceVariablesPayload| #[trigger] partial(f, c2, v, k + 1, s, e) by {
        assert(partial(f, c, v, k, s, e));
        assert(worth(v@[k as int], s, e) == Some(n as nat));
    }
}
pub proof fn partial_push(f: Vec<CostExpr>, f2: Vec<CostExpr>, c: u64, v: Vec<CostExpr>, k: nat)
    requires k < v@.len(), f2@ == f@.push(v@[k as int]),
        all_partial(f, c, v, k)
    ensures all_partial(f2, c, v, k + 1)
{
    assert forall|s: SupergraphState, e: CoerceVariablesPayload| #[trigger] partial(f2, c, v, k + 1, s, e) by {
        assert(partial(f, c, v, k, s, e));
        prefix_sum(f, f2, f@.len(), s, e);
        assert(f2@[f@.len() as int] == v@[k as int]);
        assert(worth_sum(f2, f2@.len(), s, e) == match (worth_sum(f2, f@.len(), s, e), worth(v@[k as int], s, e)) { (Some(p), Some(q)) => Some(p + q), _ => None::<nat> });
    }
}
pub proof fn partial_done(f: Vec<CostExpr>, f2: Vec<CostExpr>, c: u64, v: Vec<CostExpr>)
    requires
        f2@ == (if c > 0 { f@.push(CostExpr::Const(c)) } else { f@ }),
        all_partial(f, c, v, v@.len())
    ensures
        f2@.len() == 0 ==> forall|s: SupergraphState, e: CoerceVariablesPayload| #[trigger] same_as_sum(CostExpr::Const(0), v, s, e),
        f2@.len() == 1 ==> forall|s: SupergraphState, e: CoerceVariablesPayload| #[trigger] same_as_sum(f2@[0], v, s, e),
        f2@.len() > 1 ==> forall|s: SupergraphState, e: CoerceVariablesPayload| #[trigger] same_as_sum(CostExpr::Add(f2), v, s, e),
{
    let r = if f2@.len() == 0 { CostExpr::Const(0) } else if f2@.len() == 1 { f2@[0] } else { CostExpr::Add(f2) };
    assert forall|s: SupergraphState, e: CoerceVariablesPayload| #[trigger] same_as_sum(r, v, s, e) by {
        assert(partial(f, c, v, v@.len(), s, e));
        prefix_sum(f, f2, f@.len(), s, e);
        assert(worth_sum(f2, 0, s, e) == Some(0nat));
        if c > 0 {
            assert(f2@[f@.len() as int] == CostExpr::Const(c));
            assert(worth_sum(f2, f2@.len(), s, e) == match (worth_sum(f2, f@.len(), s, e), worth(CostExpr::Const(c), s, e)) { (Some(p), Some(q)) => Some(p + q), _ => None::<nat> });
        }
        if f2@.len() == 1 { assert(worth_sum(f2, 1, s, e) == match (worth_sum(f2, 0, s, e), worth(f2@[0], s, e)) { (Some(p), Some(q)) => Some(p + q), _ => None::<nat> }); }
        assert(worth(r, s, e) == worth_sum(f2, f2@.len(), s, e));
    }
}
// verified: first of a one-element vector
pub fn only(v: Vec<CostExpr>) -> (r: CostExpr) requires v@.len() == 1 ensures r == v@[0] { let mut v = v; v.pop().unwrap() }

//@ rewrite expr final_exprs.into_iter().next().unwrap() => only(final_exprs)
//@ rewrite expr include_if.clone() => clone_string(include_if)
//@ rewrite expr skip_if.clone() => clone_string(skip_if)
//@ extract method CostExpr::add_nonzero
//@ sec spec
    ensures forall|s: SupergraphState, e: CoerceVariablesPayload| #[trigger] same_as_sum(r, exprs, s, e)
//@ sec start
    let ghost exprs0 = exprs;
    let ghost mut fgh = exprs; let ghost mut cgh = 0u64;
//@ sec loop 0 iter it
        invariant
            it.seq() == exprs0@,
            all_partial(final_exprs, const_total, exprs0, it.index@ as nat),
//@ sec loopstart 0
        let ghost f0 = final_exprs; let ghost c0 = const_total;
        proof { assert(expr == exprs0@[it.index@]); }
//@ sec loopend 0
        proof {
            if let CostExpr::Const(n) = exprs0@[it.index@] { partial_const(f0, c0, const_total, exprs0, it.index@ as nat, n); }
            else { partial_push(f0, final_exprs, const_total, exprs0, it.index@ as nat); }
        }
//@ sec after-loop 0
        proof {
            fgh = final_exprs; cgh = const_total;
        }
//@ sec tail
    proof { partial_done(fgh, final_exprs, cgh, exprs0); }
//@ end

pub open spec fn both(r: CostExpr, a: CostExpr, b: CostExpr, s: SupergraphState, e: CoerceVariablesPayload) -> bool {
    worth(a, s, e) is Some && worth(b, s, e) is Some ==>
        worth(r, s, e) is Some && sat(worth(r, s, e)->0) == sat(worth(a, s, e)->0 * worth(b, s, e)->0)
}
pub proof fn mul_facts(a: CostExpr, b: CostExpr, s: SupergraphState, e: CoerceVariablesPayload)
    ensures
        a == CostExpr::Const(0) || b == CostExpr::Const(0) ==> both(CostExpr::Const(0), a, b, s, e),
        a == CostExpr::Const(1) ==> both(b, a, b, s, e),
        b == CostExpr::Const(1) ==> both(a, a, b, s, e),
        a is Const && b is Const ==> both(CostExpr::Const(sat((a->Const_0 as nat) * (b->Const_0 as nat))), a, b, s, e),
{
    if let (Some(p), Some(q)) = (worth(a, s, e), worth(b, s, e)) {
        if p == 0 { assert(p * q == 0) by (nonlinear_arith) requires p == 0; }
        if q == 0 { assert(p * q == 0) by (nonlinear_arith) requires q == 0; }
        if p == 1 { assert(p * q == q) by (nonlinear_arith) requires p == 1; }
        if q == 1 { assert(p * q == p) by (nonlinear_arith) requires q == 1; }
    }
}
//@ extract method CostExpr::mul
//@ sec spec
    ensures forall|s: SupergraphState, e: CoerceVariablesPayload| #[trigger] both(r, lhs, rhs, s, e)
//@ sec start
    proof {
        let l = lhs; let r = rhs;
        if l == CostExpr::Const(0) || r == CostExpr::Const(0) { assert forall|s: SupergraphState, e: CoerceVariablesPayload| #[trigger] both(CostExpr::Const(0), l, r, s, e) by { mul_facts(l, r, s, e); } }
        if l == CostExpr::Const(1) { assert forall|s: SupergraphState, e: CoerceVariablesPayload| #[trigger] both(r, l, r, s, e) by { mul_facts(l, r, s, e); } }
        if r == CostExpr::Const(1) { assert forall|s: SupergraphState, e: CoerceVariablesPayload| #[trigger] both(l, l, r, s, e) by { mul_facts(l, r, s, e); } }
        if l is Const && r is Const {
            let z = CostExpr::Const(sat((l->Const_0 as nat) * (r->Const_0 as nat)));
            assert forall|s: SupergraphState, e: CoerceVariablesPayload| #[trigger] both(z, l, r, s, e) by { mul_facts(l, r, s, e); }
        }
    }
//@ end
//@ file bin/router/src/query_planner/ast/selection_set.rs
//@ extract struct FieldSelection
//@ opt keepfields name include_if skip_if
//@ end
//@ file bin/router/src/pipeline/demand_control/formula.rs
//@ extract fn apply_field_conditions
//@ sec spec
    ensures forall|s: SupergraphState, e: CoerceVariablesPayload|
        #[trigger] worth(r, s, e) == (
            if (field.include_if matches Some(v) && !is_true(e, v@)) || (field.skip_if matches Some(v) && is_true(e, v@)) { Some(0nat) }
            else { worth(field_cost_expr, s, e) })
//@ sec start
    proof { reveal_with_fuel(worth, 4); }
//@ end

// ---- the plan: the fetches reached, in order, given the variables ----------------------------------
pub open spec fn reached(n: FormulaPlanNode, e: CoerceVariablesPayload) -> Seq<FormulaFetchNode> decreases n, 0nat {
    match n {
        FormulaPlanNode::Fetch(f) => seq![f],
        FormulaPlanNode::Aggregate(v) => reached_all(v, v@.len(), e),
        FormulaPlanNode::Condition { condition, if_clause, else_clause } =>
            if is_true(e, condition@) { match if_clause { Some(b) => reached(*b, e), None => seq![] } }
            else { match else_clause { Some(b) => reached(*b, e), None => seq![] } },
    }
}
pub open spec fn reached_all(v: Vec<FormulaPlanNode>, k: nat, e: CoerceVariablesPayload) -> Seq<FormulaFetchNode>
    decreases v, k via reached_all_dec
{ if k == 0 || k > v@.len() { seq![] } else { reached_all(v, (k - 1) as nat, e) + reached(v@[k - 1], e) } }
#[via_fn]
proof fn reached_all_dec(v: Vec<FormulaPlanNode>, k: nat, e: CoerceVariablesPayload) {
    if k > 0 && k <= v@.len() { assert(decreases_to!(v => v@[k - 1])); }
}
pub struct Bill { pub total: nat, pub by: Map<Seq<char>, u64> }
// what the fetches cost on top of `b`: every one is charged, to the total and to its own subgraph
pub open spec fn charge(b: Option<Bill>, f: Seq<FormulaFetchNode>, s: SupergraphState, e: CoerceVariablesPayload) -> Option<Bill> decreases f.len() {
    if f.len() == 0 { b } else {
        match (charge(b, f.drop_last(), s, e), worth(f.last().estimated_expr, s, e)) {
            (Some(b), Some(w)) => {
                let n = f.last().service_name@;
                Some(Bill { total: b.total + w, by: b.by.insert(n, sat((if b.by.dom().contains(n) { b.by[n] as nat } else { 0 }) + w)) })
            },
            _ => None,
        }
    }
}
pub proof fn charge_app(b: Option<Bill>, f: Seq<FormulaFetchNode>, g: Seq<FormulaFetchNode>, s: SupergraphState, e: CoerceVariablesPayload)
    ensures charge(b, f + g, s, e) == charge(charge(b, f, s, e), g, s, e)
    decreases g.len()
{
    if g.len() == 0 { assert(f + g =~= f); } else {
        assert((f + g).drop_last() =~= f + g.drop_last());
        assert((f + g).last() == g.last());
        charge_app(b, f, g.drop_last(), s, e);
    }
}
pub proof fn charge_none(f: Seq<FormulaFetchNode>, s: SupergraphState, e: CoerceVariablesPayload)
    ensures charge(None, f, s, e) is None decreases f.len()
{ if f.len() > 0 { charge_none(f.drop_last(), s, e); } }
pub proof fn charge_shift(b: Bill, c: Bill, f: Seq<FormulaFetchNode>, s: SupergraphState, e: CoerceVariablesPayload)
    requires sat(b.total) == sat(c.total), b.by == c.by
    ensures
        charge(Some(b), f, s, e) is Some <==> charge(Some(c), f, s, e) is Some,
        charge(Some(b), f, s, e) is Some ==> sat(charge(Some(b), f, s, e)->0.total) == sat(charge(Some(c), f, s, e)->0.total) && charge(Some(b), f, s, e)->0.by == charge(Some(c), f, s, e)->0.by,
    decreases f.len()
{ if f.len() > 0 { charge_shift(b, c, f.drop_last(), s, e); } }
pub proof fn prefix_none(b: Option<Bill>, v: Vec<FormulaPlanNode>, k: nat, n: nat, s: SupergraphState, e: CoerceVariablesPayload)
    requires k <= n <= v@.len(), charge(b, reached_all(v, k, e), s, e) is None
    ensures charge(b, reached_all(v, n, e), s, e) is None
    decreases n - k
{
    if k < n {
        assert(reached_all(v, k + 1, e) == reached_all(v, k, e) + reached(v@[k as int], e));
        charge_app(b, reached_all(v, k, e), reached(v@[k as int], e), s, e);
        charge_none(reached(v@[k as int], e), s, e);
        prefix_none(b, v, k + 1, n, s, e);
    }
}
pub open spec fn bill_is(total: u64, by: CostMap, b: Option<Bill>) -> bool { b is Some && total == sat(b->0.total) && by@ == b->0.by }

// verified
pub fn opt_unbox(o: &Option<Box<FormulaPlanNode>>) -> (r: Option<&FormulaPlanNode>)
    ensures r is Some <==> *o is Some, r matches Some(x) ==> *x == *((*o)->0)
{ match o { Some(b) => Some(&**b), None => None } }
//@ rewrite expr __o.as_deref() => opt_unbox(__o)
//@ extract fn evaluate_formula_plan_node
//@ opt attr #[verifier::exec_allows_no_decreases_clause] #[verifier::loop_isolation(false)]
//@ sec spec
    ensures ({
        let b = charge(Some(Bill { total: *old(estimated_cost) as nat, by: old(per_subgraph)@ }), reached(*node, *variable_payload), *supergraph_state, *variable_payload);
        &&& r is Ok <==> b is Some
        &&& r is Ok ==> bill_is(*final(estimated_cost), *final(per_subgraph), b)
    })
//@ sec start
    let ghost b0 = Bill { total: *estimated_cost as nat, by: per_subgraph@ };
    proof {
        if let FormulaPlanNode::Fetch(f) = node {
            let q = seq![*f];
            assert(q.drop_last() =~= Seq::<FormulaFetchNode>::empty());
            assert(charge(Some(b0), q.drop_last(), *supergraph_state, *variable_payload) == Some(b0));
            assert(q.last() == *f);
        }
    }
//@ sec loop 0 iter it
        invariant
            node matches FormulaPlanNode::Aggregate(v) && v == nodes,
            it.seq().len() == nodes@.len(),
            forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == nodes@[i],
            bill_is(*estimated_cost, *per_subgraph, charge(Some(b0), reached_all(*nodes, it.index@ as nat, *variable_payload), *supergraph_state, *variable_payload)),
//@ sec loopstart 0
        proof {
            let k = it.index@ as nat;
            assert(*child == nodes@[k as int]);
            let pre = charge(Some(b0), reached_all(*nodes, k, *variable_payload), *supergraph_state, *variable_payload);
            let f = reached(*child, *variable_payload);
            assert(reached_all(*nodes, k + 1, *variable_payload) == reached_all(*nodes, k, *variable_payload) + f);
            charge_app(Some(b0), reached_all(*nodes, k, *variable_payload), f, *supergraph_state, *variable_payload);
            charge_shift(pre->0, Bill { total: *estimated_cost as nat, by: per_subgraph@ }, f, *supergraph_state, *variable_payload);
            if charge(pre, f, *supergraph_state, *variable_payload) is None {
                prefix_none(Some(b0), *nodes, k + 1, nodes@.len(), *supergraph_state, *variable_payload);
            }
        }
//@ end
pub struct DemandControlEvaluation { pub estimated_cost: u64, pub per_subgraph: Arc<CostMap> }
//@ extract fn evaluate_formula_plan
//@ sec spec
    ensures ({
        let b = charge(Some(Bill { total: 0, by: Map::empty() }), reached(formula_plan.root, *variable_payload), *supergraph_state, *variable_payload);
        &&& r is Ok <==> b is Some
        &&& r is Ok ==> r->Ok_0.estimated_cost == sat(b->0.total) && (*r->Ok_0.per_subgraph)@ == b->0.by
    })
//@ end
} // verus!
fn main() {}
