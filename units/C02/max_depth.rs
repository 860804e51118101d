//@-- C02: the depth limit
//@ include ../lib/prelude.rs
verus! {
//@ include ../lib/countable.rs
//@ include ../lib/limits.rs
//@ file bin/router/src/config/limits.rs
//@ extract struct MaxDepthRuleConfig
//@ end
// ---- depth of a node below `p` levels, every spread standing for the fragment -------------------
pub open spec fn max2(a: nat, b: nat) -> nat { if a >= b { a } else { b } }
// depth of the body of a fragment, counted from 0: the solution of the equations of `wf`
pub uninterp spec fn w<'doc>(m: FragMap<'doc>, c: MaxDepthRuleConfig, name: Seq<char>) -> nat;
pub open spec fn introspective(c: MaxDepthRuleConfig, f: Field) -> bool {
    c.ignore_introspection && (f.name@ == "__schema"@ || f.name@ == "__type"@)
}
pub open spec fn inc(c: MaxDepthRuleConfig, s: Selection) -> nat {
    if c.flatten_fragments && (s is FragmentSpread || s is InlineFragment) { 0 } else { 1 }
}
pub open spec fn spread_depth<'doc>(m: FragMap<'doc>, c: MaxDepthRuleConfig, f: FragmentSpread, p: nat) -> nat {
    if frags(m).contains_key(f.fragment_name@) { p + (if c.flatten_fragments { 0nat } else { 1nat }) + w(m, c, f.fragment_name@) } else { p }
}
pub open spec fn depth_sel<'doc>(m: FragMap<'doc>, c: MaxDepthRuleConfig, s: Selection, p: nat) -> nat decreases s, 0nat {
    match s {
        Selection::Field(f) => if introspective(c, f) { 0 } else { depth_items(m, c, f.selection_set.items, f.selection_set.items@.len(), p) },
        Selection::InlineFragment(f) => depth_items(m, c, f.selection_set.items, f.selection_set.items@.len(), p),
        Selection::FragmentSpread(f) => spread_depth(m, c, f, p),
    }
}
pub open spec fn depth_items<'doc>(m: FragMap<'doc>, c: MaxDepthRuleConfig, items: Vec<Selection>, k: nat, p: nat) -> nat decreases items, k {
    if k == 0 || k > items@.len() { p } else {
        max2(depth_items(m, c, items, (k - 1) as nat, p), depth_sel(m, c, items@[k - 1], p + inc(c, items@[k - 1])))
    }
}
pub open spec fn depth<'doc>(m: FragMap<'doc>, c: MaxDepthRuleConfig, n: CountableNode, p: nat) -> nat {
    match n {
        CountableNode::FragmentSpread(f) => spread_depth(m, c, *f, p),
        CountableNode::Field(f) => if introspective(c, *f) { 0 } else { depth_items(m, c, f.selection_set.items, f.selection_set.items@.len(), p) },
        _ => depth_items(m, c, node_sel(n)->0.items, node_sel(n)->0.items@.len(), p),
    }
}
pub open spec fn wf<'doc>(m: FragMap<'doc>, c: MaxDepthRuleConfig) -> bool {
    forall|f: Seq<char>| #[trigger] frags(m).contains_key(f) ==> {
        let d = CountableNode::FragmentDefinition(&frags(m)[f]);
        w(m, c, f) == depth(m, c, d, 0) && below(m, d, rank(m, f))
    }
}
pub open spec fn inv<'doc>(m: FragMap<'doc>, c: MaxDepthRuleConfig, v: VisitedMap<'doc>, n: CountableNode) -> bool {
    forall|f: Seq<char>| #[trigger] seen(v).contains_key(f) ==> match seen(v)[f] {
        VisitedFragment::Counted(k) => frags(m).contains_key(f) && k == w(m, c, f),
        VisitedFragment::Visiting => frags(m).contains_key(f) ==> below(m, n, rank(m, f)),
    }
}
pub open spec fn small<'doc>(v: VisitedMap<'doc>, n: usize) -> bool {
    forall|f: Seq<char>| #[trigger] seen(v).contains_key(f) && seen(v)[f] is Counted ==> seen(v)[f]->Counted_0 <= n
}
pub open spec fn step<'doc>(m: FragMap<'doc>, c: MaxDepthRuleConfig, a: VisitedMap<'doc>, b: VisitedMap<'doc>) -> bool {
    forall|f: Seq<char>| #[trigger] seen(b).contains_key(f) ==> match seen(b)[f] {
        VisitedFragment::Counted(k) => frags(m).contains_key(f) && k == w(m, c, f),
        VisitedFragment::Visiting => frags(m).contains_key(f) ==> seen(a).contains_key(f) && seen(a)[f] is Visiting,
    }
}
pub open spec fn no_visiting<'doc>(m: FragMap<'doc>, c: MaxDepthRuleConfig, v: VisitedMap<'doc>) -> bool {
    forall|f: Seq<char>| #[trigger] seen(v).contains_key(f) ==> match seen(v)[f] {
        VisitedFragment::Counted(k) => frags(m).contains_key(f) && k == w(m, c, f),
        VisitedFragment::Visiting => !frags(m).contains_key(f),
    }
}
pub open spec fn op_exceeds<'doc>(m: FragMap<'doc>, c: MaxDepthRuleConfig, d: Definition) -> bool {
    d is Operation && depth(m, c, CountableNode::OperationDefinition(&d->Operation_0), 0) > c.n
}
pub open spec fn ops_exceed<'doc>(m: FragMap<'doc>, c: MaxDepthRuleConfig, d: Seq<Definition>) -> bool {
    exists|i: int| 0 <= i < d.len() && op_exceeds(m, c, #[trigger] d[i])
}
pub proof fn depth_items_mono<'doc>(m: FragMap<'doc>, c: MaxDepthRuleConfig, items: Vec<Selection>, j: nat, k: nat, p: nat)
    requires j <= k <= items@.len() ensures p <= depth_items(m, c, items, j, p) <= depth_items(m, c, items, k, p) decreases k
{
    if j < k { depth_items_mono(m, c, items, j, (k - 1) as nat, p); }
    else if j > 0 { depth_items_mono(m, c, items, (j - 1) as nat, (k - 1) as nat, p); }
}
pub proof fn child_ok<'doc>(m: FragMap<'doc>, c: MaxDepthRuleConfig, n: CountableNode, k: int, p: nat)
    requires node_sel(n) is Some, 0 <= k < node_sel(n)->0.items@.len(), n matches CountableNode::Field(f) ==> !introspective(c, *f),
    ensures
        ({
            let items = node_sel(n)->0.items;
            &&& depth_items(m, c, items, (k + 1) as nat, p) == max2(depth_items(m, c, items, k as nat, p), depth(m, c, node_of(items@[k]), p + inc(c, items@[k])))
            &&& depth_items(m, c, items, (k + 1) as nat, p) <= depth(m, c, n, p)
            &&& depth(m, c, n, p) == depth_items(m, c, items, items@.len(), p)
            &&& forall|b: nat| below(m, n, b) ==> #[trigger] below(m, node_of(items@[k]), b)
        })
{
    let items = node_sel(n)->0.items;
    assert(depth_sel(m, c, items@[k], p + inc(c, items@[k])) == depth(m, c, node_of(items@[k]), p + inc(c, items@[k])));
    depth_items_mono(m, c, items, (k + 1) as nat, items@.len(), p);
    assert forall|b: nat| below(m, n, b) implies #[trigger] below(m, node_of(items@[k]), b) by {
        below_at(m, items, items@.len(), b, k);
        assert(below_sel(m, items@[k], b));
    }
}
pub proof fn enter_fragment<'doc>(m: FragMap<'doc>, c: MaxDepthRuleConfig, v: VisitedMap<'doc>, n: CountableNode, d: FragmentDefinition)
    requires wf(m, c), n is FragmentSpread, frags(m).contains_key(n->FragmentSpread_0.fragment_name@), inv(m, c, v, n),
        d == frags(m)[n->FragmentSpread_0.fragment_name@],
    ensures
        forall|v2: VisitedMap<'doc>| seen(v2) == seen(v).insert(n->FragmentSpread_0.fragment_name@, VisitedFragment::Visiting)
            ==> #[trigger] inv(m, c, v2, CountableNode::FragmentDefinition(&d)),
{
    let f = n->FragmentSpread_0.fragment_name@;
    let dn = CountableNode::FragmentDefinition(&d);
    let items = d.selection_set.items;
    assert forall|v2: VisitedMap<'doc>| seen(v2) == seen(v).insert(f, VisitedFragment::Visiting) implies #[trigger] inv(m, c, v2, dn) by {
        assert forall|g: Seq<char>| #[trigger] seen(v2).contains_key(g) implies (match seen(v2)[g] {
            VisitedFragment::Counted(k) => frags(m).contains_key(g) && k == w(m, c, g),
            VisitedFragment::Visiting => frags(m).contains_key(g) ==> below(m, dn, rank(m, g)),
        }) by {
            if g != f { assert(seen(v).contains_key(g)); }
            if seen(v2)[g] is Visiting && frags(m).contains_key(g) {
                below_items_mono(m, items, items@.len(), rank(m, f), rank(m, g));
            }
        }
    }
}
pub proof fn exceed_step<'doc>(m: FragMap<'doc>, c: MaxDepthRuleConfig, d: Seq<Definition>, k: int)
    requires 0 <= k < d.len()
    ensures ops_exceed(m, c, d.take(k + 1)) <==> (ops_exceed(m, c, d.take(k)) || op_exceeds(m, c, d[k]))
{
    let a = d.take(k); let b = d.take(k + 1);
    if ops_exceed(m, c, a) {
        let i = choose|i: int| 0 <= i < a.len() && op_exceeds(m, c, #[trigger] a[i]);
        assert(b[i] == a[i]);
    }
    if op_exceeds(m, c, d[k]) { assert(b[k] == d[k]); }
    if ops_exceed(m, c, b) {
        let i = choose|i: int| 0 <= i < b.len() && op_exceeds(m, c, #[trigger] b[i]);
        if i < k { assert(a[i] == b[i]); }
    }
}
// trusted: std::cmp::max on usize
pub fn cmp_max(a: usize, b: usize) -> (r: usize) ensures r == max2(a as nat, b as nat) { if a >= b { a } else { b } }

//@ file bin/router/src/pipeline/validation/max_depth_rule.rs
//@ rewrite type HashMap<&'docstr,VisitedFragment> => VisitedMap<'doc>
//@ rewrite type HashMap<&'docstr,&'docFragmentDefinition> => FragMap<'doc>
//@ rewrite type ValidationErrorContext => ErrorSink
//@ rewrite type OperationVisitorContext<'doc> => DocContext<'doc>
//@ rewrite expr HashMap::with_capacity(__n) => VisitedMap::empty()
//@ rewrite expr "Query depth limit exceeded.".to_string() => owned("Query depth limit exceeded.")
//@ rewrite expr child.into() => CountableNode::of_selection(child)
//@ rewrite expr fragment.into() => CountableNode::of_fragment(fragment)
//@ rewrite expr op.into() => CountableNode::of_operation(op)
//@ rewrite expr cmp::max(__a, __b) => cmp_max(__a, __b)
//@ rewrite expr field_name == "__schema" => str_eq(field_name, "__schema")
//@ rewrite expr field_name == "__type" => str_eq(field_name, "__type")
//@ rewrite macro vec => no_locations()
//@ extract struct MaxDepthVisitor
//@ end
//@ extract method MaxDepthVisitor::check_limit
//@ sec spec
    ensures r is Ok <==> count <= self.config.n, r is Ok ==> r->Ok_0 == count,
        r is Err ==> (r->Err_0).error_code@ == "MAX_DEPTH_EXCEEDED"@
//@ end
//@ extract method MaxDepthVisitor::count_depth
//@ opt attr #[verifier::exec_allows_no_decreases_clause] #[verifier::loop_isolation(false)]
//@ sec start
    let ghost node0 = node;
    let ghost c = self.config;
    let ghost p = match parent_depth { Some(x) => x as nat, None => 0nat };
    proof { if !(node is FragmentSpread) { let items = node_sel(node)->0.items; depth_items_mono(*known_fragments, c, items, 0, items@.len(), p); } }
//@ sec spec
    requires
        wf(*known_fragments, old(self).config), old(self).config.n < usize::MAX / 2, small(old(self).visited_fragments, old(self).config.n),
        parent_depth is Some ==> parent_depth->0 <= old(self).config.n + 1,
    ensures
        final(self).config == old(self).config,
        small(final(self).visited_fragments, final(self).config.n),
        r is Ok ==> r->Ok_0 <= final(self).config.n,
        r is Err ==> (r->Err_0).error_code@ == "MAX_DEPTH_EXCEEDED"@,
        inv(*known_fragments, old(self).config, old(self).visited_fragments, node) ==> {
            let d = depth(*known_fragments, old(self).config, node, match parent_depth { Some(x) => x as nat, None => 0nat });
            &&& r is Ok <==> d <= final(self).config.n
            &&& r is Ok ==> r->Ok_0 == d
            &&& r is Ok ==> step(*known_fragments, old(self).config, old(self).visited_fragments, final(self).visited_fragments)
        },
//@ sec before-loop 0
        proof { depth_items_mono(*known_fragments, c, selection_set.items, 0, selection_set.items@.len(), p); }
//@ sec loop 0 iter it
        invariant
            wf(*known_fragments, c), self.config == c, c == old(self).config, c.n < usize::MAX / 2, node == node0,
            node matches CountableNode::Field(f) ==> !introspective(c, *f),
            parent_depth == p, p <= c.n,
            small(self.visited_fragments, c.n), depth <= c.n,
            node_sel(node) is Some, *selection_set == node_sel(node)->0,
            it.seq().len() == selection_set.items@.len(),
            forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == selection_set.items@[i],
            inv(*known_fragments, c, old(self).visited_fragments, node) ==> {
                &&& depth == depth_items(*known_fragments, c, selection_set.items, it.index@ as nat, p)
                &&& step(*known_fragments, c, old(self).visited_fragments, self.visited_fragments)
            },
//@ sec loopstart 0
        proof {
            assert(*child == selection_set.items@[it.index@]);
            child_ok(*known_fragments, c, node, it.index@, p);
        }
//@ sec before call max 0
                proof {
                    assert(increase_by == inc(c, *child));
                    if inv(*known_fragments, c, old(self).visited_fragments, node) {
                        assert(inv(*known_fragments, c, self.visited_fragments, node_of(*child)));
                    }
                }
//@ sec before call count_depth 1
            proof {
                if inv(*known_fragments, c, old(self).visited_fragments, node0) {
                    enter_fragment(*known_fragments, c, old(self).visited_fragments, node0, **fragment);
                }
            }
//@ end
//@ extract method OperationVisitor<'doc,ValidationErrorContext> for MaxDepthVisitor::enter_document
//@ sec spec
    requires wf(old(context).known_fragments, old(self).config), old(self).config.n < usize::MAX / 2,
    ensures
        final(self).config == old(self).config,
        final(user_context).errors@.len() >= old(user_context).errors@.len(),
        // the document is refused exactly when one of its operations is deeper than the limit
        final(user_context).errors@.len() > old(user_context).errors@.len()
            <==> ops_exceed(old(context).known_fragments, old(self).config, document.definitions@),
        forall|i: int| old(user_context).errors@.len() <= i < final(user_context).errors@.len()
            ==> (#[trigger] final(user_context).errors@[i]).error_code@ == "MAX_DEPTH_EXCEEDED"@,
//@ sec loop 0 iter it
        invariant
            wf(context.known_fragments, self.config), context.known_fragments == old(context).known_fragments,
            self.config == old(self).config, self.config.n < usize::MAX / 2,
            small(self.visited_fragments, self.config.n),
            it.seq().len() == document.definitions@.len(),
            forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == document.definitions@[i],
            user_context.errors@.len() >= old(user_context).errors@.len(),
            user_context.errors@.len() == old(user_context).errors@.len() ==> no_visiting(context.known_fragments, self.config, self.visited_fragments),
            user_context.errors@.len() > old(user_context).errors@.len()
                <==> ops_exceed(context.known_fragments, self.config, document.definitions@.take(it.index@)),
            forall|i: int| old(user_context).errors@.len() <= i < user_context.errors@.len()
                ==> (#[trigger] user_context.errors@[i]).error_code@ == "MAX_DEPTH_EXCEEDED"@,
//@ sec loopstart 0
        proof {
            assert(*definition == document.definitions@[it.index@]);
            exceed_step(context.known_fragments, self.config, document.definitions@, it.index@);
        }
//@ sec after-loop 0
    proof { assert(document.definitions@.take(document.definitions@.len() as int) =~= document.definitions@); }
//@ end
} // verus!
fn main() {}
