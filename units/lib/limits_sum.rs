// ---- what is counted, with every fragment spread standing for the whole fragment ----------------
// Own weight of a node: 1 for an aliased field, or the number of directives; see `own` of the unit.
// `w(m, name)` is the full count of a fragment: the solution of the equations `wf` states, which for
// fragments without cycles is unique (induction over `rank`).
pub uninterp spec fn w<'doc>(m: FragMap<'doc>, name: Seq<char>) -> nat;
pub open spec fn total_sel<'doc>(m: FragMap<'doc>, s: Selection) -> nat decreases s, 0nat {
    own(node_of(s)) + match s {
        Selection::Field(f) => total_items(m, f.selection_set.items, f.selection_set.items@.len()),
        Selection::InlineFragment(f) => total_items(m, f.selection_set.items, f.selection_set.items@.len()),
        Selection::FragmentSpread(f) => if frags(m).contains_key(f.fragment_name@) { w(m, f.fragment_name@) } else { 0 },
    }
}
pub open spec fn total_items<'doc>(m: FragMap<'doc>, items: Vec<Selection>, k: nat) -> nat decreases items, k {
    if k == 0 || k > items@.len() { 0 } else { total_items(m, items, (k - 1) as nat) + total_sel(m, items@[k - 1]) }
}
pub open spec fn total<'doc>(m: FragMap<'doc>, n: CountableNode) -> nat {
    own(n) + match n {
        CountableNode::FragmentSpread(f) => if frags(m).contains_key(f.fragment_name@) { w(m, f.fragment_name@) } else { 0 },
        _ => total_items(m, node_sel(n)->0.items, node_sel(n)->0.items@.len()),
    }
}
pub open spec fn wf<'doc>(m: FragMap<'doc>) -> bool {
    forall|f: Seq<char>| #[trigger] frags(m).contains_key(f) ==> {
        let d = CountableNode::FragmentDefinition(&frags(m)[f]);
        w(m, f) == total(m, d) && below(m, d, rank(m, f))
    }
}
// the counts are determined by the document: two solutions of the equations agree
pub proof fn total_items_mono<'doc>(m: FragMap<'doc>, items: Vec<Selection>, j: nat, k: nat)
    requires j <= k <= items@.len() ensures total_items(m, items, j) <= total_items(m, items, k) decreases k
{
    if j < k { total_items_mono(m, items, j, (k - 1) as nat); }
}
// visited fragments: counted ones carry their full count, and no fragment that is being counted can
// be spread below the node at hand
pub open spec fn inv<'doc>(m: FragMap<'doc>, v: VisitedMap<'doc>, n: CountableNode) -> bool {
    forall|f: Seq<char>| #[trigger] seen(v).contains_key(f) ==> match seen(v)[f] {
        VisitedFragment::Counted(c) => frags(m).contains_key(f) && c == w(m, f),
        VisitedFragment::Visiting => frags(m).contains_key(f) ==> below(m, n, rank(m, f)),
    }
}
pub open spec fn small<'doc>(v: VisitedMap<'doc>, n: usize) -> bool {
    forall|f: Seq<char>| #[trigger] seen(v).contains_key(f) && seen(v)[f] is Counted ==> seen(v)[f]->Counted_0 <= n
}
// what counting a node does to the visited fragments
pub open spec fn step<'doc>(m: FragMap<'doc>, a: VisitedMap<'doc>, b: VisitedMap<'doc>) -> bool {
    forall|f: Seq<char>| #[trigger] seen(b).contains_key(f) ==> match seen(b)[f] {
        VisitedFragment::Counted(c) => frags(m).contains_key(f) && c == w(m, f),
        VisitedFragment::Visiting => frags(m).contains_key(f) ==> seen(a).contains_key(f) && seen(a)[f] is Visiting,
    }
}
pub open spec fn ops_exceed<'doc>(m: FragMap<'doc>, d: Seq<Definition>, n: usize) -> bool {
    exists|i: int| 0 <= i < d.len() && #[trigger] d[i] is Operation && total(m, CountableNode::OperationDefinition(&d[i]->Operation_0)) > n
}
pub proof fn child_ok<'doc>(m: FragMap<'doc>, n: CountableNode, k: int)
    requires node_sel(n) is Some, 0 <= k < node_sel(n)->0.items@.len()
    ensures
        ({
            let items = node_sel(n)->0.items;
            &&& total_items(m, items, (k + 1) as nat) == total_items(m, items, k as nat) + total(m, node_of(items@[k]))
            &&& own(n) + total_items(m, items, (k + 1) as nat) <= total(m, n)
            &&& total(m, n) == own(n) + total_items(m, items, items@.len())
            &&& forall|b: nat| below(m, n, b) ==> #[trigger] below(m, node_of(items@[k]), b)
        })
{
    let items = node_sel(n)->0.items;
    assert(total_sel(m, items@[k]) == total(m, node_of(items@[k])));
    total_items_mono(m, items, (k + 1) as nat, items@.len());
    assert forall|b: nat| below(m, n, b) implies #[trigger] below(m, node_of(items@[k]), b) by {
        below_at(m, items, items@.len(), b, k);
        assert(below_sel(m, items@[k], b));
    }
}
pub proof fn enter_fragment<'doc>(m: FragMap<'doc>, v: VisitedMap<'doc>, n: CountableNode, d: FragmentDefinition)
    requires wf(m), n is FragmentSpread, frags(m).contains_key(n->FragmentSpread_0.fragment_name@), inv(m, v, n),
        d == frags(m)[n->FragmentSpread_0.fragment_name@],
    ensures
        forall|v2: VisitedMap<'doc>| seen(v2) == seen(v).insert(n->FragmentSpread_0.fragment_name@, VisitedFragment::Visiting)
            ==> #[trigger] inv(m, v2, CountableNode::FragmentDefinition(&d)),
{
    let f = n->FragmentSpread_0.fragment_name@;
    let dn = CountableNode::FragmentDefinition(&d);
    let items = d.selection_set.items;
    assert forall|v2: VisitedMap<'doc>| seen(v2) == seen(v).insert(f, VisitedFragment::Visiting) implies #[trigger] inv(m, v2, dn) by {
        assert forall|g: Seq<char>| #[trigger] seen(v2).contains_key(g) implies (match seen(v2)[g] {
            VisitedFragment::Counted(c) => frags(m).contains_key(g) && c == w(m, g),
            VisitedFragment::Visiting => frags(m).contains_key(g) ==> below(m, dn, rank(m, g)),
        }) by {
            if g != f { assert(seen(v).contains_key(g)); }
            if seen(v2)[g] is Visiting && frags(m).contains_key(g) {
                below_items_mono(m, items, items@.len(), rank(m, f), rank(m, g));
            }
        }
    }
}
// between operations nothing is being counted (a name that is no fragment may stay marked)
pub open spec fn no_visiting<'doc>(m: FragMap<'doc>, v: VisitedMap<'doc>) -> bool {
    forall|f: Seq<char>| #[trigger] seen(v).contains_key(f) ==> match seen(v)[f] {
        VisitedFragment::Counted(c) => frags(m).contains_key(f) && c == w(m, f),
        VisitedFragment::Visiting => !frags(m).contains_key(f),
    }
}
pub proof fn exceed_step<'doc>(m: FragMap<'doc>, d: Seq<Definition>, k: int, n: usize)
    requires 0 <= k < d.len()
    ensures ops_exceed(m, d.take(k + 1), n) <==> (ops_exceed(m, d.take(k), n)
        || (d[k] is Operation && total(m, CountableNode::OperationDefinition(&d[k]->Operation_0)) > n))
{
    let a = d.take(k); let b = d.take(k + 1);
    if ops_exceed(m, a, n) {
        let i = choose|i: int| 0 <= i < a.len() && #[trigger] a[i] is Operation && total(m, CountableNode::OperationDefinition(&a[i]->Operation_0)) > n;
        assert(b[i] == a[i]);
    }
    if d[k] is Operation && total(m, CountableNode::OperationDefinition(&d[k]->Operation_0)) > n { assert(b[k] == d[k]); }
    if ops_exceed(m, b, n) {
        let i = choose|i: int| 0 <= i < b.len() && #[trigger] b[i] is Operation && total(m, CountableNode::OperationDefinition(&b[i]->Operation_0)) > n;
        if i < k { assert(a[i] == b[i]); }
    }
}
