//@-- C02: the directive limit
//@ include ../lib/prelude.rs
verus! {
//@ include ../lib/countable.rs
//@ include ../lib/limits.rs
pub open spec fn own(n: CountableNode) -> nat { node_dirs(n).len() }
//@ include ../lib/limits_sum.rs
//@ file bin/router/src/config/limits.rs
//@ extract struct MaxDirectivesRuleConfig
//@ end
//@ file bin/router/src/pipeline/validation/max_directives_rule.rs
//@ rewrite type HashMap<&'docstr,VisitedFragment> => VisitedMap<'doc>
//@ rewrite type HashMap<&'docstr,&'docFragmentDefinition> => FragMap<'doc>
//@ rewrite type ValidationErrorContext => ErrorSink
//@ rewrite type OperationVisitorContext<'doc> => DocContext<'doc>
//@ rewrite expr HashMap::with_capacity(__n) => VisitedMap::empty()
//@ rewrite expr "Directives limit exceeded.".to_string() => owned("Directives limit exceeded.")
//@ rewrite expr selection.into() => CountableNode::of_selection(selection)
//@ rewrite expr op.into() => CountableNode::of_operation(op)
//@ rewrite expr fragment_def.into() => CountableNode::of_fragment(fragment_def)
//@ rewrite macro vec => no_locations()
//@ extract struct MaxDirectivesVisitor
//@ end
//@ extract method MaxDirectivesVisitor::check_limit
//@ sec spec
    ensures r is Ok <==> count <= self.config.n, r is Ok ==> r->Ok_0 == count,
        r is Err ==> (r->Err_0).error_code@ == "MAX_DIRECTIVES_EXCEEDED"@
//@ end
//@ extract method MaxDirectivesVisitor::count_directives
//@ opt attr #[verifier::exec_allows_no_decreases_clause]
//@ sec spec
    requires
        wf(*known_fragments), old(self).config.n <= usize::MAX / 2, small(old(self).visited_fragments, old(self).config.n),
    ensures
        final(self).config == old(self).config,
        small(final(self).visited_fragments, final(self).config.n),
        r is Ok ==> r->Ok_0 <= final(self).config.n,
        r is Err ==> (r->Err_0).error_code@ == "MAX_DIRECTIVES_EXCEEDED"@,
        inv(*known_fragments, old(self).visited_fragments, countable_node) ==> {
            &&& r is Ok <==> total(*known_fragments, countable_node) <= final(self).config.n
            &&& r is Ok ==> r->Ok_0 == total(*known_fragments, countable_node)
            &&& r is Ok ==> step(*known_fragments, old(self).visited_fragments, final(self).visited_fragments)
        },
//@ sec loop 0 iter it
        invariant
            wf(*known_fragments), self.config == old(self).config, self.config.n <= usize::MAX / 2,
            small(self.visited_fragments, self.config.n), directive_count <= self.config.n,
            node_sel(countable_node) is Some, *selection_set == node_sel(countable_node)->0,
            it.seq().len() == selection_set.items@.len(),
            forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == selection_set.items@[i],
            inv(*known_fragments, old(self).visited_fragments, countable_node) ==> {
                &&& directive_count == own(countable_node) + total_items(*known_fragments, selection_set.items, it.index@ as nat)
                &&& step(*known_fragments, old(self).visited_fragments, self.visited_fragments)
            },
//@ sec loopstart 0
        proof {
            assert(*selection == selection_set.items@[it.index@]);
            child_ok(*known_fragments, countable_node, it.index@);
        }
//@ sec before call count_directives 1
            proof {
                
                if inv(*known_fragments, old(self).visited_fragments, countable_node0) {
                    enter_fragment(*known_fragments, old(self).visited_fragments, countable_node0, **fragment_def);
                }
            }
//@ sec start
    let ghost countable_node0 = countable_node;
//@ end
//@ extract method OperationVisitor<'doc,ValidationErrorContext> for MaxDirectivesVisitor::enter_document
//@ sec spec
    requires wf(old(context).known_fragments), old(self).config.n <= usize::MAX / 2,
    ensures
        final(self).config == old(self).config,
        final(user_context).errors@.len() >= old(user_context).errors@.len(),
        // the document is refused exactly when one of its operations counts more than the limit
        final(user_context).errors@.len() > old(user_context).errors@.len()
            <==> ops_exceed(old(context).known_fragments, document.definitions@, old(self).config.n),
        forall|i: int| old(user_context).errors@.len() <= i < final(user_context).errors@.len()
            ==> (#[trigger] final(user_context).errors@[i]).error_code@ == "MAX_DIRECTIVES_EXCEEDED"@,
//@ sec loop 0 iter it
        invariant
            wf(context.known_fragments), context.known_fragments == old(context).known_fragments,
            self.config == old(self).config, self.config.n <= usize::MAX / 2,
            small(self.visited_fragments, self.config.n),
            it.seq().len() == document.definitions@.len(),
            forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == document.definitions@[i],
            user_context.errors@.len() >= old(user_context).errors@.len(),
            user_context.errors@.len() == old(user_context).errors@.len() ==> no_visiting(context.known_fragments, self.visited_fragments),
            user_context.errors@.len() > old(user_context).errors@.len()
                <==> ops_exceed(context.known_fragments, document.definitions@.take(it.index@), self.config.n),
            forall|i: int| old(user_context).errors@.len() <= i < user_context.errors@.len()
                ==> (#[trigger] user_context.errors@[i]).error_code@ == "MAX_DIRECTIVES_EXCEEDED"@,
//@ sec loopstart 0
        proof {
            assert(*definition == document.definitions@[it.index@]);
            exceed_step(context.known_fragments, document.definitions@, it.index@, self.config.n);
        }
//@ sec after-loop 0
    proof { assert(document.definitions@.take(document.definitions@.len() as int) =~= document.definitions@); }
//@ end
} // verus!
fn main() {}
