// CountableNode of the validation rules, and the operation AST it ranges over.
//@ include query_ast.rs
pub open spec fn op_sel(o: OperationDefinition) -> SelectionSet {
    match o {
        OperationDefinition::Query(q) => q.selection_set,
        OperationDefinition::SelectionSet(s) => s,
        OperationDefinition::Mutation(m) => m.selection_set,
        OperationDefinition::Subscription(s) => s.selection_set,
    }
}
pub open spec fn op_dirs(o: OperationDefinition) -> Seq<Directive> {
    match o {
        OperationDefinition::Query(q) => q.directives@,
        OperationDefinition::SelectionSet(s) => seq![],
        OperationDefinition::Mutation(m) => m.directives@,
        OperationDefinition::Subscription(s) => s.directives@,
    }
}
pub open spec fn node_of(s: Selection) -> CountableNode<'static> {
    match s {
        Selection::Field(f) => CountableNode::Field(&f),
        Selection::FragmentSpread(f) => CountableNode::FragmentSpread(&f),
        Selection::InlineFragment(f) => CountableNode::InlineFragment(&f),
    }
}
pub open spec fn node_sel(n: CountableNode) -> Option<SelectionSet> {
    match n {
        CountableNode::Field(f) => Some(f.selection_set),
        CountableNode::InlineFragment(f) => Some(f.selection_set),
        CountableNode::OperationDefinition(o) => Some(op_sel(*o)),
        CountableNode::FragmentDefinition(f) => Some(f.selection_set),
        CountableNode::FragmentSpread(_) => None,
    }
}
pub open spec fn node_dirs(n: CountableNode) -> Seq<Directive> {
    match n {
        CountableNode::Field(f) => f.directives@,
        CountableNode::InlineFragment(f) => f.directives@,
        CountableNode::OperationDefinition(o) => op_dirs(*o),
        CountableNode::FragmentDefinition(f) => f.directives@,
        CountableNode::FragmentSpread(f) => f.directives@,
    }
}
//@ file lib/graphql-tools/src/ast/ext.rs
//@ extract method OperationDefinition::selection_set
//@ opt ret r
//@ sec spec
    ensures *r == op_sel(*self)
//@ end
//@ extract method OperationDefinition::directives
//@ opt ret r
//@ sec spec
    ensures r@ == op_dirs(*self)
//@ end
//@ file bin/router/src/pipeline/validation/shared.rs
//@ rewrite expr Some(&field.directives) => Some(field.directives.as_slice())
//@ rewrite expr Some(&fragment_def.directives) => Some(fragment_def.directives.as_slice())
//@ rewrite expr Some(&inline_fragment.directives) => Some(inline_fragment.directives.as_slice())
//@ rewrite expr Some(&fragment_spread.directives) => Some(fragment_spread.directives.as_slice())
//@ extract enum CountableNode
//@ end
//@ extract enum VisitedFragment
//@ end
//@ extract method CountableNode::selection_set
//@ opt ret r
//@ sec spec
    ensures r is Some <==> node_sel(*self) is Some, r is Some ==> *(r->0) == node_sel(*self)->0
//@ end
//@ extract method CountableNode::get_directives
//@ opt ret r
//@ sec spec
    ensures r is Some, (r->0)@ == node_dirs(*self)
//@ end
//@ extract method From<&'a Selection> for CountableNode::from
//@ opt ret r
//@ opt as of_selection
//@ sec spec
    ensures r == node_of(*selection)
//@ end
//@ extract method From<&&'a FragmentDefinition> for CountableNode::from
//@ opt ret r
//@ opt as of_fragment
//@ sec spec
    ensures r == CountableNode::FragmentDefinition(*fragment_definition)
//@ end
//@ extract method From<&'a OperationDefinition> for CountableNode::from
//@ opt ret r
//@ opt as of_operation
//@ sec spec
    ensures r == CountableNode::OperationDefinition(operation_definition)
//@ end
