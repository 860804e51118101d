// The operation AST of lib/graphql-tools (`static_graphql::query`: the generic types at String).
//@ file lib/graphql-tools/src/parser/common.rs
//@ extract struct Directive
//@ opt generics
//@ opt keepfields
//@ end
//@ file lib/graphql-tools/src/parser/query/ast.rs
//@ rewrite type T::Value => String
//@ rewrite type SelectionSet<'a,T> => SelectionSet
//@ rewrite type Selection<'a,T> => Selection
//@ rewrite type Directive<'a,T> => Directive
//@ rewrite type Field<'a,T> => Field
//@ rewrite type FragmentSpread<'a,T> => FragmentSpread
//@ rewrite type InlineFragment<'a,T> => InlineFragment
//@ rewrite type Query<'a,T> => Query
//@ rewrite type Mutation<'a,T> => Mutation
//@ rewrite type Subscription<'a,T> => Subscription
//@ rewrite type OperationDefinition<'a,T> => OperationDefinition
//@ rewrite type FragmentDefinition<'a,T> => FragmentDefinition
//@ rewrite type Definition<'a,T> => Definition
//@ extract struct SelectionSet
//@ opt generics
//@ opt keepfields items
//@ end
//@ extract enum Selection
//@ opt generics
//@ end
//@ extract struct Field
//@ opt generics
//@ opt keepfields alias name directives selection_set
//@ end
//@ extract struct FragmentSpread
//@ opt generics
//@ opt keepfields fragment_name directives
//@ end
//@ extract struct InlineFragment
//@ opt generics
//@ opt keepfields directives selection_set
//@ end
//@ extract struct FragmentDefinition
//@ opt generics
//@ opt keepfields name directives selection_set
//@ end
//@ extract struct Query
//@ opt generics
//@ opt keepfields directives selection_set
//@ end
//@ extract struct Mutation
//@ opt generics
//@ opt keepfields directives selection_set
//@ end
//@ extract struct Subscription
//@ opt generics
//@ opt keepfields directives selection_set
//@ end
//@ extract enum OperationDefinition
//@ opt generics
//@ end
//@ extract enum Definition
//@ opt generics
//@ end
//@ extract struct Document
//@ opt generics
//@ end
