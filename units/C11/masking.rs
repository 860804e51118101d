//@-- C11: masking of the errors of subgraphs
//@ include ../lib/prelude.rs
verus! {
//@ dropmacro warn debug trace info error
//@ norules
pub type T = Seq<char>;
// ---- trusted: maps, sets and copies of texts
#[verifier::external_body] pub struct Extra { m: u8 }
impl View for Extra { type V = Map<T, int>; uninterp spec fn view(&self) -> Map<T, int>; }
impl Extra {
    #[verifier::external_body] pub fn remove(&mut self, k: &str) ensures final(self)@ == old(self)@.remove(k@) { unimplemented!() }
    #[verifier::external_body] pub fn keep_only(&mut self, s: &HashSet) ensures final(self)@ == old(self)@.restrict(s@) { unimplemented!() }
    #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
#[verifier::external_body] pub struct HashSet { m: u8 }
impl View for HashSet { type V = Set<T>; uninterp spec fn view(&self) -> Set<T>; }
impl HashSet {
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Set::<T>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: &str) ensures final(self)@ == old(self)@.insert(k@) { unimplemented!() }
}
#[verifier::external_body] #[verifier::accept_recursive_types(V)] pub struct HashMap<V> { m: Vec<V> }
impl<V> HashMap<V> {
    pub uninterp spec fn at(&self, k: T) -> Option<V>;
    #[verifier::external_body] pub fn get(&self, k: &String) -> (r: Option<&V>) ensures r is Some == self.at(k@) is Some, r matches Some(v) ==> *v == self.at(k@)->0 { unimplemented!() }
}
#[verifier::external_body] pub fn map_values<A, B, F: Fn(&A) -> B>(m: &Option<HashMap<A>>, f: F) -> (r: HashMap<B>)
    requires m matches Some(s) ==> forall|k: T| (#[trigger] s.at(k)) matches Some(v) ==> call_requires(f, (&v,)),
    ensures forall|k: T| (#[trigger] r.at(k)) is Some == (m matches Some(s) && s.at(k) is Some),
        m matches Some(s) ==> forall|k: T| (#[trigger] s.at(k)) matches Some(v) ==> call_ensures(f, (&v,), r.at(k)->0)
{ unimplemented!() }
pub open spec fn texts(v: Seq<String>) -> Seq<T> { Seq::new(v.len(), |i: int| v[i]@) }
pub open spec fn same(a: Option<String>, b: Option<String>) -> bool { a is Some == b is Some && (a is Some ==> a->0@ == b->0@) }
#[verifier::external_body] pub fn list(v: &Vec<String>) -> (r: Vec<String>) ensures texts(r@) == texts(v@) { unimplemented!() }
#[verifier::external_body] pub fn owned(s: &String) -> (r: String) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body] pub fn owned_str(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
// ---- verified shims
pub fn fill(o: &mut Option<String>, s: String) ensures *final(o) == if *old(o) is Some { *old(o) } else { Some(s) } { if o.is_none() { *o = Some(s); } }
pub fn plan_of<'a>(o: Option<&'a Option<RedactExtensionsPlan>>) -> (r: Option<&'a RedactExtensionsPlan>)
    ensures r is Some == (o matches Some(p) && *p is Some), r matches Some(x) ==> *x == (*(o->0))->0 { match o { Some(Some(p)) => Some(p), _ => None } }
pub fn either<'a>(a: Option<&'a RedactExtensionsPlan>, b: Option<&'a RedactExtensionsPlan>) -> (r: Option<&'a RedactExtensionsPlan>) ensures r == if a is Some { a } else { b } { match a { Some(x) => Some(x), None => b } }
pub fn plan_from(o: &Option<ExtensionsMaskingConfig>) -> (r: Option<RedactExtensionsPlan>) ensures r is Some == *o is Some, r matches Some(p) ==> means(p, (*o)->0) { match o { Some(c) => Some(RedactExtensionsPlan::from(c)), None => None } }
// ---- the code's own types
pub struct GraphQLErrorLocation { pub line: usize, pub column: usize }
//@ file bin/router/src/executor/response/graphql_error.rs
//@ rewrite type BTreeMap<String,Value> => Extra
//@ extract enum GraphQLErrorPathSegment
//@ end
//@ extract struct GraphQLErrorPath
//@ end
//@ extract struct EntityIndexAndPath
//@ end
//@ extract struct GraphQLErrorExtensions
//@ end
//@ extract struct GraphQLError
//@ end
//@ file bin/router/src/config/error_masking.rs
//@ rewrite type HashMap<String,SubgraphErrorMaskingConfig> => HashMap<SubgraphErrorMaskingConfig>
//@ extract enum ExtensionsMaskingConfig
//@ end
//@ extract struct SubgraphErrorMaskingConfig
//@ end
//@ extract struct AllErrorMaskingConfig
//@ end
//@ extract struct ErrorMaskingConfig
//@ end
//@ file bin/router/src/executor/execution/error_masking.rs
//@ rewrite type HashMap<String,bool> => HashMap<bool>
//@ rewrite type HashMap<String,Option<RedactExtensionsPlan>> => HashMap<Option<RedactExtensionsPlan>>
//@ extract enum RedactExtensionsPlan
//@ end
//@ extract struct ErrorMaskingRuntime
//@ end
// ---- what masking means
pub open spec fn keeps(p: RedactExtensionsPlan, k: T) -> bool { match p { RedactExtensionsPlan::Allow(l) => texts(l@).contains(k), RedactExtensionsPlan::Deny(l) => !texts(l@).contains(k) } }
pub open spec fn only(o: Option<String>, b: bool) -> Option<String> { if b { o } else { None } }
// the extensions of `a` whose key is in `k`
pub open spec fn chosen(k: spec_fn(T) -> bool, a: GraphQLErrorExtensions, b: GraphQLErrorExtensions) -> bool {
    &&& b.code == only(a.code, k("code"@))
    &&& b.service_name == only(a.service_name, k("service"@))
    &&& b.affected_path == only(a.affected_path, k("affectedPath"@))
    &&& forall|x: T| #[trigger] b.extensions@.dom().contains(x) <==> a.extensions@.dom().contains(x) && k(x)
    &&& forall|x: T| #[trigger] b.extensions@.dom().contains(x) ==> b.extensions@[x] == a.extensions@[x]
}
pub open spec fn without(l: Seq<T>, a: GraphQLErrorExtensions, b: GraphQLErrorExtensions) -> bool { chosen(|k: T| !l.contains(k), a, b) }
pub open spec fn filtered_by(l: Seq<T>, a: GraphQLErrorExtensions, b: GraphQLErrorExtensions) -> bool { chosen(|k: T| l.contains(k), a, b) }
pub open spec fn filtered(p: RedactExtensionsPlan, a: GraphQLErrorExtensions, b: GraphQLErrorExtensions) -> bool { chosen(|k: T| keeps(p, k), a, b) }
pub open spec fn own(k: T) -> bool { k == "code"@ || k == "service"@ || k == "affectedPath"@ }
// the three named extensions are never among the others (the deserializer puts them into fields)
pub open spec fn plain(a: GraphQLErrorExtensions) -> bool { forall|k: T| #[trigger] a.extensions@.dom().contains(k) ==> !own(k) }
pub open spec fn means(p: RedactExtensionsPlan, c: ExtensionsMaskingConfig) -> bool {
    match c { ExtensionsMaskingConfig::AllowList { keys } => p is Allow && texts(p->Allow_0@) == texts(keys@), ExtensionsMaskingConfig::DenyList { keys } => p is Deny && texts(p->Deny_0@) == texts(keys@) }
}
pub open spec fn seen(l: Seq<T>, n: int, k: T) -> bool { exists|i: int| 0 <= i < n && l[i] == k }
proof fn one_more(l: Seq<T>, n: int) requires 0 <= n < l.len() ensures forall|k: T| #[trigger] seen(l, n + 1, k) == (seen(l, n, k) || k == l[n])
{ assert forall|k: T| #[trigger] seen(l, n + 1, k) == (seen(l, n, k) || k == l[n]) by { if k == l[n] { assert(l[n] == k); } } }
proof fn names_differ() ensures "code"@ != "service"@, "code"@ != "affectedPath"@, "service"@ != "affectedPath"@
{ reveal_strlit("code"); reveal_strlit("service"); reveal_strlit("affectedPath"); assert("code"@.len() == 4); assert("service"@.len() == 7); assert("affectedPath"@.len() == 12); }
pub open spec fn hides(rt: ErrorMaskingRuntime, s: T) -> bool { match rt.per_subgraph_error_masking.at(s) { Some(b) => b, None => rt.default_error_masking } }
pub open spec fn plan_for(rt: ErrorMaskingRuntime, s: T) -> Option<RedactExtensionsPlan> { match rt.per_subgraph_extensions_masking.at(s) { Some(Some(p)) => Some(p), _ => rt.default_extensions_masking } }
pub open spec fn masked_by(rt: ErrorMaskingRuntime, a: GraphQLError, b: GraphQLError) -> bool {
    match a.extensions.service_name {
        None => b == a,
        Some(s) => {
            &&& b.message@ == if hides(rt, s@) { rt.redacted_error_message@ } else { a.message@ }
            &&& b.locations == a.locations && b.path == a.path
            &&& match plan_for(rt, s@) { Some(p) => filtered(p, a.extensions, b.extensions), None => b.extensions == a.extensions }
        }
    }
}
// ---- the same, said of the configuration: this is the property
pub open spec fn of_subgraph(c: ErrorMaskingConfig, s: T) -> Option<SubgraphErrorMaskingConfig> { match c.subgraphs { Some(m) => m.at(s), None => None } }
pub open spec fn to_hide(c: ErrorMaskingConfig, s: T) -> bool { match of_subgraph(c, s) { Some(x) => match x.enabled { Some(b) => b, None => c.all.enabled }, None => c.all.enabled } }
pub open spec fn list_for(c: ErrorMaskingConfig, s: T) -> Option<ExtensionsMaskingConfig> { match of_subgraph(c, s) { Some(x) => if x.extensions is Some { x.extensions } else { c.all.extensions }, None => c.all.extensions } }
pub open spec fn stays(l: Option<ExtensionsMaskingConfig>, k: T) -> bool { match l { None => true, Some(ExtensionsMaskingConfig::AllowList { keys }) => texts(keys@).contains(k), Some(ExtensionsMaskingConfig::DenyList { keys }) => !texts(keys@).contains(k) } }
pub open spec fn masked(c: ErrorMaskingConfig, a: GraphQLError, b: GraphQLError) -> bool {
    match a.extensions.service_name {
        None => b == a,
        Some(s) => {
            &&& b.message@ == if to_hide(c, s@) { c.redacted_error_message@ } else { a.message@ }
            &&& b.locations == a.locations && b.path == a.path
            &&& chosen(|k: T| stays(list_for(c, s@), k), a.extensions, b.extensions)
        }
    }
}
pub open spec fn follows(rt: ErrorMaskingRuntime, c: ErrorMaskingConfig) -> bool {
    &&& rt.redacted_error_message@ == c.redacted_error_message@
    &&& forall|s: T| hides(rt, s) == to_hide(c, s)
    &&& forall|s: T| (#[trigger] plan_for(rt, s)) is Some == list_for(c, s) is Some
    &&& forall|s: T| (#[trigger] plan_for(rt, s)) matches Some(p) ==> means(p, list_for(c, s)->0)
}
proof fn configured_errors_are_masked(c: ErrorMaskingConfig, rt: ErrorMaskingRuntime, a: GraphQLError, b: GraphQLError)
    requires follows(rt, c), masked_by(rt, a, b) ensures masked(c, a, b)
{
    if let Some(s) = a.extensions.service_name {
        let p = plan_for(rt, s@); let l = list_for(c, s@);
        assert(hides(rt, s@) == to_hide(c, s@));
        if p is Some { assert(forall|k: T| keeps(p->0, k) == stays(l, k)); }
    }
}
proof fn step_without(l: Seq<T>, n: int, o: GraphQLErrorExtensions, m: GraphQLErrorExtensions, e: GraphQLErrorExtensions)
    requires 0 <= n < l.len(), without(l.take(n), o, m), without(seq![l[n]], m, e) ensures without(l.take(n + 1), o, e)
{
    assert forall|k: T| l.take(n + 1).contains(k) == (l.take(n).contains(k) || k == l[n]) by {
        assert(l.take(n + 1) =~= l.take(n).push(l[n]));
        if l.take(n).contains(k) { let i = l.take(n).index_of(k); assert(l.take(n + 1)[i] == k); }
        if k == l[n] { assert(l.take(n + 1)[n] == k); }
        if l.take(n + 1).contains(k) { let i = l.take(n + 1).index_of(k); if i < n { assert(l.take(n)[i] == k); } }
    }
    assert forall|k: T| seq![l[n]].contains(k) == (k == l[n]) by { assert(seq![l[n]][0] == l[n]); }
    assert forall|x: T| #[trigger] e.extensions@.dom().contains(x) <==> o.extensions@.dom().contains(x) && !l.take(n + 1).contains(x) by { assert(m.extensions@.dom().contains(x) <==> o.extensions@.dom().contains(x) && !l.take(n).contains(x)); assert(e.extensions@.dom().contains(x) <==> m.extensions@.dom().contains(x) && !seq![l[n]].contains(x)); }
    assert forall|x: T| #[trigger] e.extensions@.dom().contains(x) implies e.extensions@[x] == o.extensions@[x] by { assert(m.extensions@.dom().contains(x)); }
}
//@ rewrite expr keys.clone() => list(keys)
//@ extract method From<&ExtensionsMaskingConfig> for RedactExtensionsPlan::from
//@ opt ret r
//@ sec spec
    ensures means(r, *config)
//@ end
//@ rewrite type HashSet<&str> => HashSet
//@ rewrite expr __m.retain(|key, _| __s.contains(key.as_str())) => __m.keep_only(&__s)
//@ extract method RedactExtensionsPlan::apply
//@ sec spec
    requires plain(*old(extensions)),
    ensures filtered(*self, *old(extensions), *final(extensions)), plain(*final(extensions)),
//@ end
//@ extract method RedactExtensionsPlan::apply_deny_list
//@ sec spec
    requires plain(*old(extensions)),
    ensures without(texts(list@), *old(extensions), *final(extensions)), plain(*final(extensions)),
//@ sec start
    proof { assert(texts(list@).take(0) =~= seq![]); }
//@ sec loop 0 index n
    invariant n <= __it0@.len(), __it0@ == list@, plain(*extensions), without(texts(list@).take(n as int), *old(extensions), *extensions),
    decreases list@.len() - n
//@ sec loopstart 0
    let ghost before = *extensions;
//@ sec loopend 0
    proof { assert(texts(list@)[n - 1] == removal_path@); step_without(texts(list@), n - 1, *old(extensions), before, *extensions); }
//@ sec tail
    proof { assert(texts(list@).take(list@.len() as int) =~= texts(list@)); }
//@ end
//@ extract method RedactExtensionsPlan::remove_field
//@ sec spec
    requires plain(*old(extensions)),
    ensures without(seq![key@], *old(extensions), *final(extensions)), plain(*final(extensions)),
//@ sec start
    proof { names_differ(); assert forall|k: T| seq![key@].contains(k) == (k == key@) by { assert(seq![key@][0] == key@); } }
//@ end
//@ extract method RedactExtensionsPlan::apply_allow_list
//@ sec spec
    requires plain(*old(extensions)),
    ensures filtered_by(texts(list@), *old(extensions), *final(extensions)), plain(*final(extensions)),
//@ sec loop 0 index n
    invariant n <= __it0@.len(), __it0@ == list@, *extensions == *old(extensions),
        allow_code == seen(texts(list@), n as int, "code"@), allow_service_name == seen(texts(list@), n as int, "service"@), allow_affected_path == seen(texts(list@), n as int, "affectedPath"@),
        forall|k: T| #[trigger] allowed_keys@.contains(k) <==> !own(k) && seen(texts(list@), n as int, k),
    decreases list@.len() - n
//@ sec loopstart 0
    proof { assert(texts(list@)[n - 1] == key@); one_more(texts(list@), n - 1); names_differ(); }
    let ghost was = allowed_keys@;
//@ sec loopend 0
    proof { assert forall|k: T| allowed_keys@.contains(k) <==> !own(k) && seen(texts(list@), n as int, k) by { assert(was.contains(k) <==> !own(k) && seen(texts(list@), n - 1, k)); assert(seen(texts(list@), n as int, k) == (seen(texts(list@), n - 1, k) || k == key@)); } }
//@ sec tail
    proof { assert forall|k: T| texts(list@).contains(k) == seen(texts(list@), list@.len() as int, k) by { } names_differ(); }
//@ end
//@ file bin/router/src/executor/execution/error_masking.rs
//@ rewrite expr self.per_subgraph_error_masking.get(service_name).copied().unwrap_or(__d) => (match self.per_subgraph_error_masking.get(service_name) { Some(__x) => *__x, None => __d })
//@ rewrite expr __a.clone_from(&__b) => __a = owned(&__b)
//@ rewrite expr __a.and_then(|plan| plan.as_ref()) => plan_of(__a)
//@ rewrite expr __a.or(__b) => either(__a, __b)
//@ extract method ErrorMaskingRuntime::apply
//@ sec spec
    requires plain(old(err).extensions),
    ensures masked_by(*self, *old(err), *final(err)),
//@ end
//@ rewrite expr config.redacted_error_message.clone() => owned(&config.redacted_error_message)
//@ rewrite expr __m.as_ref().map(|subgraphs| { subgraphs.iter().map(|(name, cfg)| { (name.clone(), cfg.enabled.unwrap_or(__d)) }).collect() }).unwrap_or_default() ==>> map_values(&__m, |cfg: &SubgraphErrorMaskingConfig| -> (r: bool) ensures r == (match cfg.enabled { Some(b) => b, None => __d }) { cfg.enabled.unwrap_or(__d) })
//@ rewrite expr __m.as_ref().map(|subgraphs| { subgraphs.iter().map(|(name, cfg)| { (name.clone(), cfg.extensions.as_ref().map(|v| v.into())) }).collect() }).unwrap_or_default() ==>> map_values(&__m, |cfg: &SubgraphErrorMaskingConfig| -> (r: Option<RedactExtensionsPlan>) ensures r is Some == cfg.extensions is Some, r matches Some(p) ==> means(p, cfg.extensions->0) { plan_from(&cfg.extensions) })
//@ rewrite expr __o.as_ref().map(|v| v.into()) => plan_from(&__o)
//@ extract method ErrorMaskingRuntime::compile_from_config
//@ opt ret r
//@ sec spec
    ensures r is Some == config.enabled, r matches Some(rt) ==> follows(rt, *config),
//@ end
// ---- every error of a subgraph names the subgraph
pub open spec fn or(o: Option<String>, t: T) -> T { match o { Some(s) => s@, None => t } }
// `b` is the error `a` of subgraph `s`, at whatever path
pub open spec fn named(a: GraphQLError, s: T, b: GraphQLError) -> bool {
    &&& b.message@ == a.message@
    &&& b.locations == a.locations
    &&& b.extensions.service_name is Some && b.extensions.service_name->0@ == or(a.extensions.service_name, s)
    &&& b.extensions.code is Some && b.extensions.code->0@ == or(a.extensions.code, "DOWNSTREAM_SERVICE_ERROR"@)
    &&& b.extensions.extensions@ == a.extensions.extensions@
}
impl GraphQLErrorPath {
    #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
    #[verifier::external_body] pub fn extend_from_slice(&mut self, o: &[GraphQLErrorPathSegment]) ensures final(self).segments@ == old(self).segments@ + o@ { unimplemented!() }
}
impl GraphQLError {
    #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
#[verifier::external_body] pub struct PathsOf { m: u8 }
impl PathsOf {
    pub uninterp spec fn at(&self, i: usize) -> Option<Vec<GraphQLErrorPath>>;
    #[verifier::external_body] pub fn get(&self, i: &usize) -> (r: Option<&Vec<GraphQLErrorPath>>) ensures r is Some == self.at(*i) is Some, r matches Some(v) ==> *v == self.at(*i)->0 { unimplemented!() }
}
pub open spec fn entity(e: GraphQLError) -> Option<(usize, Seq<GraphQLErrorPathSegment>)> { match e.path { Some(p) => entity_of(p.segments@), None => None } }
pub open spec fn entity_of(p: Seq<GraphQLErrorPathSegment>) -> Option<(usize, Seq<GraphQLErrorPathSegment>)> {
    if p.len() >= 2 && p[0] is String && p[0]->String_0@ == "_entities"@ && p[1] is Index { Some((p[1]->Index_0, p.skip(2))) } else { None }
}
// the places of the data an error of the entity request is about: one for every place the entity was put
pub open spec fn places(e: GraphQLError, m: PathsOf, r: Seq<GraphQLError>) -> bool {
    match entity(e) {
        Some((i, rest)) if m.at(i) is Some => {
            &&& r.len() == m.at(i)->0@.len()
            &&& forall|k: int| 0 <= k < r.len() ==> moved(e, m.at(i)->0@[k].segments@ + rest, #[trigger] r[k])
        }
        _ => r.len() == 1 && r[0] == e,
    }
}
pub open spec fn moved(e: GraphQLError, p: Seq<GraphQLErrorPathSegment>, r: GraphQLError) -> bool { r.message == e.message && r.locations == e.locations && r.extensions == e.extensions && r.path is Some && r.path->0.segments@ == p }
pub fn map_paths<F: Fn(&GraphQLErrorPath) -> GraphQLError>(v: &Vec<GraphQLErrorPath>, f: F) -> (r: Vec<GraphQLError>)
    requires forall|i: int| 0 <= i < v@.len() ==> call_requires(f, (&#[trigger] v@[i],)),
    ensures r@.len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> call_ensures(f, (&v@[i],), #[trigger] r@[i]),
{
    let mut out: Vec<GraphQLError> = Vec::new();
    let mut k: usize = 0;
    while k < v.len() invariant k <= v@.len(), out@.len() == k, forall|i: int| 0 <= i < v@.len() ==> call_requires(f, (&#[trigger] v@[i],)), forall|i: int| 0 <= i < k ==> call_ensures(f, (&v@[i],), #[trigger] out@[i]) decreases v@.len() - k {
        out.push(f(&v[k]));
        k += 1;
    }
    out
}
#[verifier::external_body] pub fn index_and_path<'a>(p: &'a GraphQLErrorPath) -> (r: Option<EntityIndexAndPath<'a>>)
    ensures r is Some == entity_of(p.segments@) is Some, r matches Some(x) ==> x.entity_index == (entity_of(p.segments@)->Some_0).0 && x.rest_of_path@ == (entity_of(p.segments@)->Some_0).1 { unimplemented!() }
//@ file bin/router/src/executor/response/graphql_error.rs
//@ rewrite expr self.path.as_ref().and_then(|p| p.entity_index_and_path()) => (match &self.path { Some(p) => index_and_path(p), None => None })
//@ extract method GraphQLError::entity_index_and_path
//@ opt ret r
//@ sec spec
    ensures r is Some == entity(*self) is Some, r matches Some(x) ==> x.entity_index == (entity(*self)->Some_0).0 && x.rest_of_path@ == (entity(*self)->Some_0).1
//@ end
//@ rewrite type HashMap<&usize,Vec<GraphQLErrorPath>> => PathsOf
//@ rewrite expr entity_error_paths.iter().map(|error_path| __b).collect() ==>> map_paths(entity_error_paths, |error_path: &GraphQLErrorPath| -> (r: GraphQLError) ensures moved(self, error_path.segments@ + entity_index_and_path.rest_of_path@, r) __b)
//@ extract method GraphQLError::normalize_entity_error
//@ opt ret r
//@ sec spec
    ensures places(self, *entity_index_error_map, r@)
//@ end
//@ rewrite type TStr => &str
//@ rewrite expr __a.get_or_insert(__b) => fill(&mut __a, __b)
//@ rewrite expr subgraph_name.into() => owned_str(subgraph_name)
//@ rewrite expr affected_path.into() => owned_str(affected_path)
//@ rewrite expr "DOWNSTREAM_SERVICE_ERROR".to_string() => owned_str("DOWNSTREAM_SERVICE_ERROR")
//@ extract method GraphQLError::add_subgraph_name
//@ opt generics 
//@ opt ret r
//@ sec spec
    ensures named(self, subgraph_name@, r), r.path == self.path, r.extensions.affected_path == self.extensions.affected_path, r.extensions.extensions == self.extensions.extensions
//@ end
//@ extract method GraphQLError::add_affected_path
//@ opt generics 
//@ opt ret r
//@ sec spec
    ensures r.message == self.message, r.locations == self.locations, r.path == self.path, r.extensions.code == self.extensions.code, r.extensions.service_name == self.extensions.service_name,
        r.extensions.extensions == self.extensions.extensions, r.extensions.affected_path matches Some(p) && p@ == affected_path@
//@ end
//@ file bin/router/src/executor/execution_context.rs
#[verifier::external_body] pub struct FlattenNodePath { m: u8 }
pub uninterp spec fn path_text(p: FlattenNodePath) -> T;
#[verifier::external_body] pub fn text_of(p: &FlattenNodePath) -> (r: String) ensures r@ == path_text(*p) { unimplemented!() }
#[verifier::external_body] pub struct Unread { m: u8 }
//@ rewrite type Value<'a> => Unread
//@ rewrite type ResponsesStorage => Unread
//@ rewrite type ResponseHeaderAggregator => Unread
//@ rewrite type ExtensionsAggregator<'a> => Unread
//@ rewrite type SubgraphResponseCostTracker<'a> => Unread
//@ extract struct ExecutionContext
//@ opt keepfields errors
//@ opt generics 
//@ end
pub fn extend(v: &mut Vec<GraphQLError>, mut w: Vec<GraphQLError>) ensures final(v)@ == old(v)@ + w@ { v.append(&mut w); }
// what the errors of one answer of subgraph `s` become
pub open spec fn recorded(es: Seq<GraphQLError>, s: T, m: Option<PathsOf>, r: Seq<GraphQLError>) -> bool decreases es.len() {
    if es.len() == 0 { r.len() == 0 } else { exists|k: int, e: GraphQLError| 0 <= k <= r.len() && recorded(es.drop_last(), s, m, r.take(k)) && #[trigger] named(es.last(), s, e) && e.path == es.last().path && becomes(e, m, #[trigger] r.skip(k)) }
}
pub open spec fn becomes(e: GraphQLError, m: Option<PathsOf>, r: Seq<GraphQLError>) -> bool { match m { Some(m) => places(e, m, r), None => r.len() == 1 && r[0] == e } }
//@ rewrite type HashMap<&usize,Vec<GraphQLErrorPath>> => PathsOf
//@ rewrite expr __a.map(|path| path.to_string()) => (match __a { Some(path) => Some(text_of(path)), None => None })
//@ rewrite expr __a.extend(__b) => extend(&mut __a, __b)
//@ rewrite expr affected_path.clone() => affected_path.as_str()
//@ rewrite type ExecutionContext<'a> => ExecutionContext
//@ extract method ExecutionContext::handle_errors
//@ opt implgenerics 
//@ sec spec
    ensures final(self).errors@.len() >= old(self).errors@.len(), final(self).errors@.take(old(self).errors@.len() as int) == old(self).errors@,
        match errors { Some(es) => recorded(es@, subgraph_name@, entity_index_error_map, final(self).errors@.skip(old(self).errors@.len() as int)), None => final(self).errors@ == old(self).errors@ },
//@ sec loop 0 iter it
    invariant errors is Some, it.seq() == errors->0@, self.errors@.len() >= old(self).errors@.len(), self.errors@.take(old(self).errors@.len() as int) =~= old(self).errors@,
        recorded(errors->0@.take(it.index@), subgraph_name@, entity_index_error_map, self.errors@.skip(old(self).errors@.len() as int)),
        it.index@ == it.seq().len() ==> it.seq().take(it.index@) =~= it.seq(),
//@ sec loopstart 0
    let ghost before = self.errors@;
    let ghost here = response_error;
    let ghost mut ready = response_error;
//@ sec before call normalize_entity_error 0
    proof { ready = processed_error; }
//@ sec before call push 0
    proof { ready = processed_error; }
//@ sec loopend 0
    proof {
        let o = old(self).errors@.len() as int; let k = before.len() - o; let es = errors->0@.take(it.index@ + 1); let r = self.errors@.skip(o);
        assert(es.drop_last() =~= errors->0@.take(it.index@)); assert(es.last() == here);
        assert(r.take(k) =~= before.skip(o));
        assert(self.errors@.take(o) =~= before.take(o));
        if entity_index_error_map is None { assert(r.skip(k) =~= seq![ready]); }
        assert(named(es.last(), subgraph_name@, ready));
        assert(becomes(ready, entity_index_error_map, r.skip(k)));
        assert(recorded(es, subgraph_name@, entity_index_error_map, r));
    }
//@ end
// so no error of a subgraph escapes masking
proof fn every_recorded_error_names_a_subgraph(es: Seq<GraphQLError>, s: T, m: Option<PathsOf>, r: Seq<GraphQLError>)
    requires recorded(es, s, m, r) ensures forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]).extensions.service_name is Some decreases es.len()
{
    if es.len() > 0 {
        let (k, e) = choose|k: int, e: GraphQLError| 0 <= k <= r.len() && recorded(es.drop_last(), s, m, r.take(k)) && #[trigger] named(es.last(), s, e) && e.path == es.last().path && becomes(e, m, #[trigger] r.skip(k));
        every_recorded_error_names_a_subgraph(es.drop_last(), s, m, r.take(k));
        assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]).extensions.service_name is Some by {
            if i < k { assert(r.take(k)[i] == r[i]); } else { assert(r.skip(k)[i - k] == r[i]); }
        }
    }
}
// ---- a failed call of a subgraph
#[verifier::external_body] pub struct PlanExecutionErrorKind { m: u8 }
//@ file bin/router/src/executor/execution/error.rs
//@ extract struct PlanExecutionErrorContext
//@ end
//@ extract struct PlanExecutionError
//@ end
pub uninterp spec fn said(e: PlanExecutionError) -> T;
pub uninterp spec fn code_of(e: PlanExecutionError) -> T;
impl PlanExecutionError {
    #[verifier::external_body] pub fn say(&self) -> (r: String) ensures r@ == said(*self) { unimplemented!() }
    #[verifier::external_body] pub fn error_code(&self) -> (r: &'static str) ensures r@ == code_of(*self) { unimplemented!() }
}
#[verifier::external_body] pub fn none_extra() -> (r: Extra) ensures r@ == Map::<T, int>::empty() { unimplemented!() }
//@ file bin/router/src/executor/response/graphql_error.rs
//@ rewrite type TMessage => String
//@ rewrite type TCode => &str
//@ rewrite expr message.into() => message
//@ rewrite expr code.into() => owned_str(code)
//@ rewrite expr BTreeMap::new() => none_extra()
//@ extract method GraphQLErrorExtensions::new_from_code
//@ opt generics 
//@ opt ret r
//@ sec spec
    ensures r.code is Some && r.code->0@ == code@, r.service_name is None, r.affected_path is None, r.extensions@ == Map::<T, int>::empty()
//@ end
//@ extract method GraphQLError::from_message_and_code
//@ opt generics 
//@ opt ret r
//@ sec spec
    ensures r.message == message, r.locations is None, r.path is None, r.extensions.code is Some && r.extensions.code->0@ == code@, r.extensions.service_name is None, r.extensions.affected_path is None, r.extensions.extensions@ == Map::<T, int>::empty()
//@ end
pub open spec fn failure(e: PlanExecutionError, r: GraphQLError) -> bool {
    &&& r.message@ == said(e) && r.locations is None && r.path is None
    &&& r.extensions.code is Some && r.extensions.code->0@ == code_of(e)
    &&& same(r.extensions.service_name, e.context.subgraph_name)
    &&& same(r.extensions.affected_path, e.context.affected_path)
    &&& r.extensions.extensions@ == Map::<T, int>::empty()
}
//@ file bin/router/src/executor/execution/error.rs
//@ rewrite expr val.to_string() => val.say()
//@ rewrite type GraphQLError => GraphQLError
//@ extract method From<&PlanExecutionError> for GraphQLError::from
//@ opt ret r
//@ sec spec
    ensures failure(*val, r), plain(r.extensions)
//@ end
//@ file bin/router/src/executor/execution/plan.rs
#[verifier::external_body] pub struct Bytes { m: u8 }
pub uninterp spec fn wire(e: Seq<GraphQLError>) -> Bytes;
//@ extract struct FailedExecutionResult
//@ end
impl FailedExecutionResult { #[verifier::external_body] pub fn serialize(&self) -> (r: Bytes) ensures r == wire(self.errors@) { unimplemented!() } }
//@ rewrite type Vec<u8> => Bytes
//@ extract fn serialize_masked_failure
//@ opt ret r
//@ sec spec
    requires plain(error.extensions),
    ensures exists|es: Seq<GraphQLError>| #![trigger wire(es)] es.len() == 1 && r == wire(es) && match error_masking_runtime { None => es[0] == error, Some(rt) => masked_by(*rt, error, es[0]) }
//@ end
}
fn main() {}

