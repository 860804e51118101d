//@-- C08: the response is the operation applied to the collected data
//@ include ../lib/prelude.rs
verus! {
//@ dropmacro warn debug trace info error
// ---- trusted: text and bytes -----------------------------------------------------------------------
pub type B = Seq<u8>;
// the JSON text of a string, of numbers (json_writer.rs: bounded run), the UTF-8 bytes of a response name
pub uninterp spec fn json_str(s: Seq<char>) -> B;
pub uninterp spec fn json_f64(n: f64) -> B;
pub uninterp spec fn json_u64(n: u64) -> B;
pub uninterp spec fn json_i64(n: i64) -> B;
pub uninterp spec fn utf8(s: Seq<char>) -> B;
pub open spec fn b_null() -> B { seq![110u8, 117, 108, 108] }
pub trait Put { spec fn bytes(&self) -> B; fn put(&mut self, b: &[u8]) ensures final(self).bytes() == old(self).bytes() + b@; fn put_slice(&mut self, b: &[u8]) ensures final(self).bytes() == old(self).bytes() + b@; }
impl Put for Vec<u8> {
    open spec fn bytes(&self) -> B { self@ }
    fn put(&mut self, b: &[u8]) { self.extend_from_slice(b); proof { assert(self@ =~= old(self)@ + b@); } }
    fn put_slice(&mut self, b: &[u8]) { self.extend_from_slice(b); proof { assert(self@ =~= old(self)@ + b@); } }
}
#[verifier::external_body] pub fn write_and_escape_string(w: &mut Vec<u8>, s: &str) ensures final(w)@ == old(w)@ + json_str(s@) { unimplemented!() }
#[verifier::external_body] pub fn write_f64(w: &mut Vec<u8>, n: f64) ensures final(w)@ == old(w)@ + json_f64(n) { unimplemented!() }
#[verifier::external_body] pub fn write_u64(w: &mut Vec<u8>, n: u64) ensures final(w)@ == old(w)@ + json_u64(n) { unimplemented!() }
#[verifier::external_body] pub fn write_i64(w: &mut Vec<u8>, n: i64) ensures final(w)@ == old(w)@ + json_i64(n) { unimplemented!() }
#[verifier::external_body] pub fn bytes_of(s: &str) -> (r: &[u8]) ensures r@ == utf8(s@) { unimplemented!() }
#[verifier::external_body] pub fn chars_eq(a: &str, b: &String) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
// the constants of utils/consts.rs
//@ file bin/router/src/executor/utils/consts.rs
exec const NULL: &'static [u8] ensures NULL@ == b_null() { lit(&[110, 117, 108, 108]) }
exec const TRUE: &'static [u8] ensures TRUE@ == seq![116u8, 114, 117, 101] { lit(&[116, 114, 117, 101]) }
exec const FALSE: &'static [u8] ensures FALSE@ == seq![102u8, 97, 108, 115, 101] { lit(&[102, 97, 108, 115, 101]) }
exec const COMMA: &'static [u8] ensures COMMA@ == seq![44u8] { lit(&[44]) }
exec const COLON: &'static [u8] ensures COLON@ == seq![58u8] { lit(&[58]) }
exec const QUOTE: &'static [u8] ensures QUOTE@ == seq![34u8] { lit(&[34]) }
exec const OPEN_BRACE: &'static [u8] ensures OPEN_BRACE@ == seq![123u8] { lit(&[123]) }
exec const CLOSE_BRACE: &'static [u8] ensures CLOSE_BRACE@ == seq![125u8] { lit(&[125]) }
exec const OPEN_BRACKET: &'static [u8] ensures OPEN_BRACKET@ == seq![91u8] { lit(&[91]) }
exec const CLOSE_BRACKET: &'static [u8] ensures CLOSE_BRACKET@ == seq![93u8] { lit(&[93]) }
exec const EMPTY_OBJECT: &'static [u8] ensures EMPTY_OBJECT@ == seq![123u8, 125] { lit(&[123, 125]) }
pub const fn lit<const N: usize>(b: &'static [u8; N]) -> (r: &'static [u8]) ensures r@ == b@ { b.as_slice() }
//@ rewrite type &str => &'static str
//@ extract const TYPENAME_FIELD_NAME
//@ end
//@ norules
// ---- trusted: sets of names, variables, schema -----------------------------------------------------
#[verifier::external_body] pub struct Names { m: u8 }
impl View for Names { type V = Set<Seq<char>>; uninterp spec fn view(&self) -> Set<Seq<char>>; }
impl Names { #[verifier::external_body] pub fn contains(&self, n: &str) -> (r: bool) ensures r == self@.contains(n@) { unimplemented!() } }
#[verifier::external_body] pub struct Vars { m: u8 }
impl Vars {
    pub uninterp spec fn on(&self, n: Seq<char>) -> bool; // present, and the Boolean true
    #[verifier::external_body] pub fn is_true(&self, n: &String) -> (r: bool) ensures r == self.on(n@) { unimplemented!() }
}
#[verifier::external_body] pub struct FieldTypes { m: u8 }
impl FieldTypes {
    pub uninterp spec fn of(&self, n: Seq<char>) -> Option<Seq<char>>;
    #[verifier::external_body] pub fn output_of(&self, n: &String) -> (r: Option<&str>) ensures r is Some <==> self.of(n@) is Some, r is Some ==> r->0@ == self.of(n@)->0 { unimplemented!() }
}
#[verifier::external_body] pub struct SchemaMetadata { m: u8 }
impl SchemaMetadata {
    pub uninterp spec fn fields(&self, n: Seq<char>) -> Option<FieldTypes>;
    #[verifier::external_body] pub fn get_type_fields(&self, n: &str) -> (r: Option<&FieldTypes>) ensures r is Some <==> self.fields(n@) is Some, r is Some ==> *r->0 == self.fields(n@)->0 { unimplemented!() }
}
pub struct ProjectionError { pub m: u8 }
pub struct GraphQLError { pub m: u8 }
pub fn enum_error() -> GraphQLError { GraphQLError { m: 0 } }
pub fn or_missing<T>(o: Option<T>) -> (r: Result<T, ProjectionError>) ensures r is Ok <==> o is Some, r is Ok ==> r->Ok_0 == o->0 { match o { Some(x) => Ok(x), None => Err(ProjectionError { m: 0 }) } }
//@ file bin/router/src/executor/introspection/schema.rs
//@ extract enum FieldNullability
//@ end
//@ extract method FieldNullability::is_non_null
//@ opt ret r
//@ sec spec
    ensures r == non_null(*self)
//@ end
//@ extract method FieldNullability::list_item
//@ opt ret r
//@ sec spec
    ensures r is Some <==> self is List, r is Some ==> *r->0 == *self->List_item
//@ end
pub open spec fn non_null(n: FieldNullability) -> bool { match n { FieldNullability::Leaf { non_null } => non_null, FieldNullability::List { non_null, .. } => non_null } }
//@ file bin/router/src/executor/response/value.rs
//@ rewrite type Cow<'a,str> => &'a str
//@ extract enum Value
//@ end
//@ extract method Value::as_object
//@ opt ret r
//@ sec spec
    ensures r is Some <==> self is Object, r is Some ==> *r->0 == self->Object_0
//@ end
//@ extract method Value::as_str
//@ opt ret r
//@ sec spec
    ensures r is Some <==> self is String, r is Some ==> r->0 == self->String_0
//@ end
// the value under a name: the entries of an object are sorted by name, no name twice
pub open spec fn at<'a>(o: Seq<(&'a str, Value<'a>)>, n: Seq<char>) -> Option<Value<'a>> {
    if exists|i: int| 0 <= i < o.len() && (#[trigger] o[i]).0@ == n { Some(o[index_of(o, n)].1) } else { None }
}
pub open spec fn index_of<'a>(o: Seq<(&'a str, Value<'a>)>, n: Seq<char>) -> int { choose|i: int| 0 <= i < o.len() && (#[trigger] o[i]).0@ == n }
#[verifier::external_body] pub fn lookup<'a, 'b>(o: &'b Vec<(&'a str, Value<'a>)>, n: &str) -> (r: Option<&'b Value<'a>>)
    ensures r is Some <==> at(o@, n@) is Some, r is Some ==> *r->0 == at(o@, n@)->0 { unimplemented!() }
//@ file bin/router/src/executor/projection/plan.rs
//@ rewrite type HashSet<String> => Names
//@ rewrite type Arc<Vec<FieldProjectionPlan>> => Vec<FieldProjectionPlan>
//@ extract enum TypeCondition
//@ end
//@ extract enum ProjectionValueSource
//@ end
//@ extract struct FieldProjectionPlan
//@ end
//@ extract enum FieldProjectionCondition
//@ end
//@ extract enum FieldProjectionConditionError
//@ end
pub open spec fn fits(c: TypeCondition, n: Seq<char>) -> bool { match c { TypeCondition::Exact(x) => x@ == n, TypeCondition::OneOf(s) => s@.contains(n) } }
//@ rewrite expr type_name == expected => chars_eq(type_name, expected)
//@ extract method TypeCondition::matches
//@ opt ret r
//@ sec spec
    ensures r == fits(*self, type_name@)
//@ end
// ---- names of types ------------------------------------------------------------------------------------
pub type Nm = Result<Seq<char>, ()>;
pub open spec fn nm(r: Result<&str, ProjectionError>) -> Nm { match r { Ok(x) => Ok(x@), Err(_) => Err(()) } }
pub open spec fn plain_typename(v: Option<Value>) -> Option<Seq<char>> {
    match v { Some(Value::Object(o)) => match at(o@, TYPENAME_FIELD_NAME@) { Some(Value::String(s)) => Some(s@), _ => None }, _ => None }
}
// the type of the value of a field: what the data says, otherwise the declared one
pub open spec fn type_of(p: FieldProjectionPlan, v: Option<Value>, parent: Nm, sm: SchemaMetadata) -> Nm {
    if p.is_typename { Ok("String"@) } else { match plain_typename(v) { Some(t) => Ok(t), None => match parent {
        Err(_) => Err(()),
        Ok(pt) => match sm.fields(pt) { None => Err(()), Some(f) => match f.of(p.field_name@) { None => Err(()), Some(t) => Ok(t) } } } } }
}
//@ file bin/router/src/executor/projection/response.rs
//@ rewrite type OnceCell<Result<&'a str,ProjectionError>> => ()
//@ rewrite type Rc<TypeName<'a>> => Box<TypeName<'a>>
//@ rewrite expr OnceCell::new() => ()
//@ rewrite expr Rc::new(parent) => Box::new(parent)
//@ rewrite expr __c.get_or_init(|| __e).clone() ==>> __e
//@ extract enum TypeName
//@ end
impl<'a> Clone for TypeName<'a> { #[verifier::external_body] fn clone(&self) -> (r: TypeName<'a>) ensures r == *self { unimplemented!() } }
pub open spec fn name_of(t: TypeName) -> Nm decreases t {
    match t { TypeName::Resolved(n) => Ok(n@), TypeName::Deferred { selection, data, parent, schema, .. } => type_of(*selection, match data { Some(v) => Some(*v), None => None }, name_of(*parent), *schema) }
}
pub open spec fn named(t: &TypeName) -> Nm { name_of(*t) }
pub open spec fn deref<'a>(v: Option<&'a Value<'a>>) -> Option<Value<'a>> { match v { Some(v) => Some(*v), None => None } }
//@ extract enum NullPropagationDecision
//@ end
//@ extract method NullPropagationDecision::should_propagate
//@ opt ret r
//@ sec spec
    ensures r == (self is PropagateNullValue)
//@ end
//@ extract method TypeName::resolved
//@ opt ret r
//@ sec spec
    ensures name_of(r) == Ok::<Seq<char>, ()>(type_name@)
//@ end
//@ extract method TypeName::deferred
//@ opt ret r
//@ sec spec
    ensures name_of(r) == type_of(*selection, deref(data), name_of(parent), *schema)
//@ end
//@ extract method TypeName::get
//@ opt ret r
//@ sec spec
    ensures nm(r) == name_of(*self)
    decreases self, 0nat
//@ end
//@ rewrite expr obj.binary_search_by_key(&TYPENAME_FIELD_NAME, |(k, _)| *k).ok().and_then(|idx| obj[idx].1.as_str()) ==>> (match lookup(obj, TYPENAME_FIELD_NAME) { Some(v) => v.as_str(), None => None })
//@ rewrite expr obj.binary_search_by_key(&TYPENAME_FIELD_NAME, |(k, _)| *k).is_ok() ==>> lookup(obj, TYPENAME_FIELD_NAME).is_some()
//@ rewrite expr obj.binary_search_by_key(&plan.response_key.as_str(), |(k, _)| *k).ok().map(|idx| &obj[idx].1) ==>> lookup(obj, plan.response_key.as_str())
//@ rewrite expr field_val.and_then(|value| value.as_object()).and_then(|obj| __b) ==>> (match field_val { Some(v) => match v.as_object() { Some(obj) => __b, None => None }, None => None })
//@ rewrite expr field_val.and_then(|value| value.as_str()) ==>> (match field_val { Some(v) => v.as_str(), None => None })
//@ rewrite expr schema_metadata.get_type_fields(parent_type_name).ok_or_else(|| __e) ==>> or_missing(schema_metadata.get_type_fields(parent_type_name))
//@ rewrite expr fields.get(&plan.field_name).map(|field_info| field_info.output_type_name.as_str()).ok_or_else(|| __e) ==>> or_missing(fields.output_of(&plan.field_name))
//@ extract fn resolve_type_name
//@ opt ret r
//@ sec spec
    ensures nm(r) == type_of(*plan, deref(field_val), name_of(*parent_type_name), *schema_metadata)
    decreases parent_type_name, 1nat
//@ end
// ---- conditions ----------------------------------------------------------------------------------------
pub enum Verdict { Shown, Hidden, BadEnum, BadType, Fatal }
pub open spec fn verdict(r: Result<(), FieldProjectionConditionError>) -> Verdict {
    match r { Ok(_) => Verdict::Shown, Err(FieldProjectionConditionError::Skip) => Verdict::Hidden, Err(FieldProjectionConditionError::InvalidParentType) => Verdict::Hidden,
        Err(FieldProjectionConditionError::InvalidEnumValue) => Verdict::BadEnum, Err(FieldProjectionConditionError::InvalidFieldType) => Verdict::BadType, Err(FieldProjectionConditionError::Fatal(_)) => Verdict::Fatal }
}
pub open spec fn judge(c: FieldProjectionCondition, parent: Nm, field: Nm, v: Option<Value>, vars: Option<Vars>) -> Verdict decreases c {
    match c {
        FieldProjectionCondition::And(a, b) => if judge(*a, parent, field, v, vars) is Shown { judge(*b, parent, field, v, vars) } else { judge(*a, parent, field, v, vars) },
        FieldProjectionCondition::Or(a, b) => if judge(*a, parent, field, v, vars) is Shown { Verdict::Shown } else { judge(*b, parent, field, v, vars) },
        FieldProjectionCondition::IncludeIfVariable(n) => if vars is Some && vars->0.on(n@) { Verdict::Shown } else { Verdict::Hidden },
        FieldProjectionCondition::SkipIfVariable(n) => if vars is Some && vars->0.on(n@) { Verdict::Hidden } else { Verdict::Shown },
        FieldProjectionCondition::ParentTypeCondition(t) => match parent { Err(_) => Verdict::Fatal, Ok(n) => if fits(t, n) { Verdict::Shown } else { Verdict::Hidden } },
        FieldProjectionCondition::FieldTypeCondition(t) => match field { Err(_) => Verdict::Fatal, Ok(n) => if fits(t, n) { Verdict::Shown } else { Verdict::BadType } },
        FieldProjectionCondition::EnumValuesCondition(s) => match v { Some(Value::String(x)) => if s@.contains(x@) { Verdict::Shown } else { Verdict::BadEnum }, _ => Verdict::Shown },
    }
}
pub open spec fn always<'a, F: Fn() -> Result<&'a str, ProjectionError>>(f: F, n: Nm) -> bool { forall|r: Result<&'a str, ProjectionError>| #[trigger] call_ensures(f, (), r) ==> nm(r) == n }
pub fn fatal<T>(r: Result<T, ProjectionError>) -> (q: Result<T, FieldProjectionConditionError>) ensures q is Ok <==> r is Ok, q is Ok ==> q->Ok_0 == r->Ok_0, q is Err ==> q->Err_0 is Fatal { match r { Ok(x) => Ok(x), Err(e) => Err(FieldProjectionConditionError::Fatal(e)) } }
//@ rewrite expr parent_type_name()? ==>> fatal(parent_type_name())?
//@ rewrite expr field_type_name()? ==>> fatal(field_type_name())?
//@ rewrite expr __a.and_then(|_| __b) ==>> (match __a { Ok(_) => __b, Err(e) => Err(e) })
//@ rewrite expr __a.or_else(|_| __b) ==>> (match __a { Ok(x) => Ok(x), Err(_) => __b })
//@ rewrite expr values.get(variable_name).is_some_and(|v| v.as_bool().unwrap_or(false)) ==>> values.is_true(variable_name)
//@ rewrite expr enum_values.contains(string_value.as_ref()) ==>> enum_values.contains(string_value)
//@ rewrite type HashMap<String,sonic_rs::Value> => Vars
//@ extract fn check
//@ opt ret r
//@ sec spec
    requires parent_type_name.requires(()), field_type_name.requires(()),
    ensures forall|p: Nm, f: Nm| #[trigger] always(*parent_type_name, p) && #[trigger] always(*field_type_name, f) ==> verdict(r) == judge(*cond, p, f, deref(field_value), *variable_values),
    decreases cond
//@ end
// ---- a value as JSON -----------------------------------------------------------------------------------
pub open spec fn sep(k: nat) -> B { if k == 0 { seq![] } else { seq![44u8] } }
pub open spec fn member(n: B, v: B) -> B { n + seq![58u8] + v }
pub open spec fn json(v: Value) -> B decreases v, 0nat {
    match v {
        Value::Null => b_null(),
        Value::Bool(b) => if b { seq![116u8, 114, 117, 101] } else { seq![102u8, 97, 108, 115, 101] },
        Value::U64(n) => json_u64(n), Value::I64(n) => json_i64(n), Value::F64(n) => json_f64(n),
        Value::String(s) => json_str(s@),
        Value::RawJson(s) => utf8(s@),
        Value::Object(o) => seq![123u8] + json_members(o, o@.len()) + seq![125u8],
        Value::Array(a) => seq![91u8] + json_items(a, a@.len()) + seq![93u8],
    }
}
pub open spec fn json_members<'a>(o: Vec<(&'a str, Value<'a>)>, k: nat) -> B decreases o, k {
    if k == 0 || k > o@.len() { seq![] } else { json_members(o, (k - 1) as nat) + sep((k - 1) as nat) + member(json_str(o@[k - 1].0@), json(o@[k - 1].1)) }
}
pub open spec fn json_items<'a>(o: Vec<Value<'a>>, k: nat) -> B decreases o, k {
    if k == 0 || k > o@.len() { seq![] } else { json_items(o, (k - 1) as nat) + sep((k - 1) as nat) + json(o@[k - 1]) }
}
//@ rewrite expr raw.as_bytes() ==>> bytes_of(raw)
//@ extract fn serialize_value_to_buffer
//@ sec spec
    ensures final(buffer)@ == old(buffer)@ + json(*data)
    decreases data
//@ sec loop 0 iter it
        invariant first == (it.index@ == 0), data is Object, value == data->Object_0, it.seq().len() == value@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == value@[i],
            buffer@ =~= old(buffer)@ + seq![123u8] + json_members(*value, it.index@ as nat),
//@ sec loop 1 iter it
        invariant first == (it.index@ == 0), data is Array, arr == data->Array_0, it.seq().len() == arr@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == arr@[i],
            buffer@ =~= old(buffer)@ + seq![91u8] + json_items(*arr, it.index@ as nat),
//@ end
// ---- enum values a field can have ------------------------------------------------------------------------
pub open spec fn enum_of(c: FieldProjectionCondition) -> Option<Set<Seq<char>>> decreases c {
    match c {
        FieldProjectionCondition::EnumValuesCondition(s) => Some(s@),
        FieldProjectionCondition::And(a, b) => if enum_of(*a) is Some { enum_of(*a) } else { enum_of(*b) },
        FieldProjectionCondition::Or(a, b) => if enum_of(*a) is Some { enum_of(*a) } else { enum_of(*b) },
        _ => None,
    }
}
pub open spec fn listed(p: FieldProjectionPlan, v: Seq<char>) -> bool { p.conditions is Some && enum_of(p.conditions->0) is Some ==> enum_of(p.conditions->0)->0.contains(v) }
//@ file bin/router/src/executor/projection/plan.rs
//@ rewrite expr __a.or_else(|| __b) ==>> (match __a { Some(x) => Some(x), None => __b })
//@ rewrite expr self.conditions.as_ref().and_then(|condition| condition.enum_values()).is_none_or(|enum_values| enum_values.contains(value)) ==>> (match &self.conditions { Some(c) => match c.enum_values() { Some(s) => s.contains(value), None => true }, None => true })
//@ extract method FieldProjectionCondition::enum_values
//@ opt ret r
//@ sec spec
    ensures r is Some <==> enum_of(*self) is Some, r is Some ==> r->0@ == enum_of(*self)->0
    decreases self
//@ end
//@ extract method FieldProjectionPlan::allows_enum_value
//@ opt ret r
//@ sec spec
    ensures r == listed(*self, value@)
//@ end
// ---- the answer, as a tree (GraphQL: CompleteValue with null propagation) -----------------------------------
pub enum J { Null, Text(B), List(Seq<J>), Obj(Seq<(Seq<char>, J)>) }
pub open spec fn text(j: J) -> B decreases j {
    match j { J::Null => b_null(), J::Text(b) => b, J::List(s) => seq![91u8] + text_items(s) + seq![93u8], J::Obj(s) => seq![123u8] + text_members(s) + seq![125u8] }
}
pub open spec fn text_items(s: Seq<J>) -> B decreases s, s.len() { if s.len() == 0 { seq![] } else { text_items(s.drop_last()) + sep((s.len() - 1) as nat) + text(s.last()) } }
pub open spec fn key(n: Seq<char>) -> B { seq![34u8] + utf8(n) + seq![34u8] }
pub open spec fn text_members(s: Seq<(Seq<char>, J)>) -> B decreases s, s.len() { if s.len() == 0 { seq![] } else { text_members(s.drop_last()) + sep((s.len() - 1) as nat) + member(key(s.last().0), text(s.last().1)) } }
pub ghost struct Env { pub vars: Option<Vars>, pub sm: SchemaMetadata }
pub open spec fn item_of(n: FieldNullability) -> FieldNullability { match n { FieldNullability::List { item, .. } => *item, _ => n } }
// what a field shows of a value of it
pub open spec fn complete(e: Env, p: FieldProjectionPlan, v: Value, n: FieldNullability, parent: Nm) -> Result<J, ()> decreases v, 0nat, 0nat {
    match v {
        Value::Null => Ok(J::Null),
        Value::Array(a) => match items(e, p, a, a@.len(), n, parent) { Err(_) => Err(()), Ok(None) => Ok(J::Null), Ok(Some(s)) => Ok(J::List(s)) },
        Value::Object(o) => match p.value {
            ProjectionValueSource::Null => Ok(J::Null),
            ProjectionValueSource::ResponseData { selections: None } => Ok(J::Text(json(v))),
            ProjectionValueSource::ResponseData { selections: Some(ps) } => match members(e, ps@, o, ps@.len(), type_of(p, Some(v), parent, e.sm)) { Err(_) => Err(()), Ok(None) => Ok(J::Null), Ok(Some(s)) => Ok(J::Obj(s)) },
        },
        Value::String(s) => if listed(p, s@) { Ok(J::Text(json(v))) } else { Ok(J::Null) },
        _ => Ok(J::Text(json(v))),
    }
}
// None: a null where none can be
pub open spec fn items<'a>(e: Env, p: FieldProjectionPlan, a: Vec<Value<'a>>, k: nat, n: FieldNullability, parent: Nm) -> Result<Option<Seq<J>>, ()> decreases a, 0nat, k {
    if k == 0 || k > a@.len() { Ok(Some(seq![])) } else { match items(e, p, a, (k - 1) as nat, n, parent) {
        Ok(Some(s)) => match complete(e, p, a@[k - 1], item_of(n), parent) { Err(_) => Err(()), Ok(j) => if j is Null && n is List && non_null(item_of(n)) { Ok(None) } else { Ok(Some(s.push(j))) } },
        r => r,
    } }
}
pub open spec fn members<'a>(e: Env, ps: Seq<FieldProjectionPlan>, o: Vec<(&'a str, Value<'a>)>, k: nat, ty: Nm) -> Result<Option<Seq<(Seq<char>, J)>>, ()> decreases o, 1nat, k {
    if k == 0 || k > ps.len() { Ok(Some(seq![])) } else { match members(e, ps, o, (k - 1) as nat, ty) {
        Ok(Some(s)) => match shown(e, ps[k - 1], o, ty) { Err(_) => Err(()), Ok(None) => Ok(Some(s)), Ok(Some(j)) => if j is Null && non_null(ps[k - 1].nullability) { Ok(None) } else { Ok(Some(s.push((ps[k - 1].response_key@, j)))) } },
        r => r,
    } }
}
// what an object shows under one field; None: the field does not apply to it
pub open spec fn shown<'a>(e: Env, p: FieldProjectionPlan, o: Vec<(&'a str, Value<'a>)>, ty: Nm) -> Result<Option<J>, ()> decreases o, 0nat, 0nat {
    if p.parent_type_guard is Some && ty is Err { Err(()) }
    else if p.parent_type_guard is Some && !fits(p.parent_type_guard->0, ty->Ok_0) { Ok(None) }
    else {
        let i = index_of(o@, p.response_key@);
        let v = at(o@, p.response_key@);
        match if p.conditions is Some { judge(p.conditions->0, ty, type_of(p, v, ty, e.sm), v, e.vars) } else { Verdict::Shown } {
            Verdict::Fatal => Err(()), Verdict::Hidden => Ok(None), Verdict::BadEnum => Ok(Some(J::Null)), Verdict::BadType => Ok(Some(J::Null)),
            Verdict::Shown => if p.value is Null { Ok(Some(J::Null)) }
                else if p.is_typename { match concrete(o@, v, ty) { Ok(t) => Ok(Some(J::Text(json_str(t)))), Err(_) => Err(()) } }
                else if v is Some && 0 <= i < o@.len() { match complete(e, p, o@[i].1, p.nullability, ty) { Ok(j) => Ok(Some(j)), Err(_) => Err(()) } } else { Ok(Some(J::Null)) },
        }
    }
}
pub open spec fn concrete<'a>(o: Seq<(&'a str, Value<'a>)>, v: Option<Value<'a>>, ty: Nm) -> Nm {
    if at(o, TYPENAME_FIELD_NAME@) is None && v is Some && v->0 is String { Ok(v->0->String_0@) } else { ty }
}
pub broadcast proof fn text_items_push(s: Seq<J>, j: J) ensures #[trigger] text_items(s.push(j)) == text_items(s) + sep(s.len()) + text(j) { assert(s.push(j).drop_last() =~= s); }
pub broadcast proof fn text_members_push(s: Seq<(Seq<char>, J)>, j: (Seq<char>, J)) ensures #[trigger] text_members(s.push(j)) == text_members(s) + sep(s.len()) + member(key(j.0), text(j.1)) { assert(s.push(j).drop_last() =~= s); }
#[verifier::opaque]
pub open spec fn so_far(s: Seq<(Seq<char>, J)>) -> B { if s.len() == 0 { seq![] } else { seq![123u8] + text_members(s) } }
pub proof fn so_far_push(b: B, s: Seq<(Seq<char>, J)>, n: Seq<char>, j: J)
    ensures b + so_far(s.push((n, j))) == b + so_far(s) + (if s.len() == 0 { seq![123u8] } else { seq![44u8] }) + seq![34u8] + utf8(n) + seq![34u8] + seq![58u8] + text(j)
{
    reveal(so_far); text_members_push(s, (n, j));
    if s.len() == 0 { assert(text_members(s) =~= seq![]); }
    assert(b + so_far(s.push((n, j))) =~= b + so_far(s) + (if s.len() == 0 { seq![123u8] } else { seq![44u8] }) + seq![34u8] + utf8(n) + seq![34u8] + seq![58u8] + text(j));
}
pub proof fn so_far_none(b: B) ensures b + so_far(seq![]) == b { reveal(so_far); assert(b + so_far(seq![]) =~= b); }
pub proof fn obj_text(b: B, s: Seq<(Seq<char>, J)>)
    ensures s.len() > 0 ==> b + so_far(s) + seq![125u8] == b + text(J::Obj(s)), s.len() == 0 ==> b + so_far(s) + seq![123u8, 125] == b + text(J::Obj(s))
{ reveal(so_far); if s.len() == 0 { assert(text_members(s) =~= seq![]); assert(b + so_far(s) + seq![123u8, 125] =~= b + text(J::Obj(s))); } else { assert(b + so_far(s) + seq![125u8] =~= b + text(J::Obj(s))); } }
pub proof fn texts() ensures text(J::Null) == b_null(), forall|b: B| #[trigger] text(J::Text(b)) == b {}
// an error or a null that cannot be ends the list, the object
pub proof fn items_stop<'a>(e: Env, p: FieldProjectionPlan, a: Vec<Value<'a>>, k: nat, m: nat, n: FieldNullability, parent: Nm)
    requires k <= m <= a@.len()
    ensures items(e, p, a, k, n, parent) is Err ==> items(e, p, a, m, n, parent) is Err, items(e, p, a, k, n, parent) == Ok::<Option<Seq<J>>, ()>(None) ==> items(e, p, a, m, n, parent) == Ok::<Option<Seq<J>>, ()>(None)
    decreases m
{ if k < m { items_stop(e, p, a, k, (m - 1) as nat, n, parent); } }
pub proof fn members_stop<'a>(e: Env, ps: Seq<FieldProjectionPlan>, o: Vec<(&'a str, Value<'a>)>, k: nat, m: nat, ty: Nm)
    requires k <= m <= ps.len()
    ensures members(e, ps, o, k, ty) is Err ==> members(e, ps, o, m, ty) is Err, members(e, ps, o, k, ty) == Ok::<Option<Seq<(Seq<char>, J)>>, ()>(None) ==> members(e, ps, o, m, ty) == Ok::<Option<Seq<(Seq<char>, J)>>, ()>(None)
    decreases m
{ if k < m { members_stop(e, ps, o, k, (m - 1) as nat, ty); } }
//@ file bin/router/src/executor/projection/response.rs
//@ rewrite expr __o.is_some_and(FieldNullability::is_non_null) ==>> (match __o { Some(x) => x.is_non_null(), None => false })
//@ rewrite expr list_item_nullability.unwrap_or(nullability) ==>> (match list_item_nullability { Some(x) => x, None => nullability })
//@ rewrite expr plan.response_key.as_bytes() ==>> bytes_of(plan.response_key.as_str())
//@ rewrite expr GraphQLError::from(__e) ==>> enum_error()
//@ rewrite type [(&str,Value)] => Vec<(&'a str, Value<'a>)>
//@ extract fn project_type_name
//@ opt ret r
//@ sec spec
    ensures nm(r) == concrete(obj@, deref(field_val), name_of(*parent_type_name))
//@ end
//@ extract fn project_selection_set
//@ opt ret r
//@ sec spec
    ensures ({
        let w = complete(Env { vars: *variable_values, sm: *schema_metadata }, *selection, *data, *nullability, name_of(parent_type_name));
        &&& r is Ok <==> w is Ok
        &&& r matches Ok(d) ==> final(buffer)@ == old(buffer)@ + text(w->Ok_0) && (d is PropagateNullValue <==> w->Ok_0 is Null)
    }),
    decreases data, 0nat
//@ sec start
        let ghost e = Env { vars: *variable_values, sm: *schema_metadata };
        let ghost parent = name_of(parent_type_name);
        broadcast use text_items_push;
        proof { reveal(so_far); texts(); }
//@ sec loop 0 iter it
        invariant first == (it.index@ == 0), data is Array, arr == data->Array_0, it.seq().len() == arr@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == arr@[i],
            e == (Env { vars: *variable_values, sm: *schema_metadata }), parent == name_of(parent_type_name),
            list_item_nullability is Some <==> nullability is List, list_item_nullability is Some ==> *list_item_nullability->0 == item_of(*nullability),
            item_non_null == (nullability is List && non_null(item_of(*nullability))),
            null_propagation_checkpoint == old(buffer)@.len(),
            items(e, *selection, *arr, it.index@ as nat, *nullability, parent) is Ok,
            items(e, *selection, *arr, it.index@ as nat, *nullability, parent)->Ok_0 is Some,
            items(e, *selection, *arr, it.index@ as nat, *nullability, parent)->Ok_0->0.len() == it.index@,
            buffer@ =~= old(buffer)@ + seq![91u8] + text_items(items(e, *selection, *arr, it.index@ as nat, *nullability, parent)->Ok_0->0),
//@ sec loopstart 0
        proof { items_stop(e, *selection, *arr, (it.index@ + 1) as nat, arr@.len(), *nullability, parent); assert(*item == arr@[it.index@]); }
        let ghost b0 = buffer@;
        let ghost before = items(e, *selection, *arr, it.index@ as nat, *nullability, parent)->Ok_0->0;
        let ghost j = complete(e, *selection, *item, item_of(*nullability), parent);
//@ sec loopend 0
        proof {
            let now = items(e, *selection, *arr, (it.index@ + 1) as nat, *nullability, parent);
            assert(now == Ok::<Option<Seq<J>>, ()>(Some(before.push(j->Ok_0))));
            assert(buffer@ =~= b0 + sep(it.index@ as nat) + text(j->Ok_0));
            text_items_push(before, j->Ok_0);
            assert(text_items(now->Ok_0->0) == text_items(before) + sep(before.len()) + text(j->Ok_0));
        }
//@ end
//@ extract fn project_selection_set_with_map
//@ opt ret r
//@ opt attr #[verifier::rlimit(60)]
//@ sec spec
    requires *old(first),
    ensures ({
        let w = members(Env { vars: *variable_values, sm: *schema_metadata }, plans@, *obj, plans@.len(), name_of(parent_type_name));
        &&& r is Ok <==> w is Ok
        &&& r matches Ok(d) ==> (d is PropagateNullValue <==> w->Ok_0 is None) && final(buffer)@.len() >= old(buffer)@.len() && final(buffer)@.take(old(buffer)@.len() as int) =~= old(buffer)@
        &&& r is Ok && w->Ok_0 is Some ==> *final(first) == (w->Ok_0->0.len() == 0) && final(buffer)@ == old(buffer)@ + so_far(w->Ok_0->0)
    }),
    decreases obj, 1nat
//@ sec start
        let ghost e = Env { vars: *variable_values, sm: *schema_metadata };
        let ghost ty = name_of(parent_type_name);
        proof { so_far_none(buffer@); }
//@ sec loop 0 index i
        invariant i <= plans@.len(), __it0@ == plans@,
            e == (Env { vars: *variable_values, sm: *schema_metadata }), ty == name_of(parent_type_name),
            members(e, plans@, *obj, i as nat, ty) is Ok,
            members(e, plans@, *obj, i as nat, ty)->Ok_0 is Some,
            *first == (members(e, plans@, *obj, i as nat, ty)->Ok_0->0.len() == 0),
            buffer@ == old(buffer)@ + so_far(members(e, plans@, *obj, i as nat, ty)->Ok_0->0),
        decreases plans@.len() - i
//@ sec loopstart 0
        proof { members_stop(e, plans@, *obj, i as nat, plans@.len(), ty); assert(*plan == plans@[i - 1]); }
        let ghost b0 = buffer@;
        let ghost sh = shown(e, *plan, *obj, ty);
        let ghost fs = members(e, plans@, *obj, (i - 1) as nat, ty)->Ok_0->0;
        proof { texts(); if sh is Ok && sh->Ok_0 is Some { so_far_push(old(buffer)@, fs, plan.response_key@, sh->Ok_0->0); } }
//@ sec closure 2
|| -> (r: Result<&'a str, ProjectionError>) ensures nm(r) == type_of(*plan, deref(field_val), named(&parent_type_name), *schema_metadata)
//@ sec closure 4
|| -> (r: Result<&'a str, ProjectionError>) ensures nm(r) == named(&parent_type_name)
//@ sec before call check 0
            assert(always(parent_type_name_fn, ty));
            assert(always(field_type_name_fn, type_of(*plan, deref(field_val), ty, e.sm)));
//@ end
// ---- the whole answer ----------------------------------------------------------------------------------
pub open spec fn head() -> B { Seq::<u8>::empty() + seq![123u8] + seq![34u8] + seq![100u8, 97, 116, 97] + seq![34u8] + seq![58u8] }
pub open spec fn root(e: Env, data: Value, ps: Seq<FieldProjectionPlan>, ty: Seq<char>) -> Result<J, ()> {
    match data { Value::Object(o) => match members(e, ps, o, ps.len(), Ok(ty)) { Err(_) => Err(()), Ok(None) => Ok(J::Null), Ok(Some(s)) => Ok(J::Obj(s)) }, _ => Ok(J::Null) }
}
pub uninterp spec fn errors_json(e: Seq<GraphQLError>) -> B;
pub uninterp spec fn extensions_json(e: Extensions) -> B;
pub open spec fn part(b: B, name: B, v: B) -> B { b + seq![44u8] + seq![34u8] + name + seq![34u8] + seq![58u8] + v }
pub open spec fn with_errors(b: B, e: Seq<GraphQLError>) -> B { if e.len() == 0 { b } else { part(b, errs(), errors_json(e)) } }
pub open spec fn with_extensions(b: B, e: Extensions) -> B { if e.empty() { b } else { part(b, exts(), extensions_json(e)) } }
pub open spec fn errs() -> B { seq![101u8, 114, 114, 111, 114, 115] }
pub open spec fn exts() -> B { seq![101u8, 120, 116, 101, 110, 115, 105, 111, 110, 115] }
#[verifier::external_body] pub struct Extensions { m: u8 }
impl Extensions {
    pub uninterp spec fn empty(&self) -> bool;
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == self.empty() { unimplemented!() }
}
pub struct SonicError { pub m: u8 }
#[verifier::external_body] pub fn errors_vec(e: &Vec<GraphQLError>) -> (r: Result<Vec<u8>, ProjectionError>) ensures r is Ok ==> r->Ok_0@ == errors_json(e@) { unimplemented!() }
#[verifier::external_body] pub fn extensions_vec(e: &Extensions) -> (r: Result<Vec<u8>, ProjectionError>) ensures r is Ok ==> r->Ok_0@ == extensions_json(*e) { unimplemented!() }
pub fn b_data() -> (r: &'static [u8]) ensures r@ == seq![100u8, 97, 116, 97] { lit(&[100, 97, 116, 97]) }
pub fn b_errors() -> (r: &'static [u8]) ensures r@ == errs() { lit(&[101, 114, 114, 111, 114, 115]) }
pub fn b_extensions() -> (r: &'static [u8]) ensures r@ == exts() { lit(&[101, 120, 116, 101, 110, 115, 105, 111, 110, 115]) }
#[verifier::external_body] pub fn with_room(cap: usize) -> (r: Vec<u8>) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
//@ rewrite expr Vec::with_capacity(response_size_estimate) => with_room(response_size_estimate)
//@ rewrite expr "data".as_bytes() => b_data()
//@ rewrite expr "errors".as_bytes() => b_errors()
//@ rewrite expr "extensions".as_bytes() => b_extensions()
//@ rewrite expr sonic_rs::to_vec(&errors).map_err(|e| __e)? ==>> errors_vec(&errors)?
//@ rewrite expr sonic_rs::to_vec(extensions).map_err(|e| __e)? ==>> extensions_vec(extensions)?
//@ rewrite type &ExecutionResultExtensions<'_> => &Extensions
//@ extract fn project_by_operation
//@ opt ret r
//@ sec spec
    ensures r is Ok ==> ({
        let w = root(Env { vars: *variable_values, sm: *schema_metadata }, *data, selections@, operation_type_name@);
        &&& w is Ok
        &&& exists|es: Seq<GraphQLError>| r->Ok_0@ == with_extensions(#[trigger] with_errors(head() + text(w->Ok_0), es), *extensions) + seq![125u8]
    }),
//@ sec start
        proof { texts(); }
        let ghost e = Env { vars: *variable_values, sm: *schema_metadata };
//@ sec before call should_propagate 0
        proof { let w = members(e, selections@, *data_map, selections@.len(), Ok(operation_type_name@)); if w is Ok && w->Ok_0 is Some { obj_text(head(), w->Ok_0->0); } assert(buffer@.take(head().len() as int) =~= head() + Seq::<u8>::empty()); }
//@ sec tail
        proof {
            let w = root(e, *data, selections@, operation_type_name@);
            assert(buffer@ == with_extensions(with_errors(head() + text(w->Ok_0), errors@), *extensions) + seq![125u8]);
        }
//@ end
}
fn main() {}
