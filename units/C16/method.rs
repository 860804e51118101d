//@-- C16: what a request may do follows from its method and from what it accepts
//@ include ../lib/prelude.rs
verus! {
//@ dropmacro warn debug trace info error
pub type T = Seq<char>;
// ---- trusted: methods, headers ----------------------------------------------------------------------------------
pub enum Method { GET, POST, HEAD, OPTIONS, PUT, PATCH, DELETE, Other(String) }
impl Method { pub fn eq(&self, o: &Method) -> (r: bool) requires o is GET || o is POST ensures r == (*self == *o) { match (self, o) { (Method::GET, Method::GET) => true, (Method::POST, Method::POST) => true, _ => false } } }
#[verifier::external_body] pub fn copy_of(m: &Method) -> (r: Method) ensures r == *m { unimplemented!() }
pub struct HeaderName { pub m: u8 }
pub const ACCEPT: HeaderName = HeaderName { m: 1 };
#[verifier::external_body] pub struct HttpRequest { m: u8 }
impl HttpRequest {
    pub uninterp spec fn verb(&self) -> Method;
    pub uninterp spec fn accepts(&self) -> Option<T>; // the first Accept header, if it is readable text
    #[verifier::external_body] pub fn method(&self) -> (r: &Method) ensures *r == self.verb() { unimplemented!() }
    #[verifier::external_body] pub fn accept_text(&self) -> (r: &str) ensures r@ == (match self.accepts() { Some(t) => t, None => ""@ }) { unimplemented!() }
}
// ---- trusted: media types, and the choice among them (headers_accept) ----------------------------------------------
pub ghost struct Media { pub ty: T, pub subty: T, pub suffix: Option<T>, pub spec: Option<T> } // spec: the subscriptionSpec parameter, unquoted
#[verifier::external_body] pub struct MediaType { m: u8 }
impl View for MediaType { type V = Media; uninterp spec fn view(&self) -> Media; }
impl MediaType {
    #[verifier::external_body] pub fn typ(&self) -> (r: &str) ensures r@ == self@.ty { unimplemented!() }
    #[verifier::external_body] pub fn subtype(&self) -> (r: &str) ensures r@ == self@.subty { unimplemented!() }
    #[verifier::external_body] pub fn suffixed(&self) -> (r: Option<&str>) ensures r is Some == self@.suffix is Some, r matches Some(s) ==> s@ == self@.suffix->0 { unimplemented!() }
    #[verifier::external_body] pub fn subscription_spec_is(&self, v: &str) -> (r: bool) ensures r == (self@.spec == Some(v@)) { unimplemented!() }
}
pub fn some_is(o: Option<&str>, v: &str) -> (r: bool) ensures r == (o is Some && o->0@ == v@) { match o { Some(x) => str_eq(x, v), None => false } }
#[verifier::external_body] pub struct Accept { m: u8 }
pub uninterp spec fn parsed(t: T) -> Option<Accept>;
pub uninterp spec fn unbound(a: Accept) -> Accept; // boundaries of multipart/mixed left out
impl Accept {
    pub uninterp spec fn q(&self, m: Media) -> nat; // the quality of the most specific range that m falls under, 0 if none does
    pub uninterp spec fn pick(&self, s: Seq<Media>) -> Option<Media>;
    #[verifier::external_body] pub fn from_str(t: &str) -> (r: Result<Accept, PipelineError>) ensures r is Ok == parsed(t@) is Some, r matches Ok(a) ==> parsed(t@) == Some(a) { unimplemented!() }
    #[verifier::external_body] pub fn negotiate<'a>(&self, s: &'a Vec<MediaType>) -> (r: Option<&'a MediaType>) ensures self.pick(list(s@)) == (match r { Some(m) => Some(m@), None => None }) { unimplemented!() }
}
pub open spec fn list(s: Seq<MediaType>) -> Seq<Media> { s.map_values(|m: MediaType| m@) }
// the best of those of the list that are acceptable
pub axiom fn pick_best(a: Accept, s: Seq<Media>)
    ensures match a.pick(s) { None => forall|i: int| 0 <= i < s.len() ==> a.q(#[trigger] s[i]) == 0, Some(m) => s.contains(m) && a.q(m) > 0 && forall|i: int| 0 <= i < s.len() ==> a.q(#[trigger] s[i]) <= a.q(m) };
#[verifier::external_body] pub fn boundaries_stripped(a: Accept) -> (r: Accept) ensures r == unbound(a) { unimplemented!() }
#[verifier::external_body] pub fn has_boundary(a: &Accept) -> (r: bool) ensures !r ==> unbound(*a) == *a { unimplemented!() }
pub open spec fn json() -> Media { Media { ty: "application"@, subty: "json"@, suffix: None, spec: None } }
pub open spec fn graphql() -> Media { Media { ty: "application"@, subty: "graphql-response"@, suffix: Some("json"@), spec: None } }
pub open spec fn mixed() -> Media { Media { ty: "multipart"@, subty: "mixed"@, suffix: None, spec: None } }
pub open spec fn apollo() -> Media { Media { ty: "multipart"@, subty: "mixed"@, suffix: None, spec: Some("1.0"@) } }
pub open spec fn sse() -> Media { Media { ty: "text"@, subty: "event-stream"@, suffix: None, spec: None } }
pub open spec fn html() -> Media { Media { ty: "text"@, subty: "html"@, suffix: None, spec: None } }
pub open spec fn singles() -> Seq<Media> { seq![json(), graphql()] }
pub open spec fn streams() -> Seq<Media> { seq![mixed(), sse(), apollo()] }
#[verifier::external_body] pub fn all_types() -> (r: &'static Vec<MediaType>) ensures list(r@) == singles() + streams() + seq![html()] { unimplemented!() }
#[verifier::external_body] pub fn is_html(m: &MediaType) -> (r: bool) ensures r == (m@ == html()) { unimplemented!() }
pub enum PipelineError { Client(ClientPipelineError) }
pub fn client(e: ClientPipelineError) -> (r: PipelineError) ensures r == PipelineError::Client(e) { PipelineError::Client(e) }
pub enum ClientPipelineError { UnsupportedHttpMethod(Method), InvalidHeaderValue(HeaderName), UnsupportedContentType, MutationNotAllowedOverHttpGet, SubscriptionsNotSupported, Decoding }
//@ file bin/router/src/pipeline/header.rs
//@ extract enum SingleContentType
//@ opt derive
//@ end
//@ extract enum StreamContentType
//@ opt derive
//@ end
//@ extract enum ResponseMode
//@ opt derive
//@ end
pub open spec fn single_of(m: Media) -> Option<SingleContentType> { if m.ty == "application"@ && m.subty == "graphql-response"@ && m.suffix == Some("json"@) { Some(SingleContentType::GraphQLResponseJSON) } else if m.ty == "application"@ && m.subty == "json"@ && m.suffix is None { Some(SingleContentType::JSON) } else { None } }
pub open spec fn stream_of(m: Media) -> Option<StreamContentType> { if m.ty == "multipart"@ && m.subty == "mixed"@ { Some(if m.spec == Some("1.0"@) { StreamContentType::ApolloMultipartHTTP } else { StreamContentType::IncrementalDelivery }) } else if m.ty == "text"@ && m.subty == "event-stream"@ { Some(StreamContentType::SSE) } else { None } }
//@ rewrite type MediaType<'_> => MediaType
//@ rewrite expr media_type.ty.as_str() ==>> media_type.typ()
//@ rewrite expr media_type.subty.as_str() ==>> media_type.subtype()
//@ rewrite expr media_type.suffix.as_ref().map(|s| s.as_str()) ==>> media_type.suffixed()
//@ rewrite expr media_type.get_param(Name::new_unchecked("subscriptionSpec")).is_some_and(|s| s.unquoted_str() == "1.0") ==>> media_type.subscription_spec_is("1.0")
//@ rewrite expr suffix == Some("json") ==>> some_is(suffix, "json")
//@ rewrite type Self::Error => &'static str
//@ extract method TryFrom for SingleContentType::try_from
//@ opt ret r
//@ sec spec
    ensures r is Ok == single_of(media_type@) is Some, r matches Ok(x) ==> Some(x) == single_of(media_type@)
//@ end
//@ extract method TryFrom for StreamContentType::try_from
//@ opt ret r
//@ sec spec
    ensures r is Ok == stream_of(media_type@) is Some, r matches Ok(x) ==> Some(x) == stream_of(media_type@)
//@ end
pub fn as_single(m: Option<&MediaType>) -> (r: Option<SingleContentType>) ensures r == (match m { Some(m) => single_of(m@), None => None }) { match m { Some(m) => match SingleContentType::try_from(m) { Ok(x) => Some(x), Err(_) => None }, None => None } }
pub fn as_stream(m: Option<&MediaType>) -> (r: Option<StreamContentType>) ensures r == (match m { Some(m) => stream_of(m@), None => None }) { match m { Some(m) => match StreamContentType::try_from(m) { Ok(x) => Some(x), Err(_) => None }, None => None } }
#[verifier::external_body] pub fn single_types() -> (r: &'static Vec<MediaType>) ensures list(r@) == singles() { unimplemented!() }
#[verifier::external_body] pub fn stream_types() -> (r: &'static Vec<MediaType>) ensures list(r@) == streams() { unimplemented!() }
//@ extract method ResponseMode::can_single
//@ opt ret r
//@ sec spec
    ensures r == (self is SingleOnly || self is Dual)
//@ end
//@ extract method ResponseMode::single_content_type
//@ opt ret r
//@ sec spec
    ensures r is Some == (self is SingleOnly || self is Dual), r matches Some(x) ==> *x == (match *self { ResponseMode::SingleOnly(s) => s, ResponseMode::Dual(s, _) => s, _ => *x })
//@ end
//@ extract method ResponseMode::can_stream
//@ opt ret r
//@ sec spec
    ensures r == (self is StreamOnly || self is Dual)
//@ end
//@ extract method ResponseMode::stream_content_type
//@ opt ret r
//@ sec spec
    ensures r is Some == (self is StreamOnly || self is Dual), r matches Some(x) ==> *x == (match *self { ResponseMode::StreamOnly(s) => s, ResponseMode::Dual(_, s) => s, _ => *x })
//@ end
//@ extract method ResponseMode::prefer_status_ok_for_errors
//@ opt ret r
//@ sec spec
    ensures r == ((self matches ResponseMode::SingleOnly(s) && s is JSON) || (self matches ResponseMode::Dual(s, _) && s is JSON))
//@ end
// ---- the agreed mode ------------------------------------------------------------------------------------------
pub open spec fn wish(t: Option<T>) -> T { match t { Some(x) => if x == ""@ { "*/*"@ } else { x }, None => "*/*"@ } }
pub open spec fn agreed_single(a: Accept) -> Option<SingleContentType> { match a.pick(singles()) { Some(m) => single_of(m), None => None } }
pub open spec fn agreed_stream(a: Accept) -> Option<StreamContentType> { match a.pick(streams()) { Some(m) => stream_of(m), None => None } }
pub open spec fn mode(a: Accept, lab: bool, get: bool) -> Option<ResponseMode> {
    if lab && get && a.pick(singles() + streams() + seq![html()]) == Some(html()) { Some(ResponseMode::Laboratory) }
    else { match (agreed_single(a), agreed_stream(a)) { (Some(s), Some(t)) => Some(ResponseMode::Dual(s, t)), (Some(s), None) => Some(ResponseMode::SingleOnly(s)), (None, Some(t)) => Some(ResponseMode::StreamOnly(t)), (None, None) => None } }
}
//@ rewrite expr self.headers().get(ACCEPT).and_then(|value| value.to_str().ok()).unwrap_or_default() ==>> self.accept_text()
//@ rewrite expr accept_header.is_empty() ==>> str_eq(accept_header, "")
//@ rewrite expr Accept::from_str(accept_header).map_err(__f) ==>> Accept::from_str(accept_header)
//@ rewrite expr accept.media_types().any(__f) ==>> has_boundary(&accept)
//@ rewrite expr accept.media_types().map(__f).collect::<Accept>() ==>> boundaries_stripped(accept)
//@ rewrite expr Name::new_unchecked("boundary") ==>> ()
//@ rewrite expr self.method() == Method::GET ==>> self.method().eq(&Method::GET)
//@ rewrite expr accept.negotiate(ALL_RESPONSE_MODES_CONTENT_TYPE_MEDIA_TYPES.iter()).is_some_and(|t| *t == HTML_MEDIA_TYPE) ==>> opt_is_some_and(accept.negotiate(all_types()), |t: &MediaType| -> (b: bool) ensures b == (t@ == html()) { is_html(t) })
//@ rewrite expr accept.negotiate(SingleContentType::media_types().iter()).and_then(__f) ==>> as_single(accept.negotiate(single_types()))
//@ rewrite expr accept.negotiate(StreamContentType::media_types().iter()).and_then(__f) ==>> as_stream(accept.negotiate(stream_types()))
//@ rewrite expr ClientPipelineError::UnsupportedContentType.into() ==>> client(ClientPipelineError::UnsupportedContentType)
//@ extract method RequestAccepts for HttpRequest::negotiate
//@ opt ret r
//@ sec spec
    ensures match parsed(wish(self.accepts())) {
        None => r is Err,
        Some(p) => match mode(unbound(p), laboratory_enabled, self.verb() is GET) { Some(m) => r == Ok::<ResponseMode, PipelineError>(m), None => r is Err },
    }
//@ end
//@ norules
// theorem: the agreed formats are acceptable, and none the router has is more welcome; nothing is agreed only if nothing is acceptable
pub proof fn agreed_is_accepted(a: Accept, lab: bool, get: bool)
    ensures
        mode(a, lab, get) matches Some(m) ==> match m {
            ResponseMode::SingleOnly(s) => welcome(a, of_single(s), singles()) && none_of(a, streams()),
            ResponseMode::StreamOnly(t) => none_of(a, singles()) && welcome(a, of_stream(t), streams()),
            ResponseMode::Dual(s, t) => welcome(a, of_single(s), singles()) && welcome(a, of_stream(t), streams()),
            ResponseMode::Laboratory => lab && get && welcome(a, html(), singles() + streams() + seq![html()]),
        },
        mode(a, lab, get) is None ==> none_of(a, singles()) && none_of(a, streams()),
{
    reveal_strlit("application"); reveal_strlit("json"); reveal_strlit("graphql-response"); reveal_strlit("multipart"); reveal_strlit("mixed"); reveal_strlit("text"); reveal_strlit("event-stream"); reveal_strlit("1.0"); reveal_strlit("html");
    pick_best(a, singles()); pick_best(a, streams()); pick_best(a, singles() + streams() + seq![html()]);
    assert("application"@.len() == 11 && "multipart"@.len() == 9 && "text"@.len() == 4 && "json"@.len() == 4 && "graphql-response"@.len() == 16 && "mixed"@.len() == 5 && "event-stream"@.len() == 12);
    assert(single_of(json()) == Some(SingleContentType::JSON)); assert(single_of(graphql()) == Some(SingleContentType::GraphQLResponseJSON));
    assert(stream_of(mixed()) == Some(StreamContentType::IncrementalDelivery)); assert(stream_of(apollo()) == Some(StreamContentType::ApolloMultipartHTTP)); assert(stream_of(sse()) == Some(StreamContentType::SSE));
    if let Some(m) = a.pick(singles()) { let i = choose|i: int| 0 <= i < 2 && singles()[i] == m; assert(m == json() || m == graphql()); }
    if let Some(m) = a.pick(streams()) { let i = choose|i: int| 0 <= i < 3 && streams()[i] == m; assert(m == mixed() || m == sse() || m == apollo()); }
}
pub open spec fn of_single(s: SingleContentType) -> Media { match s { SingleContentType::JSON => json(), SingleContentType::GraphQLResponseJSON => graphql() } }
pub open spec fn of_stream(s: StreamContentType) -> Media { match s { StreamContentType::IncrementalDelivery => mixed(), StreamContentType::SSE => sse(), StreamContentType::ApolloMultipartHTTP => apollo() } }
pub open spec fn welcome(a: Accept, m: Media, s: Seq<Media>) -> bool { a.q(m) > 0 && forall|i: int| 0 <= i < s.len() ==> a.q(#[trigger] s[i]) <= a.q(m) }
pub open spec fn none_of(a: Accept, s: Seq<Media>) -> bool { forall|i: int| 0 <= i < s.len() ==> a.q(#[trigger] s[i]) == 0 }
// ---- what the method lets through ------------------------------------------------------------------------------
#[verifier::external_body] pub struct Decoder { m: u8 }
#[verifier::external_body] pub struct PreparedOperation { m: u8 }
//@ file bin/router/src/query_planner/state/supergraph_state.rs
//@ extract enum OperationKind
//@ opt derive
//@ end
pub struct OperationDefinition { pub operation_kind: Option<OperationKind> }
pub struct Normalized { pub operation_for_plan: OperationDefinition }
//@ file bin/router/src/pipeline/mod.rs
//@ rewrite expr req.method() == Method::GET ==>> req.method().eq(&Method::GET)
//@ rewrite expr ClientPipelineError::MutationNotAllowedOverHttpGet.into() ==>> client(ClientPipelineError::MutationNotAllowedOverHttpGet)
//@ extract if with MutationNotAllowedOverHttpGet of fn graphql_request_handler as get_is_safe
//@ opt params req: &HttpRequest, normalize_payload: &Normalized
//@ opt returns Result<(), PipelineError>
//@ opt tail Ok(())
//@ opt ret r
//@ sec spec
    ensures r is Err == (req.verb() is GET && normalize_payload.operation_for_plan.operation_kind == Some(OperationKind::Mutation))
//@ end
//@ rewrite expr ClientPipelineError::UnsupportedContentType.into() ==>> client(ClientPipelineError::UnsupportedContentType)
//@ extract if with can_single of fn graphql_request_handler as single_is_possible
//@ opt params is_subscription: bool, response_mode: &ResponseMode
//@ opt returns Result<(), PipelineError>
//@ opt tail Ok(())
//@ opt ret r
//@ sec spec
    ensures r is Err == (!is_subscription && !(response_mode is SingleOnly || response_mode is Dual))
//@ end
//@ rewrite expr shared_state.router_config.subscriptions.enabled ==>> *enabled
//@ rewrite expr ClientPipelineError::SubscriptionsNotSupported.into() ==>> client(ClientPipelineError::SubscriptionsNotSupported)
//@ extract if with SubscriptionsNotSupported of fn graphql_request_handler as subscription_is_possible
//@ opt params is_subscription: bool, enabled: &bool, response_mode: &ResponseMode
//@ opt returns Result<(), PipelineError>
//@ opt tail Ok(())
//@ opt ret r
//@ sec spec
    ensures r is Err == (is_subscription && (!*enabled || !(response_mode is StreamOnly || response_mode is Dual)))
//@ end
//@ norules
//@ file bin/router/src/pipeline/execution_request.rs
pub struct GraphQLParams { pub m: u8 }
pub struct OperationPreparation<'a> { pub req: &'a HttpRequest }
impl<'a> OperationPreparation<'a> {
    pub uninterp spec fn from_url(&self) -> Result<PreparedOperation, PipelineError>;
    pub uninterp spec fn from_body(&self) -> Result<PreparedOperation, PipelineError>;
    #[verifier::external_body] pub fn decode_get(&self) -> (r: Result<PreparedOperation, PipelineError>) ensures r == self.from_url() { unimplemented!() }
    #[verifier::external_body] pub fn decode_post(&self) -> (r: Result<PreparedOperation, PipelineError>) ensures r == self.from_body() { unimplemented!() }
}
#[verifier::external_body] pub fn given(p: GraphQLParams) -> (r: PreparedOperation) { unimplemented!() }
//@ rewrite expr PreparedOperation::from_graphql_params(graphql_params,__a,__b,None,None) ==>> given(graphql_params)
//@ rewrite expr self.req.method().to_owned() ==>> copy_of(self.req.method())
//@ rewrite expr ClientPipelineError::UnsupportedHttpMethod(__m).into() => client(ClientPipelineError::UnsupportedHttpMethod(__m))
//@ extract method OperationPreparation::decode_or_use_graphql_params
//@ opt ret r
//@ opt implty OperationPreparation<'a>
//@ opt implgenerics <'a>
//@ sec spec
    ensures graphql_params_override is None ==> match self.req.verb() {
        Method::GET => r == self.from_url(),
        Method::POST => r == self.from_body(),
        m => r == Err::<PreparedOperation, PipelineError>(PipelineError::Client(ClientPipelineError::UnsupportedHttpMethod(m))),
    }
//@ end
} // verus!
fn main() {}
