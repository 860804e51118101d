//@-- C16: how a request that fails is answered
//@ include ../lib/prelude.rs
verus! {
//@ dropmacro warn debug trace info error
pub type T = Seq<char>;
#[derive(Clone, Copy)] pub struct StatusCode { pub code: u16 }
impl StatusCode {
    pub const OK: StatusCode = StatusCode { code: 200 };
    pub const BAD_REQUEST: StatusCode = StatusCode { code: 400 };
    pub const UNAUTHORIZED: StatusCode = StatusCode { code: 401 };
    pub const FORBIDDEN: StatusCode = StatusCode { code: 403 };
    pub const NOT_FOUND: StatusCode = StatusCode { code: 404 };
    pub const METHOD_NOT_ALLOWED: StatusCode = StatusCode { code: 405 };
    pub const NOT_ACCEPTABLE: StatusCode = StatusCode { code: 406 };
    pub const REQUEST_TIMEOUT: StatusCode = StatusCode { code: 408 };
    pub const PAYLOAD_TOO_LARGE: StatusCode = StatusCode { code: 413 };
    pub const UNSUPPORTED_MEDIA_TYPE: StatusCode = StatusCode { code: 415 };
    pub const UNPROCESSABLE_ENTITY: StatusCode = StatusCode { code: 422 };
    pub const TOO_MANY_REQUESTS: StatusCode = StatusCode { code: 429 };
    pub const REQUEST_HEADER_FIELDS_TOO_LARGE: StatusCode = StatusCode { code: 431 };
    pub const INTERNAL_SERVER_ERROR: StatusCode = StatusCode { code: 500 };
    pub const BAD_GATEWAY: StatusCode = StatusCode { code: 502 };
    pub const SERVICE_UNAVAILABLE: StatusCode = StatusCode { code: 503 };
    pub const GATEWAY_TIMEOUT: StatusCode = StatusCode { code: 504 };
    pub open spec fn failed(self) -> bool { 400 <= self.code < 600 }
}
pub mod http { pub use crate::StatusCode; }
pub mod ntex { pub mod http { pub use crate::StatusCode; } }
#[verifier::external_body] pub struct Opaque { m: u8 }
pub uninterp spec fn client_text(e: ClientPipelineError) -> T; // the Display of an error of the client's own making
#[verifier::external_body] pub fn client_display(e: &ClientPipelineError) -> (r: String) ensures r@ == client_text(*e) { unimplemented!() }
#[verifier::external_body] pub fn own(s: &str) -> (r: String) ensures r@ == s@ { s.to_string() }
//@ file bin/router/src/jwt/errors.rs
//@ rewrite type Vec<JwtError> => Vec<Opaque>
//@ rewrite type LookupError => Opaque
//@ rewrite type jsonwebtoken::errors::Error => Opaque
//@ rewrite type KeyAlgorithm => Opaque
//@ extract enum JwtError
//@ opt derive
//@ end
//@ extract method JwtError::status_code
//@ opt ret r
//@ sec spec
    ensures r.failed(), self is LookupFailed ==> r.code == 401
//@ end
//@ norules
//@ file bin/router/src/http_utils/body.rs
//@ rewrite type PayloadError => Opaque
//@ extract enum ReadBodyStreamError
//@ opt derive
//@ end
//@ extract method ReadBodyStreamError::status_code
//@ opt ret r
//@ sec spec
    ensures r.failed(), (self is PayloadTooLargeContentLength || self is PayloadTooLargeBodyStream) ==> r.code == 413
//@ end
//@ norules
pub struct CoprocessorError { m: Opaque }
//@ file bin/router/src/executor/coprocessor/error.rs
//@ extract method CoprocessorError::status_code
//@ opt ret r
//@ sec spec
    ensures r.code == 500
//@ end
//@ norules
//@ file bin/router/src/pipeline/error.rs
//@ rewrite type Method => Opaque
//@ rewrite type HeaderName => Opaque
//@ rewrite type QueryPayloadError => Opaque
//@ rewrite type sonic_rs::Error => Opaque
//@ rewrite type Arc<graphql_tools::parser::query::ParseError> => Opaque
//@ rewrite type Arc<NormalizationError> => Opaque
//@ rewrite type VariableCoercionError => Opaque
//@ rewrite type Arc<Vec<ValidationError>> => Opaque
//@ rewrite type Vec<AuthorizationError> => Opaque
//@ rewrite type PipelineErrorAdditionalHeaders => Opaque
//@ rewrite type Arc<PlannerError> => Opaque
//@ rewrite type PlanExecutionError => Opaque
//@ rewrite type LabelEvaluationError => Opaque
//@ rewrite type JwtForwardingError => Opaque
//@ rewrite type ProgramResolutionError<BooleanConversionError> => Opaque
//@ rewrite type HeaderRuleRuntimeError => Opaque
//@ rewrite type RequestContextError => Opaque
//@ rewrite type OperationFilterError => Opaque
//@ rewrite type RouterSupergraphRuntimeError => Opaque
//@ extract enum ClientPipelineError
//@ opt derive
//@ end
//@ extract enum InternalPipelineError
//@ opt derive
//@ end
//@ extract enum PipelineError
//@ opt derive
//@ end
// a failure never looks like success, but to clients that take application/json alone, who may get 200
// (never for what has to do with access, methods or formats)
pub open spec fn always(e: ClientPipelineError) -> Option<u16> {
    match e {
        ClientPipelineError::UnsupportedHttpMethod(_) | ClientPipelineError::MutationNotAllowedOverHttpGet => Some(405),
        ClientPipelineError::CsrfPreventionFailed | ClientPipelineError::AuthorizationFailed(_) | ClientPipelineError::IntrospectionDisabled => Some(403),
        ClientPipelineError::UnsupportedContentType | ClientPipelineError::SubscriptionsNotSupported => Some(415),
        ClientPipelineError::RequestHeadersTooLarge => Some(431),
        ClientPipelineError::TimeoutError => Some(504),
        ClientPipelineError::FailedToParseBody(_) | ClientPipelineError::FailedToParseVariables(_) | ClientPipelineError::FailedToParseExtensions(_) => Some(400),
        _ => None,
    }
}
//@ extract method ClientPipelineError::default_status_code
//@ opt ret r
//@ sec spec
    ensures r.failed() || (prefer_ok && r.code == 200), always(*self) matches Some(c) ==> r.code == c, self is JwtError ==> r.failed(), self is ReadBodyStreamError ==> r.failed()
//@ end
//@ extract method InternalPipelineError::default_status_code
//@ opt ret r
//@ sec spec
    ensures 500 <= r.code < 600 || (prefer_ok && r.code == 200), self is NoSupergraphAvailable ==> r.code == 503
//@ end
//@ extract method PipelineError::default_status_code
//@ opt ret r
//@ sec spec
    ensures r.failed() || (prefer_ok && r.code == 200), (match *self { PipelineError::Client(c) => match always(c) { Some(k) => r.code == k, None => true }, _ => true })
//@ end
//@ rewrite expr err.to_string() ==>> client_display(err)
//@ rewrite expr "Internal server error".to_string() ==>> own("Internal server error")
// nothing of the router's own failures is shown
//@ extract method PipelineError::graphql_error_message
//@ opt ret r
//@ sec spec
    ensures r@ == (match self { PipelineError::Client(e) => client_text(*e), PipelineError::Internal(_) => "Internal server error"@ })
//@ end
} // verus!
fn main() {}
