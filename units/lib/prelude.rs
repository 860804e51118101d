use vstd::prelude::*;
verus! {
// ---- verified shims: std combinators Verus has no specification for, as functions that are
// ---- themselves verified here (no trust involved)
pub fn opt_is_some_and<T, F: FnOnce(T) -> bool>(o: Option<T>, f: F) -> (r: bool)
    requires o matches Some(x) ==> f.requires((x,)),
    ensures o is None ==> !r, o matches Some(x) ==> f.ensures((x,), r),
{
    match o { Some(x) => f(x), None => false }
}
pub fn slice_any<T, F: Fn(&T) -> bool>(s: &[T], f: F) -> (r: bool)
    requires forall|i: int| 0 <= i < s@.len() ==> call_requires(f, (&#[trigger] s@[i],)),
    ensures
        r ==> exists|i: int| 0 <= i < s@.len() && call_ensures(f, (&#[trigger] s@[i],), true),
        !r ==> forall|i: int| 0 <= i < s@.len() ==> call_ensures(f, (&#[trigger] s@[i],), false),
{
    let mut k: usize = 0;
    while k < s.len()
        invariant k <= s@.len(), forall|i: int| 0 <= i < s@.len() ==> call_requires(f, (&#[trigger] s@[i],)),
            forall|i: int| 0 <= i < k ==> call_ensures(f, (&#[trigger] s@[i],), false),
        decreases s@.len() - k,
    {
        if f(&s[k]) { return true; }
        k += 1;
    }
    false
}
pub fn slice_all<T, F: Fn(&T) -> bool>(s: &[T], f: F) -> (r: bool)
    requires forall|i: int| 0 <= i < s@.len() ==> call_requires(f, (&#[trigger] s@[i],)),
    ensures
        !r ==> exists|i: int| 0 <= i < s@.len() && call_ensures(f, (&#[trigger] s@[i],), false),
        r ==> forall|i: int| 0 <= i < s@.len() ==> call_ensures(f, (&#[trigger] s@[i],), true),
{
    let mut k: usize = 0;
    while k < s.len()
        invariant k <= s@.len(), forall|i: int| 0 <= i < s@.len() ==> call_requires(f, (&#[trigger] s@[i],)),
            forall|i: int| 0 <= i < k ==> call_ensures(f, (&#[trigger] s@[i],), true),
        decreases s@.len() - k,
    {
        if !f(&s[k]) { return false; }
        k += 1;
    }
    true
}
// trusted: str equality compares the characters
#[verifier::external_body]
pub fn str_eq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { a == b }
// trusted: a `str` is determined by its characters
pub broadcast axiom fn axiom_str_ext(a: &str, b: &str) ensures #[trigger] a@ == #[trigger] b@ ==> a == b;
} // verus!
