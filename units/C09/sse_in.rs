//@-- C09: the events of a subgraph's text/event-stream
//@ include ../lib/prelude.rs
verus! {
//@ dropmacro warn debug trace info error
//@ include ../lib/stream.rs
//@ include ../lib/text.rs
//@ file bin/router/src/executor/executors/sse.rs
//@ extract const MAX_BUFFER_SIZE
//@ end
//@ extract enum ParseError
//@ end
//@ extract struct SubgraphSseEvent
//@ end
// ---- where an event ends: a line end followed by an empty line -----------------------------------------------
pub open spec fn ends(b: Seq<u8>, i: int) -> Option<int> {
    if !(0 <= i < b.len()) || b[i] != 10 { None }
    else if i + 1 < b.len() && b[i + 1] == 10 { Some(i + 2) }
    else if i + 2 < b.len() && b[i + 1] == 13 && b[i + 2] == 10 { Some(i + 3) }
    else { None }
}
pub open spec fn boundary_from(b: Seq<u8>, i: int) -> Option<int> decreases b.len() - i {
    if i >= b.len() { None } else if ends(b, i) is Some { ends(b, i) } else { boundary_from(b, i + 1) }
}
pub open spec fn event_end(b: Seq<u8>) -> Option<int> { boundary_from(b, 0) }
pub proof fn lemma_boundary_from(b: Seq<u8>, i: int, k: int)
    requires 0 <= i <= k <= b.len(), forall|j: int| i <= j < k ==> ends(b, j) is None
    ensures boundary_from(b, i) == boundary_from(b, k) decreases k - i
{ if i < k { lemma_boundary_from(b, i + 1, k); } }
pub proof fn lemma_boundary_within(b: Seq<u8>, i: int) requires 0 <= i ensures boundary_from(b, i) matches Some(k) ==> i < k <= b.len() decreases b.len() - i
{ if i < b.len() && ends(b, i) is None { lemma_boundary_within(b, i + 1); } }
//@ extract fn find_sse_event_boundary
//@ opt ret r
//@ sec spec
    ensures match r { Some(k) => event_end(buffer@) == Some(k as int) && 0 < k <= buffer@.len(), None => event_end(buffer@) is None }
//@ sec loop 0
    invariant forall|j: int| 0 <= j < i ==> ends(buffer@, j) is None
//@ sec loopstart 0
    proof { lemma_boundary_from(buffer@, 0, i as int); lemma_boundary_within(buffer@, 0); }
//@ sec tail
    proof { lemma_boundary_from(buffer@, 0, buffer@.len() as int); }
//@ end
// ---- what an event says ------------------------------------------------------------------------------------------
pub struct Event { pub event: Option<T>, pub data: T }
pub open spec fn say(ev: Option<T>, data: Seq<T>) -> Option<Event> { if ev is Some || data.len() > 0 { Some(Event { event: ev, data: with_newlines(data) }) } else { None } }
pub open spec fn colon(l: T) -> int { choose|i: int| first(l, ':', i) }
pub open spec fn ev_after(l: T, ev: Option<T>) -> Option<T> { if l.len() > 0 && l[0] != ':' && l.contains(':') && l.take(colon(l)) == "event"@ { Some(trimmed(l.skip(colon(l) + 1))) } else { ev } }
pub open spec fn data_after(l: T, d: Seq<T>) -> Seq<T> { if l.len() > 0 && l[0] != ':' && l.contains(':') && l.take(colon(l)) == "data"@ { d.push(trimmed(l.skip(colon(l) + 1))) } else { d } }
pub open spec fn read(ls: Seq<T>, k: int, ev: Option<T>, data: Seq<T>) -> Option<Event> decreases ls.len() - k {
    if k >= ls.len() { say(ev, data) }
    else if ls[k].len() == 0 && say(ev, data) is Some { say(ev, data) }
    else { read(ls, k + 1, ev_after(ls[k], ev), data_after(ls[k], data)) }
}
pub enum Said { Unreadable, Nothing, Event(Event) }
pub open spec fn said(raw: Seq<u8>) -> Said { match utf8(raw) { None => Said::Unreadable, Some(t) => match read(lines_of(t), 0, None, Seq::empty()) { None => Said::Nothing, Some(e) => Said::Event(e) } } }
pub open spec fn seen(e: SubgraphSseEvent) -> Event { Event { event: opt_text(e.event), data: e.data@ } }
pub proof fn lemma_colon(l: T, i: int) requires first(l, ':', i) ensures colon(l) == i { let c = colon(l); assert(first(l, ':', c)); if c < i { assert(l[c] != ':'); } if i < c { assert(l[i] != ':'); } }
pub proof fn lemma_colon_all(l: T) ensures forall|i: int| #[trigger] first(l, ':', i) ==> colon(l) == i, off(l, 0) == 0,
    forall|i: int, j: int| 0 <= i && 0 <= j && #[trigger] off(l, i) == #[trigger] off(l, j) ==> i == j,
    forall|i: int| #[trigger] first(l, ':', i) ==> off(l, i + 1) == off(l, i) + 1
{
    assert forall|i: int| #[trigger] first(l, ':', i) implies colon(l) == i by { lemma_colon(l, i); }
    assert forall|i: int, j: int| 0 <= i && 0 <= j && #[trigger] off(l, i) == #[trigger] off(l, j) implies i == j by { if i < j { lemma_off(l, i, j); } else if j < i { lemma_off(l, j, i); } }
}
pub fn read_text(b: &[u8]) -> (r: Result<&str, ParseError>) ensures r is Ok == utf8(b@) is Some, r matches Ok(s) ==> s@ == utf8(b@)->0 { match text_of(b) { Ok(s) => Ok(s), Err(e) => Err(ParseError::InvalidUtf8(e.to_string())) } }
//@ rewrite expr std::str::from_utf8(raw).map_err(|e| ParseError::InvalidUtf8(e.to_string())) => read_text(raw)
//@ rewrite expr text.lines() => split_lines(text)
//@ rewrite expr line.is_empty() => no_text(line)
//@ rewrite expr line.starts_with(':') => starts_char(line, ':')
//@ rewrite expr line.find(':') => find_char(line, ':')
//@ rewrite expr &line[..__a] => str_to(line, __a)
//@ rewrite expr &line[__a..] => str_from(line, __a)
//@ rewrite expr value.trim() => trim(value)
//@ rewrite expr value.to_string() => owned(value)
//@ rewrite expr current_data_lines.join("\n") => join_lines(&current_data_lines)
//@ rewrite expr match field { "event" => __a, "data" => __b, _ => __c } ==>> if str_eq(field, "event") __a else if str_eq(field, "data") __b else __c
//@ extract fn parse
//@ opt ret r
//@ sec spec
    ensures match r { Err(_) => said(raw@) is Unreadable, Ok(None) => said(raw@) is Nothing, Ok(Some(e)) => said(raw@) == Said::Event(seen(e)) }
//@ sec loop 0 iter it
    invariant it.seq().len() == lines_of(text@).len(), forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i])@ == lines_of(text@)[i], utf8(raw@) == Some(text@),
        read(lines_of(text@), 0, None, Seq::empty()) == read(lines_of(text@), it.index@ as int, opt_text(current_event), texts(current_data_lines@))
//@ sec loopstart 0
    let ghost (ev0, da0) = (opt_text(current_event), texts(current_data_lines@));
    let ghost l = line@;
    proof {
        assert(l == lines_of(text@)[it.index@ as int]);
        lemma_colon_all(l);
        reveal_strlit("event"); reveal_strlit("data"); assert("event"@.len() == 5 && "data"@.len() == 4);
    }
//@ sec loopfinal 0
    proof {
        assert(opt_text(current_event) == ev_after(l, ev0));
        assert(texts(current_data_lines@) =~= data_after(l, da0));
    }
//@ sec before-loop 0
    assert(texts(current_data_lines@) =~= Seq::<T>::empty());
//@ end
// ---- the stream: every complete event, in order, whatever the chunks ------------------------------------------------
pub enum Item { Response(SubgraphResponse), Failed }
pub open spec fn item(r: Result<SubgraphResponse, ParseError>) -> Item { match r { Ok(x) => Item::Response(x), Err(_) => Item::Failed } }
pub open spec fn items(v: Seq<Result<SubgraphResponse, ParseError>>) -> Seq<Item> { Seq::new(v.len(), |i: int| item(v[i])) }
// what one event makes of the stream: an item or nothing, and whether it ends there
pub open spec fn step(raw: Seq<u8>, p: Option<CustomScalarPaths>) -> (Seq<Item>, bool) {
    match said(raw) {
        Said::Unreadable => (seq![Item::Failed], true),
        Said::Nothing => (Seq::empty(), false),
        Said::Event(e) => if e.event == Some("next"@) && e.data.len() > 0 {
            match response_of(encoded(e.data), p) { Some(x) => (seq![Item::Response(x)], false), None => (seq![Item::Failed], true) }
        } else { (Seq::empty(), e.event == Some("complete"@)) }
    }
}
pub open spec fn run(b: Seq<u8>, fs: Seq<Frame>, p: Option<CustomScalarPaths>) -> Seq<Item> decreases fs.len(), b.len() {
    match event_end(b) {
        Some(k) => if 0 < k <= b.len() { let (i, stop) = step(b.take(k), p); if stop { i } else { i + run(b.skip(k), fs, p) } } else { Seq::empty() }
        None => if fs.len() == 0 { Seq::empty() } else { match fs[0] {
            Frame::Broken => seq![Item::Failed],
            Frame::Trailers => run(b, fs.skip(1), p),
            Frame::Data(d) => if b.len() + d.len() > MAX_BUFFER_SIZE { seq![Item::Failed] } else { run(b + d, fs.skip(1), p) }
        } }
    }
}
pub open spec fn whole(fs: Seq<Frame>) -> Seq<u8> decreases fs.len() { if fs.len() == 0 { Seq::empty() } else { (match fs[0] { Frame::Data(d) => d, _ => Seq::empty() }) + whole(fs.skip(1)) } }
pub proof fn lemma_boundary_stays(a: Seq<u8>, d: Seq<u8>, i: int)
    requires 0 <= i, boundary_from(a, i) is Some ensures boundary_from(a + d, i) == boundary_from(a, i) decreases a.len() - i
{
    if i < a.len() {
        if ends(a, i) is Some { assert(ends(a + d, i) == ends(a, i)); }
        else {
            lemma_boundary_stays(a, d, i + 1);
            // a later event end in `a` leaves two bytes after i in `a`
            lemma_end_later(a, i + 1);
            assert(ends(a + d, i) is None);
        }
    }
}
pub proof fn lemma_end_later(a: Seq<u8>, i: int) requires 0 <= i, boundary_from(a, i) is Some ensures i + 1 < a.len(), a[i] != 13 || i + 2 < a.len() decreases a.len() - i
{ if i < a.len() && ends(a, i) is None { lemma_end_later(a, i + 1); } }
// THE PROPERTY: however the bytes are cut into chunks, the same items come out, in the same order
pub proof fn chunks_do_not_matter(b: Seq<u8>, fs: Seq<Frame>, p: Option<CustomScalarPaths>)
    requires forall|i: int| 0 <= i < fs.len() ==> !((#[trigger] fs[i]) is Broken), b.len() + whole(fs).len() <= MAX_BUFFER_SIZE
    ensures run(b, fs, p) == run(b + whole(fs), Seq::empty(), p)
    decreases fs.len(), b.len()
{
    let w = whole(fs);
    match event_end(b) {
        Some(k) => {
            lemma_boundary_within(b, 0); lemma_boundary_stays(b, w, 0);
            assert((b + w).take(k) =~= b.take(k)); assert((b + w).skip(k) =~= b.skip(k) + w);
            if !step(b.take(k), p).1 { chunks_do_not_matter(b.skip(k), fs, p); }
        }
        None => if fs.len() > 0 {
            let rest = fs.skip(1);
            assert forall|i: int| 0 <= i < rest.len() implies !((#[trigger] rest[i]) is Broken) by { assert(rest[i] == fs[i + 1]); }
            match fs[0] {
                Frame::Data(d) => { assert(b + w =~= (b + d) + whole(rest)); chunks_do_not_matter(b + d, rest, p); }
                _ => { assert(w =~= whole(rest)); chunks_do_not_matter(b, rest, p); }
            }
        } else { assert(b + w =~= b); }
    }
}
//@ rewrite expr stream_body(__x) => __x
//@ rewrite expr Box::pin(stream) => stream
//@ rewrite expr yields(__x) => out.emit(__x)
//@ rewrite expr body.frame().await => body.frame()
//@ rewrite expr buffer.drain(..boundary).collect() => drain_front(&mut buffer, boundary)
//@ rewrite expr buffer.extend_from_slice(__x) => append_slice(&mut buffer, __x)
//@ rewrite expr SubgraphResponse::deserialize_from_bytes(Bytes::from(__a.clone()), custom_scalar_paths.as_ref()) => response(text_bytes(&__a), &custom_scalar_paths)
//@ rewrite expr match sse_event.event.as_deref() { Some("next") if __g => __a, Some("complete") => __b, _ => __c } ==>> if opt_is(&sse_event.event, "next") && __g __a else if opt_is(&sse_event.event, "complete") __b else __c
//@ rewrite expr sse_event.data.is_empty() => no_text(sse_event.data.as_str())
//@ rewrite type B => Body
//@ extract fn parse_to_stream
//@ opt generics 
//@ opt returns ()
//@ opt params out: &mut Sink<Result<SubgraphResponse, ParseError>>
//@ opt attr #[verifier::exec_allows_no_decreases_clause]
//@ sec spec
    requires old(out)@.len() == 0
    ensures items(final(out)@) == run(Seq::empty(), body_stream.left(), custom_scalar_paths)
//@ sec loop 0
    invariant items(out@) + run(buffer@, body.left(), custom_scalar_paths) == run(Seq::empty(), body_stream.left(), custom_scalar_paths)
//@ sec loop 1
    invariant items(out@) + run(buffer@, body.left(), custom_scalar_paths) == run(Seq::empty(), body_stream.left(), custom_scalar_paths)
    ensures event_end(buffer@) is None, items(out@) + run(buffer@, body.left(), custom_scalar_paths) == run(Seq::empty(), body_stream.left(), custom_scalar_paths)
    decreases buffer@.len()
//@ end
}
fn main() {}
