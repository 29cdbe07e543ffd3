//! # Types of the document tree and facts of the standard library about them.
//! types src/errors.rs TokenError
//! types src/scanner/tokens.rs Token TokenType
//! types src/graph/nodes.rs Location NodeTypes Header Author
//! types src/graph/metadata.rs AttributeType ElementMetadata
//! types src/graph/inlines.rs Inline InlineSpan InlineSpanVariant InlineSpanForm InlineRef InlineRefVariant InlineLiteral InlineLiteralName LineBreak
//! structural TokenType InlineSpanVariant InlineSpanForm InlineRefVariant AttributeType
//! attr-all verifier::loop_isolation(false)
//! reveal-strlits
//! eq lit=str => sh_str_eq
//! macro format => @show
//! macro todo => vpanic()
//! macro panic => vpanic()
//! drop-macro println warn
//! method clone => @rename:vx_clone
//! method extend recv=start => sh_extend &mut
//! method insert recv=attr => @rename:vx_insert
//! method get recv=attr => sh_map_get &
//! method get_key_value => sh_map_get_kv &
//! method contains_key => sh_map_has &
//! path HashMap::new => sh_map_new
//! path HashMap::with_capacity => sh_map_cap
//! method sort => sh_sort_locations &mut
//! method drain lit=range => @rename:vx_drain
//! raw
// std: Vec::extend(Vec)
#[verifier::external_body]
fn sh_extend<T>(v: &mut Vec<T>, w: Vec<T>)
    ensures final(v)@ == old(v)@ + w@
{ unimplemented!() }
// std: Vec::drain(range), the drained values dropped
trait VecX<T> {
    spec fn vs(&self) -> Seq<T>;
    fn vx_drain(&mut self, g: core::ops::Range<usize>)
        requires g.start <= g.end <= old(self).vs().len()
        ensures final(self).vs() == old(self).vs().subrange(0, g.start as int) + old(self).vs().subrange(g.end as int, old(self).vs().len() as int);
    fn vx_extend(&mut self, w: Vec<T>)
        ensures final(self).vs() == old(self).vs() + w@;
}
impl<T> VecX<T> for Vec<T> {
    spec fn vs(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_drain(&mut self, g: core::ops::Range<usize>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_extend(&mut self, w: Vec<T>) { unimplemented!() }
}
// std: slice::sort keeps the number of elements (what it orders by: property B01)
#[verifier::external_body]
fn sh_sort_locations(v: &mut Vec<Location>)
    ensures final(v)@.len() == old(v)@.len()
{ unimplemented!() }
use std::collections::{HashMap, VecDeque};
// derived Clone: an equal value
trait CloneX: Sized {
    fn vx_clone(&self) -> (r: Self)
        ensures r == *self;
}
impl<T> CloneX for T {
    #[verifier::external_body]
    fn vx_clone(&self) -> (r: Self) { unimplemented!() }
}
// std: slice::last_mut
#[verifier::external_body]
fn sh_last_mut<'a, T>(v: &'a mut Vec<T>) -> (r: Option<&'a mut T>)
    ensures
        old(v)@.len() == 0 ==> r is None && *final(v) == *old(v),
        old(v)@.len() > 0 ==> r is Some && *r->0 == old(v)@.last() && final(v)@ == old(v)@.drop_last().push(*final(r->0)) && (*final(r->0) == *r->0 ==> *final(v) == *old(v)),
{ unimplemented!() }
// std: VecDeque::back_mut, front_mut, extend, into
#[verifier::external_body]
fn sh_back_mut<'a, T>(v: &'a mut VecDeque<T>) -> (r: Option<&'a mut T>)
    ensures
        old(v)@.len() == 0 ==> r is None && *final(v) == *old(v),
        old(v)@.len() > 0 ==> r is Some && *r->0 == old(v)@.last() && final(v)@ == old(v)@.drop_last().push(*final(r->0)) && (*final(r->0) == *r->0 ==> *final(v) == *old(v)),
{ unimplemented!() }
#[verifier::external_body]
fn sh_front_mut<'a, T>(v: &'a mut VecDeque<T>) -> (r: Option<&'a mut T>)
    ensures
        old(v)@.len() == 0 ==> r is None && *final(v) == *old(v),
        old(v)@.len() > 0 ==> r is Some && *r->0 == old(v)@[0] && final(v)@ == seq![*final(r->0)] + old(v)@.subrange(1, old(v)@.len() as int) && (*final(r->0) == *r->0 ==> *final(v) == *old(v)),
{ unimplemented!() }
#[verifier::external_body]
fn sh_vd_extend<T>(v: &mut VecDeque<T>, w: VecDeque<T>)
    ensures final(v)@ == old(v)@ + w@
{ unimplemented!() }
#[verifier::external_body]
fn sh_vd_into<T>(w: VecDeque<T>) -> (r: Vec<T>)
    ensures r@ == w@
{ unimplemented!() }
// std: Option::filter on a mutable reference
#[verifier::external_body]
fn sh_filter_mut<'a, T, F: FnOnce(&&'a mut T) -> bool>(o: Option<&'a mut T>, f: F) -> (r: Option<&'a mut T>)
    requires o is Some ==> f.requires((&o->0,))
    ensures
        o is None ==> r is None,
        o is Some && r is Some ==> f.ensures((&o->0,), true) && r == o,
        o is Some && r is None ==> f.ensures((&o->0,), false) && *final(o->0) == *o->0,
{ unimplemented!() }
broadcast proof fn take_all<T>(s: Seq<T>, n: int)
    requires n == s.len()
    ensures #[trigger] s.take(n) == s
{ assert(s.take(n) =~= s); }
broadcast proof fn push_last<T>(s: Seq<T>, x: T)
    ensures #[trigger] s.push(x).drop_last() == s
{ assert(s.push(x).drop_last() =~= s); }
broadcast proof fn take_none<T>(s: Seq<T>, n: int)
    requires n == 0
    ensures #[trigger] s.take(n) == Seq::<T>::empty()
{ assert(s.take(n) =~= Seq::<T>::empty()); }

// std: Display of text and of numbers
trait Show { spec fn shown(&self) -> Seq<char>; }
impl Show for str { spec fn shown(&self) -> Seq<char> { self@ } }
impl Show for &str { spec fn shown(&self) -> Seq<char> { (*self)@ } }
impl Show for String { spec fn shown(&self) -> Seq<char> { self@ } }
impl Show for &String { spec fn shown(&self) -> Seq<char> { (*self)@ } }
impl Show for usize { spec fn shown(&self) -> Seq<char> { dec(*self as nat) } }
spec fn dec(n: nat) -> Seq<char> decreases n {
    if n < 10 { seq![('0' as int + n) as char] } else { dec(n / 10).push(('0' as int + n % 10) as char) }
}
#[verifier::external_body]
fn sh_show<A: Show + ?Sized>(s: &A) -> (r: String)
    ensures r@ == s.shown()
{ unimplemented!() }

// ---------------------------------------------------------------- std: HashMap with text keys and values
uninterp spec fn attrs(m: HashMap<String, String>) -> Map<Seq<char>, Seq<char>>;
trait MapVal: Sized { spec fn none(m: HashMap<String, Self>) -> bool; }
impl MapVal for String { spec fn none(m: HashMap<String, String>) -> bool { attrs(m) == Map::<Seq<char>, Seq<char>>::empty() } }
#[verifier::external_body]
fn sh_map_new<V: MapVal>() -> (r: HashMap<String, V>)
    ensures V::none(r)
{ unimplemented!() }
#[verifier::external_body]
fn sh_map_cap(n: usize) -> (r: HashMap<String, String>)
    ensures attrs(r) == Map::<Seq<char>, Seq<char>>::empty()
{ unimplemented!() }
trait MapX {
    spec fn ms(&self) -> Map<Seq<char>, Seq<char>>;
    fn vx_insert(&mut self, k: String, v: String) -> (r: Option<String>)
        ensures final(self).ms() == old(self).ms().insert(k@, v@);
}
impl MapX for HashMap<String, String> {
    spec fn ms(&self) -> Map<Seq<char>, Seq<char>> { attrs(*self) }
    #[verifier::external_body]
    fn vx_insert(&mut self, k: String, v: String) -> (r: Option<String>) { unimplemented!() }
}
#[verifier::external_body]
fn sh_map_get<'a, A: StrView + ?Sized>(m: &'a HashMap<String, String>, k: &A) -> (r: Option<&'a String>)
    ensures
        attrs(*m).contains_key(k.sv()) ==> r is Some && (*r->0)@ == attrs(*m)[k.sv()],
        !attrs(*m).contains_key(k.sv()) ==> r is None,
{ unimplemented!() }
#[verifier::external_body]
fn sh_map_get_kv<'a, A: StrView + ?Sized>(m: &'a HashMap<String, String>, k: &A) -> (r: Option<(&'a String, &'a String)>)
    ensures
        attrs(*m).contains_key(k.sv()) ==> r is Some && (*(r->0).1)@ == attrs(*m)[k.sv()] && (*(r->0).0)@ == k.sv(),
        !attrs(*m).contains_key(k.sv()) ==> r is None,
{ unimplemented!() }
#[verifier::external_body]
fn sh_map_has<A: StrView + ?Sized>(m: &HashMap<String, String>, k: &A) -> (r: bool)
    ensures r == attrs(*m).contains_key(k.sv())
{ unimplemented!() }
