//! use strings.inc
//! # Positions: order, merging, line and columns.
//! types src/graph/nodes.rs Location
//! impl src/graph/nodes.rs Location only Ord.cmp PartialOrd.partial_cmp reconcile destructure_inline_locations
//! attr-all verifier::loop_isolation(false)
//! method extend => sh_extend &mut
//! method sort => sh_sort_locations &mut
//! method drain lit=range => @rename:vx_drain
//! method enumerate => sh_enumerate
//! raw
// std: Vec::extend(Vec)
#[verifier::external_body]
fn sh_extend<T>(v: &mut Vec<T>, w: Vec<T>)
    ensures final(v)@ == old(v)@ + w@
{ unimplemented!() }
// std: Vec::drain(range), the drained values dropped
trait VecX<T> {
    spec fn vs(&self) -> Seq<T>;
    fn vx_drain(&mut self, g: core::ops::Range<usize>)
        requires g.start <= g.end <= old(self).vs().len()
        ensures final(self).vs() == old(self).vs().subrange(0, g.start as int) + old(self).vs().subrange(g.end as int, old(self).vs().len() as int);
}
impl<T> VecX<T> for Vec<T> {
    spec fn vs(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_drain(&mut self, g: core::ops::Range<usize>) { unimplemented!() }
}
// std: Iterator::enumerate over a slice, collected
#[verifier::external_body]
fn sh_enumerate<'a, T>(v: core::slice::Iter<'a, T>) -> (r: Vec<(usize, &'a T)>)
    ensures
        r@.len() == vstd::std_specs::iter::IteratorSpec::remaining(&v).len(),
        forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == (i as usize, vstd::std_specs::iter::IteratorSpec::remaining(&v)[i]),
{ unimplemented!() }
// std: slice::sort orders by Ord::cmp, which for positions is the function below
#[verifier::external_body]
fn sh_sort_locations(v: &mut Vec<Location>)
    ensures
        final(v)@.len() == old(v)@.len(),
        forall|x: Location| final(v)@.contains(x) <==> old(v)@.contains(x),
        forall|i: int, j: int| 0 <= i <= j < final(v)@.len() ==> loc_le(#[trigger] final(v)@[i], #[trigger] final(v)@[j]),
{ unimplemented!() }

// ---------------------------------------------------------------- positions
spec fn loc_cmp(a: Location, b: Location) -> core::cmp::Ordering {
    if a.file@.len() != b.file@.len() { ord(a.file@.len() as int, b.file@.len() as int) }
    else if a.line != b.line { ord(a.line as int, b.line as int) }
    else { ord(a.col as int, b.col as int) }
}
spec fn ord(a: int, b: int) -> core::cmp::Ordering {
    if a < b { core::cmp::Ordering::Less } else if a == b { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Greater }
}
spec fn loc_le(a: Location, b: Location) -> bool { loc_cmp(a, b) != core::cmp::Ordering::Greater }
// the merged extent of two lists of positions
spec fn merged(a: Seq<Location>, b: Seq<Location>, r: Seq<Location>) -> bool {
    if b.len() == 0 { r == a }
    else {
        &&& r.len() == if a.len() + b.len() == 1 { 1int } else { 2 }
        &&& forall|k: int| 0 <= k < a.len() ==> loc_le(r[0], #[trigger] a[k]) && loc_le(a[k], r.last())
        &&& forall|k: int| 0 <= k < b.len() ==> loc_le(r[0], #[trigger] b[k]) && loc_le(b[k], r.last())
        &&& (a + b).contains(r[0]) && (a + b).contains(r.last())
    }
}
//! contract Location::Ord.cmp
    ensures
        r == loc_cmp(*self, *other), // [B01]
//! contract Location::PartialOrd.partial_cmp
    ensures
        r == Some(loc_cmp(*self, *other)), // [B01]
//! contract Location::reconcile
    ensures
        merged(start@, other@, r@), // [B01 +]
//! hint Location::reconcile start
let ghost a_ = start@; let ghost b_ = other@;
//! hint Location::reconcile before-call sort
assert(start@ == a_ + b_); assert(forall|k: int| 0 <= k < a_.len() ==> start@[k] == a_[k]); assert(forall|k: int| 0 <= k < b_.len() ==> start@[a_.len() + k] == b_[k]);
//! hint Location::reconcile before-call drain
assert(forall|k: int| 0 <= k < a_.len() ==> (a_ + b_).contains(#[trigger] a_[k])) by { assert(forall|k: int| 0 <= k < a_.len() ==> #[trigger] (a_ + b_)[k] == a_[k]); }
assert(forall|k: int| 0 <= k < b_.len() ==> (a_ + b_).contains(#[trigger] b_[k])) by { assert(forall|k: int| 0 <= k < b_.len() ==> #[trigger] (a_ + b_)[a_.len() + k] == b_[k]); }
assert(forall|x: Location| start@.contains(x) ==> loc_le(start@[0], x) && loc_le(x, start@.last()));
assert(start@.contains(start@[0]) && start@.contains(start@.last()));
//! contract Location::destructure_inline_locations
    ensures
        locations@.len() == 0 ==> r == (0usize, 0usize, 0usize), // [B01]
        locations@.len() > 0 ==> r == (locations@[0].line, locations@[0].col, locations@.last().col), // [B01]
//! loop Location::destructure_inline_locations 0
    invariant
        it_.seq().len() == locations@.len(),
        forall|i: int| 0 <= i < locations@.len() ==> #[trigger] it_.seq()[i] == (i as usize, &locations@[i]),
        it_.index() == 0 ==> (line, startcol, endcol) == (0usize, 0usize, 0usize),
        it_.index() > 0 ==> (line, startcol, endcol) == (locations@[0].line, locations@[0].col, locations@[it_.index() - 1].col),

