// Verus unit: eval/src/collections/carray.rs (C14).
#![feature(allocator_api)]
#![allow(unused_imports, dead_code, unused_variables, unused_mut)]
use vstd::prelude::*;
use std::slice::Iter;
use std::ops::{Index, IndexMut};
use vstd::std_specs::iter::IteratorSpec;
use std::vec::IntoIter;
verus! {
/// only a lower bound is documented
pub assume_specification<T, A: core::alloc::Allocator>[Vec::<T, A>::capacity](v: &Vec<T, A>) -> (r: usize) ensures r >= v@.len();
//@ fnset eval/src/collections/carray.rs | impl CircularArray<T> | new push pop remove len capacity get get_mut iter
//@ extract eval/src/collections/carray.rs | struct CircularArray
//@ end
impl<T> View for CircularArray<T> { type V = Seq<T>; closed spec fn view(&self) -> Seq<T> { self.data@ } }
/// the entries after pushing `x` on a history of capacity `cap`: the newest at the end, the oldest evicted only when full
pub open spec fn pushed<T>(s: Seq<T>, cap: nat, x: T) -> Seq<T> {
    if cap == 0 { s } else if s.len() == cap { s.drop_first().push(x) } else { s.push(x) }
}
impl<T> CircularArray<T> {
    /// the data-structure invariant
    pub closed spec fn wf(&self) -> bool { self.data@.len() <= self.cap }
    pub closed spec fn scap(&self) -> nat { self.cap as nat }
//@ extract eval/src/collections/carray.rs | impl CircularArray<T> / fn new
//@ ret r
//@ spec
    ensures r.wf(), r@ == Seq::<T>::empty(), r.scap() == capacity,
//@ end
//@ extract eval/src/collections/carray.rs | impl CircularArray<T> / fn push
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).scap() == old(self).scap(), final(self)@ == pushed(old(self)@, old(self).scap(), item),
//@ start
    let ghost d0 = self.data@;
//@ finish
    proof { assert(self.data@ =~= pushed(d0, self.cap as nat, item)); }
//@ end
//@ extract eval/src/collections/carray.rs | impl CircularArray<T> / fn pop
//@ ret r
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).scap() == old(self).scap(),
        r == (if old(self)@.len() > 0 { Some(old(self)@.last()) } else { None }),
        final(self)@ == (if old(self)@.len() > 0 { old(self)@.drop_last() } else { old(self)@ }),
//@ end
//@ extract eval/src/collections/carray.rs | impl CircularArray<T> / fn remove
//@ ret r
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).scap() == old(self).scap(),
        r == (if index < old(self)@.len() { Some(old(self)@[index as int]) } else { None }),
        final(self)@ == (if index < old(self)@.len() { old(self)@.remove(index as int) } else { old(self)@ }),
//@ end
//@ extract eval/src/collections/carray.rs | impl CircularArray<T> / fn len
//@ ret r
//@ spec
    requires self.wf(),
    ensures r == self@.len(), r <= self.scap(),
//@ end
//@ extract eval/src/collections/carray.rs | impl CircularArray<T> / fn capacity
//@ ret r
//@ spec
    ensures r == self.scap(),
//@ end
//@ extract eval/src/collections/carray.rs | impl CircularArray<T> / fn get
//@ ret r
//@ spec
    ensures match r { Some(x) => index < self@.len() && *x == self@[index as int], None => index >= self@.len() },
//@ end
//@ extract eval/src/collections/carray.rs | impl CircularArray<T> / fn get_mut
//@ ret r
//@ spec
    requires old(self).wf(),
    ensures
        final(self).wf(), final(self).scap() == old(self).scap(),
        match r { Some(x) => index < old(self)@.len() && *x == old(self)@[index as int] && final(self)@ == old(self)@.update(index as int, *final(x)),
            None => index >= old(self)@.len() && final(self)@ == old(self)@ },
//@ end
//@ extract eval/src/collections/carray.rs | impl CircularArray<T> / fn iter
//@ ret r
//@ spec
    ensures r.remaining().len() == self@.len(), forall|k: int| 0 <= k < self@.len() ==> *#[trigger] r.remaining()[k] == self@[k],
//@ end
//@ rewrite &Self::Target ==> &[T]
//@ rewrite &mut Self::Target ==> &mut [T]
//@ rewrite Self::IntoIter ==> IntoIter<T>
//@ extract eval/src/collections/carray.rs | impl Deref for CircularArray<T> / fn deref
//@ ret r
//@ rename t_deref
//@ spec
    ensures r@ == self@,
//@ end
//@ extract eval/src/collections/carray.rs | impl DerefMut for CircularArray<T> / fn deref_mut
//@ ret r
//@ rename t_deref_mut
//@ spec
    ensures r@ == old(self)@, final(self)@ == final(r)@, final(self).scap() == old(self).scap(),
//@ end
//@ extract eval/src/collections/carray.rs | impl IntoIterator for CircularArray<T> / fn into_iter
//@ ret r
//@ rename t_into_iter
//@ spec
    ensures r.remaining() == self@,
//@ end
//@ extract eval/src/collections/carray.rs | impl Index<usize> for CircularArray<T> / fn index
//@ ret r
//@ rename t_index
//@ spec
    requires index < self@.len(),
    ensures *r == self@[index as int],
//@ end
//@ extract eval/src/collections/carray.rs | impl IndexMut<usize> for CircularArray<T> / fn index_mut
//@ ret r
//@ rename t_index_mut
//@ rewrite self.data.index_mut(index) ==> &mut self.data[index]
//@ spec
    requires index < old(self)@.len(),
    ensures *r == old(self)@[index as int], final(self)@ == old(self)@.update(index as int, *final(r)), final(self).scap() == old(self).scap(),
//@ end
}
/// after pushing xs one by one the history is the newest `cap` entries of all, in order
pub open spec fn pushed_all<T>(s: Seq<T>, cap: nat, xs: Seq<T>) -> Seq<T> decreases xs.len() {
    if xs.len() == 0 { s } else { pushed(pushed_all(s, cap, xs.drop_last()), cap, xs.last()) }
}
pub open spec fn newest<T>(all: Seq<T>, cap: nat) -> Seq<T> { if all.len() <= cap { all } else { all.subrange(all.len() - cap, all.len() as int) } }
pub proof fn theorem_c14<T>(s: Seq<T>, cap: nat, xs: Seq<T>)
    requires s.len() <= cap,
    ensures pushed_all(s, cap, xs) == newest(s + xs, cap), pushed_all(s, cap, xs).len() <= cap,
    decreases xs.len(),
{
    let all = s + xs;
    if xs.len() == 0 { assert(all =~= s); }
    else {
        let p = s + xs.drop_last();
        theorem_c14(s, cap, xs.drop_last());
        assert(all =~= p.push(xs.last()));
        assert(pushed_all(s, cap, xs) =~= newest(all, cap));
    }
}
fn main() {}
} // verus!
