//! A panic at the n-th call of user code (clone, drop, hash, equality, comparison, allocation, a closure or an
//! iterator's next), for every n, in one operation from an arbitrary state: what the container still reaches is
//! alive, and dropping it drops every value at most once, returns every block at most once and touches no invalid
//! memory. Leaks are allowed. Vector (capacity 0..=2, 3 for clear), FixedVector (2 inline, or spilled), List (0..=3), Deque at every
//! block boundary, VectorMap (0..=2 pairs), hash tables (2 buckets, 0..=3 pairs, with and without a rehash, entry closures), Map and
//! Set (every tree of 0..=3 nodes). The model of a panic: at the call the operation stops, and the container is
//! looked at and dropped there; what unwinding does in the frames in between (locals dropped on the way, guards) is
//! left out of the verdict, but is part of the replay of a counterexample. Constructors (from_iter, from) are left
//! out: their container is such a local.
// cbmc: --max-field-sensitivity-array-size 256
use crate::el::*;
use crate::env::{outer, split, Led, BOOKS, LIFE, MAXD, NEXT};
use crate::c15::RawFV;
use crate::mdeque::{self, At};
use crate::mhash::{self, KeyT, Pairs};
use crate::mlist;
use crate::mtree::{self, SHAPES};
use crate::mvec;
use crate::mvmap::{self, VKeyT};
use crate::sym;
use eastl_rs::compare::Less;
use eastl_rs::deque::Deque;
use eastl_rs::fixed_vector::FixedVector;
use eastl_rs::list::List;
use eastl_rs::map::Map;
use eastl_rs::set::Set;
use eastl_rs::vector::Vector;
use eastl_rs::Allocator;
use std::cmp::Ordering;
use std::marker::PhantomData;
use std::mem::{ManuallyDrop, MaybeUninit};

/// Calls of user code left until one panics; 0: none will.
static mut FUSE: u8 = 0;
static mut SUBJ: *mut u8 = std::ptr::null_mut();

/// What the operation works on.
trait Subj: 'static {
    type C;
    /// Everything reachable must be alive.
    fn look(c: &mut Self::C);
}
#[cfg(not(kani))]
struct Boom;

#[inline(always)]
fn call<S: Subj>() {
    unsafe {
        if FUSE > 0 {
            FUSE -= 1;
            if FUSE == 0 {
                #[cfg(kani)]
                {
                    after::<S>();
                    witness!("a panic is survived");
                    kani::assume(false);
                }
                #[cfg(not(kani))]
                std::panic::panic_any(Boom);
            }
        }
    }
}
fn after<S: Subj>() {
    unsafe {
        let c = SUBJ as *mut S::C;
        S::look(&mut *c);
        std::ptr::drop_in_place(c);
    }
}
/// Runs the operation with a panic at the `fuse`-th call of user code (0: none).
fn run<S: Subj>(fuse: u8, c: *mut S::C, f: impl FnOnce(&mut S::C)) {
    unsafe {
        SUBJ = c as *mut u8;
        FUSE = fuse;
        #[cfg(kani)]
        f(&mut *c);
        #[cfg(not(kani))]
        if let Err(e) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut *c))) {
            if !e.is::<Boom>() {
                std::panic::resume_unwind(e);
            }
        }
        FUSE = 0;
    }
    after::<S>();
}

/// An element whose every method may panic.
#[repr(C, align(16))]
struct P<S: Subj> {
    gap: u64,
    v: u32,
    tag: u8,
    h: usize,
    _s: PhantomData<S>,
}
impl<S: Subj> P<S> {
    fn new(v: u32, h: usize) -> Self {
        unsafe {
            let t = NEXT;
            NEXT += 1;
            LIFE[t] = 1;
            P { gap: 0, v, tag: t as u8, h, _s: PhantomData }
        }
    }
    fn look(&self) {
        check!((self.tag as usize) < MAXD && unsafe { LIFE[self.tag as usize] == 1 }, "an element that is reachable is not alive");
    }
}
impl<S: Subj> Drop for P<S> {
    fn drop(&mut self) {
        check!((self.tag as usize) < MAXD, "a value that never existed was dropped");
        unsafe {
            check!(LIFE[self.tag as usize] == 1, "a value was dropped twice, or before it existed");
            LIFE[self.tag as usize] = 2;
        }
        call::<S>();
    }
}
impl<S: Subj> Clone for P<S> {
    fn clone(&self) -> Self {
        self.look();
        call::<S>();
        P::new(self.v, self.h)
    }
}
impl<S: Subj> std::fmt::Debug for P<S> {
    fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        Ok(())
    }
}
impl<S: Subj> PartialEq for P<S> {
    fn eq(&self, o: &Self) -> bool {
        self.look();
        o.look();
        call::<S>();
        self.v == o.v
    }
}
impl<S: Subj> PartialOrd for P<S> {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        self.look();
        o.look();
        call::<S>();
        self.v.partial_cmp(&o.v)
    }
    fn lt(&self, o: &Self) -> bool {
        self.look();
        o.look();
        call::<S>();
        self.v < o.v
    }
}
impl<S: Subj> El for P<S> {
    fn mk(v: u32) -> Self {
        P::new(v, 0)
    }
    fn val(&self) -> u32 {
        self.v
    }
    fn reset() {
        unsafe {
            NEXT = 0;
            LIFE = [0; MAXD];
            FUSE = 0;
        }
    }
    const TRACKED: bool = true;
}
impl<S: Subj> KeyT for P<S> {
    fn mk(id: u32, h: usize, _: bool) -> Self {
        P::new(id, h)
    }
    fn id(&self) -> u32 {
        self.look();
        call::<S>();
        self.v
    }
    fn h(&self) -> usize {
        self.look();
        call::<S>();
        self.h
    }
    const T: bool = true;
}
impl<S: Subj> VKeyT for P<S> {
    fn mk(r: u32) -> Self {
        P::new(r, 0)
    }
    fn raw(&self) -> u32 {
        self.v
    }
    const T: bool = true;
}
/// The allocator of the books, which may panic when asked for memory.
#[repr(C)]
struct F<S: Subj> {
    led: Led,
    _s: PhantomData<S>,
}
impl<S: Subj> Clone for F<S> {
    fn clone(&self) -> Self {
        F::default()
    }
}
impl<S: Subj> Default for F<S> {
    fn default() -> Self {
        F { led: Led { _d: 0 }, _s: PhantomData }
    }
}
unsafe impl<S: Subj> Allocator for F<S> {
    fn allocate_raw_aligned(&mut self, n: usize, align: usize) -> *mut () {
        call::<S>();
        self.led.allocate_raw_aligned(n, align)
    }
    unsafe fn deallocate_raw_aligned(&mut self, p: *mut (), n: usize, align: usize) {
        self.led.deallocate_raw_aligned(p, n, align)
    }
}
impl<S: Subj> Al for F<S> {
    fn reset() {
        Led::reset()
    }
}
fn fresh<S: Subj>() {
    <P<S> as El>::reset();
    Led::reset();
    unsafe { check!(BOOKS.blocks == 0, "books") };
}

// Vector
struct SVec;
type V = Vector<P<SVec>, F<SVec>>;
impl Subj for SVec {
    type C = V;
    fn look(c: &mut V) {
        let mut i = 0;
        while i < c.len() {
            c.as_slice()[i].look();
            i += 1;
        }
    }
}
fn pv<S: Subj>(v: u32) -> P<S> {
    P::new(v, 0)
}
fn vec_step(len: usize, cap: usize, fuse: u8, f: impl FnOnce(&mut V)) {
    fresh::<SVec>();
    let s = Seq::<6>::fill(len);
    let v = vec_at_::<SVec>(&s, cap);
    let mut v = ManuallyDrop::new(v);
    run::<SVec>(fuse, &mut *v, f);
}
fn vec_at_<S: Subj>(s: &Seq<6>, cap: usize) -> Vector<P<S>, F<S>> {
    mvec::vec_at::<P<S>, F<S>, 6>(s, cap)
}
fn vec_each(c: usize, fuses: u8, f: impl Fn(&mut V) + Copy) {
    mvec::outer_shapes(c, |len, cap| split(fuses, |fuse| vec_step(len, cap, fuse, f)));
}

// FixedVector
struct SFv;
type FV = FixedVector<P<SFv>, 2, F<SFv>>;
impl Subj for SFv {
    type C = FV;
    fn look(c: &mut FV) {
        let mut i = 0;
        while i < c.len() {
            c.as_slice()[i].look();
            i += 1;
        }
    }
}
/// Inline with `n` elements, or spilled with `n` of 3.
fn fv_step(n: usize, inline: bool, fuse: u8, f: impl FnOnce(&mut FV)) {
    fresh::<SFv>();
    let mut slot: MaybeUninit<FV> = MaybeUninit::uninit();
    check!(std::mem::size_of::<FV>() == std::mem::size_of::<RawFV<P<SFv>>>(), "the fixed vector has the size of the C++ one");
    unsafe {
        let r = slot.as_mut_ptr() as *mut RawFV<P<SFv>>;
        let buf = std::ptr::addr_of_mut!((*r).buffer) as *mut P<SFv>;
        let mut led = Led::default();
        let (begin, cap) = if inline { (buf, 2) } else { (led.allocate::<P<SFv>>(3), 3) };
        let mut i = 0;
        while i < n {
            begin.add(i).write(pv(i as u32));
            i += 1;
        }
        (*r).begin = begin;
        (*r).end = begin.add(n);
        (*r).cap = begin.add(cap);
        (*r).over = led;
        (*r).pool_begin = buf as *mut u8;
    }
    run::<SFv>(fuse, slot.as_mut_ptr(), f);
}

// Deque
struct SDeq;
type Q = Deque<'static, P<SDeq>, F<SDeq>>;
impl Subj for SDeq {
    type C = Q;
    fn look(c: &mut Q) {
        for e in c.iter() {
            e.look()
        }
    }
}

fn deq_step(table: usize, first: usize, off: usize, n: usize, fuse: u8, f: impl FnOnce(&mut Q)) {
    fresh::<SDeq>();
    let d: Q = mdeque::deque_at(&Seq::<6>::fill(n), At { table, first, off, n });
    let mut d = ManuallyDrop::new(d);
    run::<SDeq>(fuse, &mut *d, f);
}

// List
struct SList;
type L = List<P<SList>, F<SList>>;
impl Subj for SList {
    type C = L;
    fn look(c: &mut L) {
        for e in c.iter() {
            e.look()
        }
    }
}
fn list_step(n: usize, fuse: u8, f: impl FnOnce(&mut L)) {
    fresh::<SList>();
    let s = Seq::<6>::fill(n);
    let mut slot = MaybeUninit::uninit();
    let l: &mut L = mlist::list_at(&mut slot, &s);
    run::<SList>(fuse, l, f);
}
/// Yields `n` elements; each call may panic.
struct Src<S: Subj>(u8, PhantomData<S>);
impl<S: Subj> Iterator for Src<S> {
    type Item = P<S>;
    fn next(&mut self) -> Option<P<S>> {
        call::<S>();
        if self.0 == 0 {
            return None;
        }
        self.0 -= 1;
        Some(pv(7))
    }
}

// VectorMap
struct SMap;
type VM = mvmap::VM<P<SMap>, P<SMap>, F<SMap>, Less<P<SMap>>>;
impl Subj for SMap {
    type C = VM;
    fn look(c: &mut VM) {
        let s: &[(P<SMap>, P<SMap>)] = c.as_ref();
        let mut i = 0;
        while i < s.len() {
            s[i].0.look();
            s[i].1.look();
            i += 1;
        }
    }
}
fn vm_step(n: usize, cap: usize, fuse: u8, f: impl FnOnce(&mut VM)) {
    fresh::<SMap>();
    let s = Seq::<6>::fill(n);
    let m: VM = mvmap::vmap_at(&s, cap);
    let mut m = ManuallyDrop::new(m);
    run::<SMap>(fuse, &mut *m, f);
}
fn key(ord: u8) -> P<SMap> {
    pv(<Less<P<SMap>> as mvmap::Cmp<P<SMap>>>::raw(ord as u32))
}

// hash tables
struct SHash;
type M = mhash::M<P<SHash>, P<SHash>, F<SHash>>;
impl Subj for SHash {
    type C = M;
    fn look(c: &mut M) {
        for (k, v) in c.iter() {
            k.look();
            v.look();
        }
    }
}
/// `next`: the number of elements at which the table grows
fn h_step(hs: &[usize], next: u32, fuse: u8, f: impl FnOnce(&mut M)) {
    fresh::<SHash>();
    let p = Pairs::<6>::fill::<u32>(hs);
    let m: M = mhash::map_at(&p, 2, next);
    let mut m = ManuallyDrop::new(m);
    run::<SHash>(fuse, &mut *m, f);
}
fn hk(i: u32, h: usize) -> P<SHash> {
    P::new(100 + i, h)
}

// trees
struct STree;
type T = Map<P<STree>, P<STree>, F<STree>, Less<P<STree>>>;
impl Subj for STree {
    type C = T;
    fn look(c: &mut T) {
        for (k, v) in unsafe { c.iter() } {
            k.look();
            v.look();
        }
    }
}
struct SSet;
type TS = Set<P<SSet>, F<SSet>, Less<P<SSet>>>;
impl Subj for SSet {
    type C = TS;
    fn look(c: &mut TS) {
        for k in unsafe { c.iter() } {
            k.look();
        }
    }
}
fn line(n: usize) -> Seq<6> {
    let mut s = Seq::new();
    let mut i = 0;
    while i < n {
        s.push(2 * i as u32 + 1);
        i += 1;
    }
    s
}
fn t_step(n: usize, shape: u8, fuse: u8, f: impl FnOnce(&mut T)) {
    fresh::<STree>();
    let mut slot = MaybeUninit::uninit();
    let m: &mut T = mtree::tree_at(&mut slot, &line(n), &line(n), shape);
    run::<STree>(fuse, m, f);
}

harnesses! {
    vec_clear [22] { vec_each(3, 4, |v| v.clear()); }
    vec_push [22] { vec_each(2, 2, |v| v.push(pv(1))); }
    vec_insert [22] { vec_each(2, 2, |v| v.insert(0, pv(1))); }
    vec_reserve [22] { vec_each(2, 2, |v| v.reserve(2)); }
    vec_remove [22] { vec_each(2, 2, |v| drop(v.remove(0))); }
    vec_append [22] { vec_each(2, 4, |v| { let b = ManuallyDrop::new([pv(1), pv(2)]); v.append(&b[..]) }); }
    vec_assign [22] { vec_each(2, 5, |v| { let b = ManuallyDrop::new([pv(1), pv(2)]); v.assign(&b[..]) }); }
    vec_clone [22] { vec_each(2, 5, |v| { let w = ManuallyDrop::new(v.clone()); check!(w.len() == v.len(), "clone"); }); }
    fv_clear [10] { outer(2, |i| outer(3, |n| split(n + 2, |fuse| fv_step(n as usize, i == 1, fuse, |v| v.clear())))); }
    fv_append [10] { outer(2, |i| outer(3, |n| split(4, |fuse| fv_step(n as usize, i == 1, fuse, |v| { let b = ManuallyDrop::new([pv(1), pv(2)]); v.append(&b[..]) })))); }
    fv_push [10] { outer(2, |i| outer(3, |n| split(2, |fuse| fv_step(n as usize, i == 1, fuse, |v| v.push(pv(1)))))); }
    deq_push_back [22] { outer(2, |t| split(3, |fuse| deq_step(2 + t as usize, 1, 6, 1, fuse, |d| d.push_back(pv(1))))); }
    deq_push_front [22] { outer(2, |t| split(3, |fuse| deq_step(2 + t as usize, t as usize, 0, 1, fuse, |d| d.push_front(pv(1))))); }
    deq_remove [22] { split(2, |fuse| deq_step(2, 0, 7, 2, fuse, |d| drop(d.remove(0)))); }
    list_clear [10] { outer(4, |n| split(4, |fuse| list_step(n as usize, fuse, |l| l.clear()))); }
    list_extend [10] { outer(3, |n| split(6, |fuse| list_step(n as usize, fuse, |l| l.extend(Src(2, PhantomData))))); }
    list_push [10] { outer(3, |n| split(2, |fuse| list_step(n as usize, fuse, |l| l.push_back(pv(1))))); }
    list_push_front [10] { outer(3, |n| split(2, |fuse| list_step(n as usize, fuse, |l| l.push_front(pv(1))))); }
    vm_clear [22] { outer(3, |n| split(2 * n + 1, |fuse| vm_step(n as usize, n as usize, fuse, |m| m.clear()))); }
    vm_insert1 [22] { outer(3, |ord| split(4, |fuse| vm_step(1, 1, fuse, |m| { let _r = ManuallyDrop::new(m.insert(key(ord), pv(1))); }))); }
    vm_insert2 [22] { outer(5, |ord| split(5, |fuse| vm_step(2, 2 + (ord as usize & 2), fuse, |m| { let _r = ManuallyDrop::new(m.insert(key(ord), pv(1))); }))); }
    vm_remove [22] { outer(5, |ord| split(6, |fuse| vm_step(2, 2, fuse, |m| { let k = ManuallyDrop::new(key(ord)); drop(m.remove(&k)) }))); }
    vm_get [22] { outer(5, |ord| split(4, |fuse| vm_step(2, 2, fuse, |m| { let k = ManuallyDrop::new(key(ord)); m.get_mut(&k); }))); }
    hash_clear [10] { outer(5, |s| split(7, |fuse| h_step([&[][..], &[0], &[0, 1], &[1, 1], &[0, 0, 1]][s as usize], 8, fuse, |m| m.clear()))); }
    hash_entry [10] { outer(3, |s| split(6, |fuse| h_step([&[][..], &[1], &[1, 1]][s as usize], 8, fuse, |m| {
        m.entry(hk(1, 1)).or_insert_with(|| { call::<SHash>(); pv(2) });
    }))); }
    hash_modify [10] { outer(2, |s| split(8, |fuse| h_step([&[1][..], &[1, 1]][s as usize], 8, fuse, |m| {
        let _e = ManuallyDrop::new(m.entry(hk(0, 1)).and_modify(|_| call::<SHash>()));
    }))); }
    hash_get [10] { outer(3, |s| split(6, |fuse| h_step([&[0][..], &[0, 1], &[1, 1]][s as usize], 8, fuse, |m| { let k = ManuallyDrop::new(hk(0, 1)); m.get_mut(&k); }))); }
    hash_insert [10] { outer(4, |s| split(7, |fuse| h_step([&[][..], &[0], &[0, 1], &[1, 1]][s as usize], 8, fuse, |m| { let _r = ManuallyDrop::new(m.insert(hk(0, 1), pv(1))); }))); }
    hash_rehash [60] { outer(4, |s| split(11, |fuse| h_step([&[][..], &[0], &[0, 1], &[1, 1]][s as usize], s.min(2) as u32, fuse, |m| { let _r = ManuallyDrop::new(m.insert(hk(9, 3), pv(1))); }))); }
    // one bucket's pair is moved before the pairs of the next, into the same bucket of the new table
    hash_rehash3 [60] { outer(2, |s| split(12, |fuse| h_step([&[0, 5, 1][..], &[0, 1, 5]][s as usize], 3, fuse, |m| { let _r = ManuallyDrop::new(m.insert(hk(9, 3), pv(1))); }))); }
    hash_remove [10] { outer(3, |s| split(6, |fuse| h_step([&[0][..], &[0, 1], &[1, 1]][s as usize], 8, fuse, |m| { let k = ManuallyDrop::new(hk(1, 1)); drop(m.remove(&k)) }))); }
    tree_clear [10] { outer(4, |n| outer(SHAPES[n as usize], |s| split(2 * n + 1, |fuse| t_step(n as usize, s, fuse, |m| m.clear())))); }
    tree_get [10] { split(3, |fuse| { unsafe { mtree::COLORS = false }; t_step(2, 0, fuse, |m| { let k = ManuallyDrop::new(pv(3)); m.get_mut(&k); }) }); }
    tree_get2 [10] { split(3, |fuse| { unsafe { mtree::COLORS = false }; t_step(2, 0, fuse + 3, |m| { let k = ManuallyDrop::new(pv(3)); m.get_mut(&k); }) }); }
    set_clear [10] { outer(3, |n| split(n + 1, |fuse| {
        fresh::<SSet>();
        let mut slot = MaybeUninit::uninit();
        let m: &mut TS = mtree::set_at(&mut slot, &line(n as usize), 0);
        run::<SSet>(fuse, m, |m| m.clear());
    })); }
}
