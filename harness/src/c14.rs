//! Fixed pools: every state of a pool of 3 nodes (any subset in use, returned nodes in any order, any number never
//! used), one operation, then the rest handed out; buffers of any length up to 4 nodes at any offset from the
//! alignment, for nodes of 16 to 48 bytes with alignments 1 to 32. With overflow: the same state, overflow blocks in
//! front of, right behind and away from the buffer. FixedList: construction with 0, 2 and 3 inline nodes; one operation (thorough: two)
//! from 15 states with 2 inline nodes (in use, returned in either order, never used) and up to 2 overflow nodes. FixedMap: construction only (its insertion is not implemented in the crate).
use crate::el::*;
use crate::env::*;
use crate::mlist;
use crate::sym;
use eastl_rs::fixed_list::FixedList;
use eastl_rs::fixed_map::FixedMapWithOverflow;
use eastl_rs::fixed_pool::with_overflow::FixedPoolWithOverflow;
use eastl_rs::fixed_pool::{FixedPool, PoolAllocator};
use eastl_rs::Allocator;
use moveit::New;
use std::ops::Deref;
use std::mem::{align_of, size_of, MaybeUninit};
use std::pin::Pin;

#[repr(C, align(64))]
pub struct Buf<const B: usize>([u8; B]);

#[repr(C)]
pub struct RawPool {
    pub head: *mut RawFree,
    pub next: *mut u8,
    pub capacity: *mut u8,
}
#[repr(C)]
pub struct RawFree {
    pub next: *mut RawFree,
}

#[repr(C)]
pub struct N16(u64, u64);
#[repr(C)]
pub struct N24(u64, u32, u32, u64);
#[repr(C, align(16))]
pub struct N32([u64; 3]);
#[repr(C, align(32))]
pub struct N32A([u64; 1]);

/// Any place and length of a buffer: as many nodes as fit, aligned, inside, disjoint; then none.
fn init<T, const B: usize>(max: usize) {
    let mut buf = Buf([0u8; B]);
    let (size, align) = (size_of::<T>(), align_of::<T>());
    let off = sym::u8() as usize;
    sym::assume(off <= align);
    let len = sym::u8() as usize;
    let pad = (align - off % align) % align;
    sym::assume(len >= pad && len <= (max + 1) * size && off + len <= B);
    let base = buf.0.as_ptr() as usize;
    let fit = (len - pad) / size;
    sym::assume(fit <= max);
    let mem = &mut buf.0[off..off + len];
    let mut pool = unsafe { FixedPool::<T>::new(mem) };
    let mut i = 0;
    let mut got = [0usize; 8];
    while i < fit {
        check!(pool.can_allocate(), "a pool with room says it is full");
        let p: *mut T = pool.allocate(1);
        check!(!p.is_null(), "a pool with room hands out nothing");
        let a = p as usize;
        check!(a % align == 0, "a node is not aligned");
        check!(a >= base + off && a + size <= base + off + len, "a node is outside the buffer");
        let mut j = 0;
        while j < i {
            check!(got[j] + size <= a || a + size <= got[j], "two nodes overlap");
            j += 1;
        }
        got[i] = a;
        i += 1;
    }
    check!(!pool.can_allocate(), "a full pool says it has room");
    let p: *mut T = pool.allocate(1);
    check!(p.is_null(), "a full pool hands out a node");
    witness!(fit == max && off % align == 1 % align, "the largest buffer, off its alignment");
}

/// An arbitrary state of a pool of `k` nodes at `at` in `buf`: which are in use, the order of the returned ones.
pub struct State {
    pub used: [bool; 4],
    pub bump: usize,
    /// returned nodes, first to be handed out again first
    pub free: [usize; 4],
    pub nfree: usize,
}
impl State {
    /// `bump` nodes have been handed out at least once, `nfree` of them returned, in an order the solver picks.
    fn any(bump: usize, nfree: usize) -> State {
        let mut s = State { used: [false; 4], bump, free: [0; 4], nfree };
        let mut i = 0;
        while i < bump {
            s.used[i] = true;
            i += 1;
        }
        i = 0;
        while i < nfree {
            let f = sym::below(bump as u8) as usize;
            sym::assume(s.used[f]);
            s.used[f] = false;
            s.free[i] = f;
            i += 1;
        }
        s
    }
    unsafe fn build<T>(&self, base: *mut u8, k: usize, p: *mut RawPool) {
        let size = size_of::<T>();
        (*p).next = base.add(self.bump * size);
        (*p).capacity = base.add(k * size);
        (*p).head = std::ptr::null_mut();
        let mut i = self.nfree;
        while i > 0 {
            i -= 1;
            let n = base.add(self.free[i] * size) as *mut RawFree;
            (*n).next = (*p).head;
            (*p).head = n;
        }
    }
}
/// Takes everything that is left; exactly the nodes not in use come out, each once.
fn drain<T, P: Allocator>(pool: &mut P, base: *mut u8, k: usize, used: &mut [bool; 4], can: fn(&P) -> bool) {
    let mut left = 0;
    let mut i = 0;
    while i < k {
        left += !used[i] as usize;
        i += 1;
    }
    i = 0;
    while i < left {
        check!(can(pool), "a pool with room says it is full");
        take::<T, P>(pool, base, k, used);
        i += 1;
    }
    check!(!can(pool), "a full pool says it has room");
}
fn take<T, P: Allocator>(pool: &mut P, base: *mut u8, k: usize, used: &mut [bool; 4]) {
    let size = size_of::<T>();
    let p: *mut T = pool.allocate(1);
    check!(!p.is_null(), "a pool with room hands out nothing");
    let d = (p as usize).wrapping_sub(base as usize);
    check!(d < k * size && d % size == 0, "a node is not one of the pool's");
    check!(!used[d / size], "a node in use is handed out");
    used[d / size] = true;
}
fn pick(used: &[bool; 4], k: usize) -> usize {
    let i = sym::below(k as u8) as usize;
    sym::assume(used[i]);
    i
}
fn state<T>(bump: usize, nfree: usize, k: usize, give: bool) {
    let mut buf = Buf([0u8; 256]);
    let base = buf.0.as_mut_ptr();
    let mut s = State::any(bump, nfree);
    let mut slot = MaybeUninit::<FixedPool<T>>::uninit();
    check!(size_of::<FixedPool<T>>() == size_of::<RawPool>(), "the pool has the size of the C++ pool");
    let pool = unsafe {
        *slot.as_mut_ptr() = FixedPool::default();
        s.build::<T>(base, k, slot.as_mut_ptr() as *mut RawPool);
        slot.assume_init_mut()
    };
    if give {
        let i = pick(&s.used, k);
        unsafe { pool.deallocate(base.add(i * size_of::<T>()) as *mut T, 1) };
        s.used[i] = false;
        // and the last one returned may be taken and returned again
        take::<T, _>(pool, base, k, &mut s.used);
    }
    drain::<T, _>(pool, base, k, &mut s.used, |p| p.can_allocate());
    let p: *mut T = pool.allocate(1);
    check!(p.is_null(), "a full pool hands out a node");
}
fn states<T>(k: usize) {
    outer(k as u8 + 1, |b| split(b + 1, |f| state::<T>(b as usize, f as usize, k, false)));
}
fn gives<T>(k: usize) {
    outer(k as u8, |b| split(b + 1, |f| state::<T>(b as usize + 1, f as usize, k, true)));
}

/// An overflow allocator that hands out the places a harness picked, and keeps books.
#[derive(Clone, Copy)]
#[repr(C)]
pub struct Over {
    pub _d: u8,
}
pub static mut PLACES: [*mut u8; 2] = [std::ptr::null_mut(); 2];
pub static mut OUT: [bool; 2] = [false; 2];
pub static mut CALLS: usize = 0;
pub static mut NODE: (usize, usize) = (0, 0);
unsafe impl Allocator for Over {
    fn allocate_raw_aligned(&mut self, n: usize, align: usize) -> *mut () {
        unsafe {
            check!((n, align) == NODE, "overflow asked for another size or alignment than a node's");
            let i = if OUT[0] { 1 } else { 0 };
            check!(!OUT[i], "more overflow blocks than the harness needs");
            OUT[i] = true;
            CALLS += 1;
            PLACES[i] as *mut ()
        }
    }
    unsafe fn deallocate_raw_aligned(&mut self, p: *mut (), n: usize, align: usize) {
        check!((n, align) == NODE, "overflow given back another size or alignment than a node's");
        let i = if p as *mut u8 == PLACES[0] { 0 } else { 1 };
        check!(p as *mut u8 == PLACES[i], "the overflow allocator is given a block of the pool");
        check!(OUT[i], "an overflow block is given back twice");
        OUT[i] = false;
        CALLS += 1;
    }
}
/// A full pool between two overflow blocks that touch it: every block goes back where it came from.
fn overflow<T>(k: usize, ends: bool) {
    let mut buf = Buf([0u8; 512]);
    let size = size_of::<T>();
    let base = unsafe { buf.0.as_mut_ptr().add(2 * size) };
    let far = unsafe { base.add((k + 2) * size) };
    unsafe {
        let before = base.sub(size);
        let behind = base.add(k * size);
        PLACES = if ends { [behind, before] } else { [far, behind] };
        OUT = [false; 2];
        CALLS = 0;
        NODE = (size, align_of::<T>());
        let mem = std::slice::from_raw_parts_mut(base, k * size);
        let mut pool = FixedPoolWithOverflow::<T, Over>::new(mem, Over { _d: 0 });
        let mut used = [false; 4];
        drain::<T, _>(&mut pool, base, k, &mut used, |p| p.can_allocate());
        check!(CALLS == 0, "the overflow allocator is asked although the pool has room");
        let a: *mut T = pool.allocate(1);
        let b: *mut T = pool.allocate(1);
        check!(a as *mut u8 == PLACES[0] && b as *mut u8 == PLACES[1], "an overflow block is not what its allocator gave");
        check!(!pool.can_allocate(), "a full pool says it has room");
        // one pool block and one overflow block go back, in either order, and are taken again
        let i = pick(&used, k);
        let node = base.add(i * size) as *mut T;
        let over = sym::below(2) as usize;
        let ob = if over == 0 { a } else { b };
        if sym::boolean() {
            pool.deallocate(node, 1);
            pool.deallocate(ob, 1);
        } else {
            pool.deallocate(ob, 1);
            check!(!pool.can_allocate(), "a block that is not the pool's made room in it");
            pool.deallocate(node, 1);
        }
        check!(CALLS == 3 && !OUT[over] && OUT[1 - over], "exactly the overflow block went back to its allocator");
        used[i] = false;
        check!(pool.can_allocate(), "a returned node is not reused");
        take::<T, _>(&mut pool, base, k, &mut used);
        check!(!pool.can_allocate() && CALLS == 3, "a returned node is reused first, and once");
        let c: *mut T = pool.allocate(1);
        check!(c == ob && CALLS == 4, "the overflow allocator serves a full pool");
    }
    witness!("reached the end");
}

type FL<E, const K: usize> = FixedList<E, K, Led>;
/// The C++ layout of a fixed list.
#[repr(C)]
pub struct RawFixed<E, const K: usize> {
    pub list: RawPooled,
    pub buffer: [MaybeUninit<mlist::RawNode<E>>; K],
    pub pad: MaybeUninit<mlist::RawNode<E>>,
}
/// The list within it, which allocates from the pool.
#[repr(C)]
pub struct RawPooled {
    pub node: mlist::RawLink,
    pub size: u32,
    pub pool: RawPool,
    pub over: Led,
    pub pool_begin: *mut u8,
}
/// A state of a list with two inline nodes: where each element lies (1, 2: inline; 0: overflow, in front of the pool;
/// 3: overflow, right behind it), the returned inline nodes in the order they will be reused, and how many inline
/// nodes were ever used.
pub struct At2(pub &'static [usize], pub &'static [usize], pub usize);
pub const STATES: [At2; 15] = [
    At2(&[], &[], 0),
    At2(&[1], &[], 1),
    At2(&[], &[1], 1),
    At2(&[1, 2], &[], 2),
    At2(&[2, 1], &[], 2),
    At2(&[2], &[1], 2),
    At2(&[1], &[2], 2),
    At2(&[], &[1, 2], 2),
    At2(&[], &[2, 1], 2),
    At2(&[1, 2, 3], &[], 2),
    At2(&[3, 2], &[1], 2),
    At2(&[2, 0], &[1], 2),
    At2(&[3], &[1, 2], 2),
    At2(&[2, 3, 1], &[], 2),
    At2(&[0, 3], &[2, 1], 2),
];
/// Nodes of an arena: 1 and 2 are the pool, the others the overflow allocator's.
#[repr(C)]
pub struct ANode<E> {
    pub base: mlist::RawLink,
    pub value: MaybeUninit<E>,
}
pub const ARENA: usize = 7;
pub const NULL: *mut mlist::RawLink = std::ptr::null_mut();
/// The overflow allocator over the arena: hands out 3, 0, 4, 5, 6, whichever is not out.
#[derive(Clone, Copy, Default)]
#[repr(C)]
pub struct Arena {
    pub _d: u8,
}
pub struct ABooks {
    pub base: *mut u8,
    pub out: [bool; ARENA],
    pub allocs: usize,
    pub size: usize,
    pub align: usize,
}
pub static mut AB: ABooks = ABooks { base: std::ptr::null_mut(), out: [false; ARENA], allocs: 0, size: 0, align: 0 };
unsafe impl Allocator for Arena {
    fn allocate_raw_aligned(&mut self, n: usize, align: usize) -> *mut () {
        unsafe {
            check!(n == AB.size && align == AB.align, "overflow asked for another size or alignment than a node's");
            AB.allocs += 1;
            let mut i = 3;
            if AB.out[3] {
                i = if !AB.out[0] {
                    0
                } else if !AB.out[4] {
                    4
                } else if !AB.out[5] {
                    5
                } else {
                    6
                };
            }
            check!(!AB.out[i], "more overflow blocks than elements");
            AB.out[i] = true;
            AB.base.add(i * AB.size) as *mut ()
        }
    }
    unsafe fn deallocate_raw_aligned(&mut self, p: *mut (), n: usize, align: usize) {
        check!(n == AB.size && align == AB.align, "overflow given back another size or alignment than a node's");
        let mut i = 0;
        while i < ARENA {
            if p as *mut u8 == AB.base.add(i * AB.size) {
                check!(i != 1 && i != 2, "the overflow allocator is given a node of the pool");
                check!(AB.out[i], "an overflow block is given back twice");
                AB.out[i] = false;
                return;
            }
            i += 1;
        }
        check!(false, "the overflow allocator is given a block it never gave");
    }
}
pub fn out() -> usize {
    let mut n = 0;
    let mut i = 0;
    while i < ARENA {
        n += unsafe { AB.out[i] } as usize;
        i += 1;
    }
    n
}
pub type Pooled<E> = <FixedList<E, 2, Arena> as Deref>::Target;
pub type PSlot<E> = MaybeUninit<Pooled<E>>;
pub fn arena<E>() -> [ANode<E>; ARENA] {
    std::array::from_fn(|_| ANode { base: mlist::RawLink { next: NULL, prev: NULL }, value: MaybeUninit::uninit() })
}
pub fn pooled<'a, E: El, const N: usize>(slot: &'a mut PSlot<E>, buf: &mut [ANode<E>; ARENA], s: &Seq<N>, at: &At2) -> &'a mut Pooled<E> {
    check!(size_of::<Pooled<E>>() == size_of::<RawPooled>(), "the fixed list has the size of the C++ one");
    unsafe {
        fill_pooled(slot.as_mut_ptr() as *mut RawPooled, buf, s, at);
        &mut *slot.as_mut_ptr()
    }
}
/// The header of a list in C++ layout, over a pool that is nodes 1 and 2 of the arena.
pub unsafe fn fill_pooled<E: El, const N: usize>(r: *mut RawPooled, buf: &mut [ANode<E>; ARENA], s: &Seq<N>, at: &At2) {
        let buf = buf.as_mut_ptr();
        AB.base = buf as *mut u8;
        AB.out = [false; ARENA];
        AB.size = size_of::<ANode<E>>();
        AB.align = align_of::<ANode<E>>();
        let head = std::ptr::addr_of_mut!((*r).node);
        (*head).next = head;
        (*head).prev = head;
        let mut i = 0;
        while i < s.n {
            let p = at.0[i];
            if p == 0 || p > 2 {
                AB.out[p] = true;
            }
            let n = buf.add(p);
            let last = (*head).prev;
            (*n).base.next = head;
            (*n).base.prev = last;
            (*n).value = MaybeUninit::new(E::mk(s.a[i]));
            (*last).next = n as *mut mlist::RawLink;
            (*head).prev = n as *mut mlist::RawLink;
            i += 1;
        }
        (*r).size = s.n as u32;
        (*r).pool_begin = buf.add(1) as *mut u8;
        (*r).pool.next = buf.add(1 + at.2) as *mut u8;
        (*r).pool.capacity = buf.add(3) as *mut u8;
        (*r).pool.head = std::ptr::null_mut();
        i = at.1.len();
        while i > 0 {
            i -= 1;
            let f = buf.add(at.1[i]) as *mut RawFree;
            (*f).next = (*r).pool.head;
            (*r).pool.head = f;
        }
}
/// A list made by the crate: its pool is the whole buffer, inside the object, and it is empty.
fn made<E: El, const K: usize>() {
    reset::<E, Led>();
    let mut slot = MaybeUninit::<FL<E, K>>::uninit();
    unsafe {
        New::new(FL::<E, K>::new_in(Led::default()), Pin::new_unchecked(&mut slot));
        let r = slot.as_ptr() as *const RawFixed<E, K>;
        let lo = r as usize;
        let hi = lo + size_of::<FL<E, K>>();
        let next = (*r).list.pool.next as usize;
        let cap = (*r).list.pool.capacity as usize;
        let size = size_of::<mlist::RawNode<E>>();
        check!((*r).list.pool.head.is_null(), "a new pool has no returned nodes");
        check!(next >= lo && cap <= hi, "the inline nodes lie in the list");
        check!(next >= std::ptr::addr_of!((*r).buffer) as usize, "the inline nodes lie behind the header");
        check!(next % align_of::<mlist::RawNode<E>>() == 0, "the inline nodes are aligned");
        check!(cap - next == K * size, "there are as many inline nodes as promised");
        let begin = (*r).list.pool_begin as usize;
        check!(begin <= next && begin >= std::ptr::addr_of!((*r).buffer) as usize, "blocks of the pool are recognised");
        let l = slot.assume_init_mut();
        mlist::ring::<E, _, 2>(&**l, &Seq::<2>::new());
        std::ptr::drop_in_place(l);
    }
    finish::<E, Led>();
    witness!("reached the end");
}
fn list_op<E: El, const N: usize>(l: &mut Pooled<E>, m: &mut Seq<N>, o: u8) {
    let (n, allocs, over) = (m.n, unsafe { AB.allocs }, out());
    mlist::op(l, m, o);
    if m.n > n {
        let room = 2 - (n - over);
        let add = m.n - n;
        let more = if add > room { add - room } else { 0 };
        check!(unsafe { AB.allocs } == allocs + more, "nothing is allocated while an inline node is free");
    } else {
        check!(unsafe { AB.allocs } == allocs, "nothing is allocated when nothing is added");
    }
    // every element in the pool or in a block that is out, and no block out without an element
    let mut seen = 0;
    for e in l.iter() {
        let d = (e as *const E as usize).wrapping_sub(unsafe { AB.base as usize } + 16) / size_of::<ANode<E>>();
        check!(d < ARENA, "an element lies nowhere");
        let inline = d == 1 || d == 2;
        check!(inline || unsafe { AB.out[d] }, "an element lies in a block that is not allocated");
        seen += !inline as usize;
    }
    check!(out() == seen, "overflow nodes are alive exactly while they hold an element");
}
fn list<E: El>(at: &At2, o1: u8) {
    E::reset();
    let mut m = Seq::<6>::fill_of::<E>(at.0.len());
    let mut buf = arena::<E>();
    let mut slot = MaybeUninit::uninit();
    let l = pooled::<E, 6>(&mut slot, &mut buf, &m, at);
    list_op::<E, 6>(l, &mut m, o1);
    mlist::same_list(l, &m);
    mlist::ring(l, &m);
    unsafe { std::ptr::drop_in_place(l) };
    E::finish();
    check!(out() == 0, "an overflow block was not returned");
}
fn list2<E: El>(at: &At2, o1: u8, o2: u8) {
    E::reset();
    let mut m = Seq::<8>::fill_of::<E>(at.0.len());
    let mut buf = arena::<E>();
    let mut slot = MaybeUninit::uninit();
    let l = pooled::<E, 8>(&mut slot, &mut buf, &m, at);
    list_op::<E, 8>(l, &mut m, o1);
    list_op::<E, 8>(l, &mut m, o2);
    mlist::same_list(l, &m);
    unsafe { std::ptr::drop_in_place(l) };
    E::finish();
    check!(out() == 0, "an overflow block was not returned");
}
fn lists<E: El>(o1: u8) {
    split(STATES.len() as u8, |i| list::<E>(&STATES[i as usize], o1));
}
fn lists2<E: El>(o1: u8) {
    outer(STATES.len() as u8, |i| split(5, |o| list2::<E>(&STATES[i as usize], o1, o)));
}
fn map() {
    reset::<u32, Led>();
    let mut slot = MaybeUninit::<FixedMapWithOverflow<u32, u32, 2, Led>>::uninit();
    unsafe {
        New::new(FixedMapWithOverflow::<u32, u32, 2, Led>::new(), Pin::new_unchecked(&mut slot));
        let m = slot.assume_init_mut();
        let k = sym::u32();
        check!(m.is_empty() && m.len() == 0, "a new fixed map is empty");
        check!(m.get(&k).is_none(), "a new fixed map finds nothing");
        std::ptr::drop_in_place(m);
    }
    finish::<u32, Led>();
    witness!("reached the end");
}

harnesses! {
    init_16 [6] { init::<N16, 96>(3); }
    init_24 [6] { init::<N24, 128>(3); }
    init_32 [6] { init::<N32, 192>(3); }
    init_32a [6] { init::<N32A, 192>(3); }
    state_16 [6] { states::<N16>(3); }
    state_24 [6] { states::<N24>(3); }
    give_16 [6] { gives::<N16>(3); }
    give_32 [6] { gives::<N32>(3); }
    over_1 [6] { overflow::<N24>(1, true); }
    over_3 [6] { overflow::<N24>(3, true); }
    over_far [6] { overflow::<N32>(2, false); }
    made_2 [6] { made::<u32, 2>(); }
    made_3 [6] { made::<E40, 3>(); }
    made_u8 [6] { made::<u8, 3>(); }
    made_a16 [6] { made::<A16, 2>(); }
    made_a64 [6] { made::<A64, 3>(); }
    made_0 [6] { made::<u64, 0>(); }
    list_push_back [18] { lists::<u32>(mlist::PUSH_BACK); }
    list_push_front [18] { lists::<u32>(mlist::PUSH_FRONT); }
    list_pop_back [18] { lists::<u32>(mlist::POP_BACK); }
    list_pop_front [18] { lists::<u32>(mlist::POP_FRONT); }
    list_clear [18] { lists::<u32>(mlist::CLEAR); }
    list_extend [18] { lists::<u32>(mlist::EXTEND); }
    list_push_tracked [18] { lists::<D>(mlist::PUSH_BACK); }
    list_clear_tracked [18] { lists::<D>(mlist::CLEAR); }
    list_pop_wide [18] { lists::<E40>(mlist::POP_FRONT); }
    x_push_back2 [18] { lists2::<u32>(mlist::PUSH_BACK); }
    x_push_front2 [18] { lists2::<u64>(mlist::PUSH_FRONT); }
    x_pop_back2 [18] { lists2::<u32>(mlist::POP_BACK); }
    x_pop_front2 [18] { lists2::<E40>(mlist::POP_FRONT); }
    x_clear2 [18] { lists2::<D>(mlist::CLEAR); }
    map_new [6] { map(); }
}
