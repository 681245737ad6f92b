//! Typed allocation and deallocation: every 64-bit count, element sizes 1, 2, 3, 4, 5, 8, 12, 16, 24, 40, 64, 128
//! and 4096 with alignments 1 to 64; raw allocation: every byte count. Vector (same sizes, from every state of
//! capacity 0..=3), VectorMap and String: with_capacity and reserve of every 64-bit count. Requests above 256 bytes are judged and the
//! execution ends there. DefaultAllocator: every byte count and alignments 1..=4096 with the system allocator replaced by one that
//! records (Kani only), blocks of 1..=64 bytes for real.
use crate::el::*;
use crate::env::{outer, split};
use crate::mvec::{self, vec_at, RawVec};
use crate::sym;
use eastl_rs::compare::Less;
use eastl_rs::string::String;
use eastl_rs::vector::Vector;
use eastl_rs::vector_map::VectorMap;
use eastl_rs::{Allocator, DefaultAllocator};
use std::alloc::Layout;
use std::mem::{align_of, size_of, ManuallyDrop};

/// What the next request must come to.
struct Want {
    on: bool,
    exact: bool,
    bytes: u128,
    align: usize,
    got: usize,
    asked: u8,
}
static mut WANT: Want = Want { on: false, exact: false, bytes: 0, align: 0, got: 0, asked: 0 };
fn want(exact: bool, bytes: u128, align: usize) {
    unsafe { WANT = Want { on: true, exact, bytes, align, got: 0, asked: 0 } }
}
fn got() -> usize {
    unsafe { WANT.got }
}
const ROOM: usize = 256;
/// Judges every request; grants small ones, and stops at others as an allocator out of memory does.
#[derive(Clone, Copy)]
#[repr(C)]
pub struct Judge {
    pub _d: u8,
}
impl Default for Judge {
    fn default() -> Self {
        Judge { _d: 0 }
    }
}
unsafe impl Allocator for Judge {
    fn allocate_raw_aligned(&mut self, n: usize, align: usize) -> *mut () {
        unsafe {
            if WANT.on {
                check!(WANT.asked == 0, "one request is made as two");
                if WANT.exact {
                    check!(n as u128 == WANT.bytes, "the request is not count times size");
                } else {
                    check!(n as u128 >= WANT.bytes, "the request is smaller than what was asked for");
                }
                check!(align == WANT.align, "the request has the alignment of the type");
                WANT.got = n;
                WANT.asked = 1;
                sym::assume(n <= ROOM);
            }
            std::alloc::alloc(Layout::from_size_align_unchecked(ROOM + 4096 * (!WANT.on) as usize, 64)) as *mut ()
        }
    }
    unsafe fn deallocate_raw_aligned(&mut self, _p: *mut (), _n: usize, _align: usize) {}
}
impl Al for Judge {}
/// Takes note of what it is asked for, and has no memory.
#[derive(Clone, Copy, Default)]
struct Note {
    n: usize,
    align: usize,
    p: usize,
    calls: u32,
}
unsafe impl Allocator for Note {
    fn allocate_raw_aligned(&mut self, n: usize, align: usize) -> *mut () {
        *self = Note { n, align, p: 0, calls: self.calls + 1 };
        0x7000 as *mut ()
    }
    unsafe fn deallocate_raw_aligned(&mut self, p: *mut (), n: usize, align: usize) {
        *self = Note { n, align, p: p as usize, calls: self.calls + 1 };
    }
}
#[derive(Clone, PartialEq, Debug)]
#[repr(align(64))]
struct A64(u8);
#[derive(Clone, PartialEq, Debug)]
#[repr(align(32))]
struct A32([u64; 16]);

/// Any count.
fn typed<T>() {
    let n = sym::usize();
    sym::assume(n != 0);
    let mut a = Note::default();
    let p = sym::may_refuse(|| a.allocate::<T>(n));
    if let Some(p) = p {
        check!(a.calls == 1 && a.n as u128 == n as u128 * size_of::<T>() as u128, "an allocation asks for count times size bytes");
        check!(a.align == align_of::<T>(), "an allocation asks for the alignment of the type");
        check!(p as usize == 0x7000, "what the allocator gave is what the caller gets");
    }
}
/// Any count that a block can have: accepted, and returned as it was asked for.
fn typed_back<T>() {
    let n = sym::usize();
    sym::assume(n != 0 && n <= isize::MAX as usize / size_of::<T>());
    let mut a = Note::default();
    let p = a.allocate::<T>(n);
    check!(a.n as u128 == n as u128 * size_of::<T>() as u128, "an allocation asks for count times size bytes");
    unsafe { a.deallocate::<T>(p, n) };
    check!(a.calls == 2 && a.n as u128 == n as u128 * size_of::<T>() as u128 && a.align == align_of::<T>() && a.p == 0x7000, "a block goes back as it was asked for");
}
fn capacity_ok<E>(v: &Vector<E, Judge>, asked: u128) {
    unsafe {
        let r = &*(v as *const Vector<E, Judge> as *const RawVec<E, Judge>);
        let cap = v.capacity();
        check!(cap as u128 >= asked, "the capacity is smaller than what was asked for");
        check!(cap as u128 * size_of::<E>() as u128 <= got() as u128, "the capacity is larger than the memory");
        check!(r.begin.wrapping_add(cap) == r.cap, "the end of the capacity is where the capacity says");
    }
}
fn with_capacity<E: 'static>() {
    let n = sym::usize();
    want(false, n as u128 * size_of::<E>() as u128, align_of::<E>());
    sym::may_refuse(|| {
        let v = ManuallyDrop::new(Vector::<E, Judge>::with_capacity(n));
        capacity_ok(&v, n as u128);
        check!(v.len() == 0, "a new vector is empty");
    });
}
fn reserve<E: El>() {
    let n = sym::usize();
    mvec::shapes(3, |len, cap| {
        unsafe { WANT.on = false };
        let m = Seq::<4>::fill_of::<E>(len);
        let mut v = ManuallyDrop::new(vec_at::<E, Judge, 4>(&m, cap));
        want(false, (cap as u128 + n as u128) * size_of::<E>() as u128, align_of::<E>());
        sym::may_refuse(|| {
            v.reserve(n);
            if n > 0 {
                capacity_ok(&v, n as u128 + cap as u128);
            }
            check!(v.len() == len && v.capacity() >= cap, "reserving changes no element");
        });
    })
}
/// Growth by an operation: the new capacity is what the block holds.
fn grows<E: El>(o: u8, k: u8) {
    mvec::outer_shapes(2, |len, cap| {
        split(k, |k| {
            unsafe { WANT.on = false };
            let mut m = Seq::<10>::fill_of::<E>(len);
            let mut v = ManuallyDrop::new(vec_at::<E, Judge, 10>(&m, cap));
            // any request, at the alignment; what comes of it is looked at afterwards
            want(false, 1, align_of::<E>());
            let p = v.as_slice().as_ptr();
            mvec::op(&mut *v, &mut m, o, k as usize);
            if v.as_slice().as_ptr() != p {
                capacity_ok(&v, m.n as u128);
            } else {
                check!(v.capacity() == cap, "a vector that did not grow has the capacity it had");
            }
        })
    })
}
fn string_capacity(s: &String<Judge>, asked: u128) {
    unsafe {
        let r = &*(s as *const String<Judge> as *const RawVec<u8, Judge>);
        let cap = (r.cap as usize).wrapping_sub(r.begin as usize);
        check!(s.is_empty() || !r.begin.is_null(), "a text has storage");
        check!(cap as u128 >= asked, "the capacity is smaller than what was asked for");
        check!((cap as u128) < got() as u128, "the capacity leaves no room for the terminator");
        check!(*r.begin.wrapping_add(cap) == 0 && *r.end == 0, "the text is terminated");
    }
}

/// The system allocator as the solver sees it here: asked, and answering with an address only.
#[cfg(kani)]
mod system {
    use std::alloc::Layout;
    pub static mut SIZE: usize = 0;
    pub static mut ALIGN: usize = 0;
    pub static mut CALLS: u8 = 0;
    pub unsafe fn alloc(l: Layout) -> *mut u8 {
        SIZE = l.size();
        ALIGN = l.align();
        CALLS += 1;
        l.align() as *mut u8
    }
    pub unsafe fn none(_: Layout) -> *mut u8 {
        std::ptr::null_mut()
    }
    pub fn out_of_memory(_: Layout) -> ! {
        crate::sym::assume(false);
        loop {}
    }
    pub unsafe fn dealloc(p: *mut u8, l: Layout) {
        assert!(p as usize == ALIGN && l.size() == SIZE && l.align() == ALIGN, "a block goes back with another layout");
        CALLS += 1;
    }
    pub fn calls() -> u8 {
        unsafe { CALLS }
    }
}
fn align_any() -> usize {
    let a = sym::below(13);
    1usize << a
}

harnesses! {
    typed_small_refuses [14] { split(6, |t| match t {
        0 => typed::<u8>(),
        1 => typed::<u16>(),
        2 => typed::<[u8; 3]>(),
        3 => typed::<u32>(),
        4 => typed::<[u8; 5]>(),
        _ => typed::<u64>(),
    }); }
    typed_large_refuses [14] { split(8, |t| match t {
        0 => typed::<E12>(),
        1 => typed::<u128>(),
        2 => typed::<[u64; 3]>(),
        3 => typed::<E40>(),
        4 => typed::<A64>(),
        5 => typed::<A32>(),
        6 => typed::<[u8; 4096]>(),
        _ => typed::<[u16; 100]>(),
    }); }
    typed_back_small [14] { split(6, |t| match t {
        0 => typed_back::<u8>(),
        1 => typed_back::<u16>(),
        2 => typed_back::<[u8; 3]>(),
        3 => typed_back::<u32>(),
        4 => typed_back::<[u8; 5]>(),
        _ => typed_back::<u64>(),
    }); }
    typed_back_large [14] { split(8, |t| match t {
        0 => typed_back::<E12>(),
        1 => typed_back::<u128>(),
        2 => typed_back::<[u64; 3]>(),
        3 => typed_back::<E40>(),
        4 => typed_back::<A64>(),
        5 => typed_back::<A32>(),
        6 => typed_back::<[u8; 4096]>(),
        _ => typed_back::<[u16; 100]>(),
    }); }
    raw [2] {
        let n = sym::usize();
        sym::assume(n != 0);
        let mut a = Note::default();
        let p = a.allocate_raw(n);
        check!(a.n == n && a.align == 8 && p as usize == 0x7000, "a raw allocation asks for the bytes at the alignment of usize");
        unsafe { a.deallocate_raw(p, n) };
        check!(a.n == n && a.align == 8 && a.p == 0x7000, "a raw block goes back as it was asked for");
        witness!("end");
    }
    with_capacity_small_refuses [14] { split(3, |t| match t {
        0 => with_capacity::<u8>(),
        1 => with_capacity::<u32>(),
        _ => with_capacity::<u64>(),
    }); }
    with_capacity_large_refuses [14] { split(4, |t| match t {
        0 => with_capacity::<E12>(),
        1 => with_capacity::<E40>(),
        2 => with_capacity::<[u8; 4096]>(),
        _ => with_capacity::<A64>(),
    }); }
    vmap_capacity_refuses [14] {
        let n = sym::usize();
        want(false, n as u128 * 16, 8);
        sym::may_refuse(|| {
            let v = ManuallyDrop::new(VectorMap::<u64, u32, Judge, Less<u64>>::with_capacity(n));
            check!(v.capacity() >= n && v.len() == 0, "the capacity is smaller than what was asked for");
            check!(v.capacity() as u128 * 16 <= got() as u128, "the capacity is larger than the memory");
        });
        witness!("end");
    }
    reserve8_refuses [14] { reserve::<u8>(); }
    reserve32_refuses [14] { reserve::<u32>(); }
    reserve12_refuses [14] { reserve::<E12>(); }
    reserve40_refuses [14] { reserve::<E40>(); }
    reserve64_refuses [14] { reserve::<u64>(); }
    push [14] { grows::<u32>(mvec::PUSH, 1); }
    push12 [14] { grows::<E12>(mvec::PUSH, 1); }
    append [14] { grows::<u32>(mvec::APPEND, 4); }
    append40 [14] { grows::<E40>(mvec::APPEND, 3); }
    assign [14] { grows::<u32>(mvec::ASSIGN, 4); }
    insert [14] { grows::<u64>(mvec::INSERT, 1); }
    string_capacity_refuses [14] {
        let n = sym::usize();
        want(false, n as u128 + 1, 1);
        sym::may_refuse(|| {
            let s = ManuallyDrop::new(String::<Judge>::with_capacity(n));
            if n > 0 {
                string_capacity(&s, n as u128);
            }
            check!(s.is_empty(), "a new string is empty");
        });
        witness!("end");
    }
    string_reserve_refuses [14] {
        let n = sym::usize();
        split(5, |st| {
            unsafe { WANT.on = false };
            let (len, cap) = [(0, 0), (0, 2), (1, 1), (2, 3), (3, 3)][st as usize];
            let mut t = crate::mstr::Txt::<8>::new();
            for _ in 0..len {
                t.push('a' as u32, 1);
            }
            let mut s = ManuallyDrop::new(crate::mstr::str_at::<Judge, 8>(&t, cap, st > 0));
            want(false, cap as u128 + n as u128 + 1, 1);
            sym::may_refuse(|| {
                s.reserve(n);
                if got() > 0 {
                    string_capacity(&s, cap as u128 + n as u128);
                } else {
                    check!(n == 0, "reserving asks for memory");
                }
                check!(s.len() == len, "reserving changes no char");
            });
        });
    }
    // the default allocator
    #[cfg_attr(kani, kani::stub(std::alloc::alloc, system::alloc))]
    #[cfg_attr(kani, kani::stub(std::alloc::dealloc, system::dealloc))]
    default_layout_refuses [16] {
        let n = sym::usize();
        let a = align_any();
        sym::assume(n != 0);
        // natively, no request the system could grant in earnest
        #[cfg(not(kani))]
        sym::assume(n <= 1 << 20 || n > isize::MAX as usize - 4096);
        sym::may_refuse(|| {
            let mut d = DefaultAllocator::new();
            let p = d.allocate_raw_aligned(n, a);
            #[cfg(kani)]
            unsafe {
                check!(system::calls() == 1 && system::SIZE == n && system::ALIGN == a, "the system allocator is asked for what was asked");
            }
            check!(!p.is_null() && p as usize % a == 0, "a block is aligned as asked");
            unsafe { d.deallocate_raw_aligned(p, n, a) };
            #[cfg(kani)]
            check!(system::calls() == 2, "a block goes back to the system allocator");
        });
        witness!("end");
    }
    #[cfg_attr(kani, kani::stub(std::alloc::alloc, system::alloc))]
    #[cfg_attr(kani, kani::stub(std::alloc::dealloc, system::dealloc))]
    default_accepts [4] {
        // what a program can ask for is granted
        let n = sym::usize();
        let a = align_any();
        sym::assume(n != 0 && n <= 1 << 40);
        #[cfg(not(kani))]
        sym::assume(n <= 1 << 20);
        let mut d = DefaultAllocator::default();
        let p = d.allocate_raw_aligned(n, a);
        check!(!p.is_null() && p as usize % a == 0, "a block is aligned as asked");
        unsafe { d.deallocate_raw_aligned(p, n, a) };
        witness!("end");
    }
    #[cfg_attr(kani, kani::stub(std::alloc::alloc, system::alloc))]
    #[cfg_attr(kani, kani::stub(std::alloc::dealloc, system::dealloc))]
    default_typed [14] {
        split(5, |t| {
            let n = sym::usize();
            sym::assume(n != 0 && n <= 1 << 16);
            let mut d = DefaultAllocator::default();
            macro_rules! one { ($t:ty) => {{
                let p = d.allocate::<$t>(n);
                #[cfg(kani)]
                unsafe { check!(system::SIZE == n * size_of::<$t>() && system::ALIGN == align_of::<$t>(), "the system allocator is asked for what was asked") };
                check!(p as usize % align_of::<$t>() == 0, "a block is aligned as asked");
                unsafe { d.deallocate::<$t>(p, n) };
            }} }
            match t {
                0 => one!(u8),
                1 => one!(E12),
                2 => one!(u128),
                3 => one!(A64),
                _ => one!(A32),
            }
        });

    }
    default_block [12] {
        split(8, |i| {
            let n = [1, 2, 7, 8, 20, 33, 64, 100][i as usize];
            let mut d = DefaultAllocator::default();
            let a = 1usize << (i & 3);
            unsafe {
                let p = d.allocate_raw_aligned(n, a) as *mut u8;
                let q = d.allocate_raw_aligned(n, 16) as *mut u8;
                let (x, y) = (sym::u8(), sym::u8());
                *p = x;
                *p.add(n - 1) = y;
                *q = !x;
                *q.add(n - 1) = !y;
                check!((n == 1 || *p == x) && *p.add(n - 1) == y, "a block keeps what is written");
                d.deallocate_raw_aligned(p as *mut (), n, a);
                check!(*q.add(n - 1) == !y, "returning a block leaves others alone");
                d.deallocate_raw_aligned(q as *mut (), n, 16);
            }
        });
    }
    #[cfg_attr(kani, kani::stub(std::alloc::alloc, system::none))]
    #[cfg_attr(kani, kani::stub(std::alloc::handle_alloc_error, system::out_of_memory))]
    default_none_may_refuse [4] {
        // the system has no memory left
        witness!("start");
        #[cfg(kani)]
        {
            DefaultAllocator::default().allocate_raw_aligned(sym::usize() & 0xffff | 1, align_any());
            check!(false, "a block is made out of nothing");
        }
    }
}
