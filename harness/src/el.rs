//! Element types and allocators the steps are generic over: which ones a harness uses decides
//! which property it looks at (contents, blocks or ownership).
use crate::env::*;
use crate::sym;
use eastl_rs::Allocator;
use std::alloc::Layout;

/// An element: made from a symbolic value, and telling it again.
pub trait El: Clone + PartialEq + Sized + 'static {
    fn mk(v: u32) -> Self;
    fn val(&self) -> u32;
    /// Looked at while it must be alive.
    fn see(&self) -> u32 {
        self.val()
    }
    fn reset() {}
    fn finish() {}
    fn live() -> usize {
        0
    }
    const TRACKED: bool = false;
    const MASK: u32 = !0;
}
impl El for u32 {
    fn mk(v: u32) -> u32 {
        v
    }
    fn val(&self) -> u32 {
        *self
    }
}
impl El for u8 {
    const MASK: u32 = 0xff;
    fn mk(v: u32) -> u8 {
        v as u8
    }
    fn val(&self) -> u32 {
        *self as u32
    }
}
impl El for u64 {
    fn mk(v: u32) -> u64 {
        v as u64 | (v as u64) << 32
    }
    fn val(&self) -> u32 {
        if *self as u32 == (*self >> 32) as u32 {
            *self as u32
        } else {
            !(*self as u32)
        }
    }
}
/// 12 bytes, alignment 4
#[derive(Clone, Copy, PartialEq, Debug)]
#[repr(C)]
pub struct E12(pub u32, pub u32, pub u32);
impl El for E12 {
    fn mk(v: u32) -> E12 {
        E12(v, !v, v ^ 0x55)
    }
    fn val(&self) -> u32 {
        if self.1 == !self.0 && self.2 == self.0 ^ 0x55 {
            self.0
        } else {
            !self.0
        }
    }
}
/// alignment 16
#[derive(Clone, Copy, PartialEq, Debug)]
#[repr(C, align(16))]
pub struct A16 {
    pub v: u32,
    pub w: u32,
}
impl El for A16 {
    fn mk(v: u32) -> A16 {
        A16 { v, w: !v }
    }
    fn val(&self) -> u32 {
        if self.w == !self.v {
            self.v
        } else {
            !self.v
        }
    }
}
/// alignment 64
#[derive(Clone, Copy, PartialEq, Debug)]
#[repr(C, align(64))]
pub struct A64(pub A16);
impl El for A64 {
    fn mk(v: u32) -> A64 {
        A64(A16::mk(v))
    }
    fn val(&self) -> u32 {
        self.0.val()
    }
}
/// 40 bytes: four to a deque block
#[derive(Clone, Copy, PartialEq, Debug)]
#[repr(C)]
pub struct E40 {
    pub v: u32,
    pub w: u32,
    pub pad: [u64; 4],
}
impl El for E40 {
    fn mk(v: u32) -> E40 {
        E40 { v, w: !v, pad: [0; 4] }
    }
    fn val(&self) -> u32 {
        if self.w == !self.v {
            self.v
        } else {
            !self.v
        }
    }
}
impl El for D {
    fn mk(v: u32) -> D {
        D::new(v)
    }
    fn val(&self) -> u32 {
        self.v
    }
    fn see(&self) -> u32 {
        check!(D::live(self), "an element that is reachable is not alive");
        self.v
    }
    fn reset() {
        unsafe {
            NEXT = 0;
            LIFE = [0; MAXD];
        }
    }
    fn finish() {
        all_dropped()
    }
    fn live() -> usize {
        live_values()
    }
    const TRACKED: bool = true;
}
/// A tracked element of 40 bytes: four to a deque block
#[derive(Clone, PartialEq, Debug)]
#[repr(C)]
pub struct D40 {
    pub d: D,
    pub pad: [u64; 4],
}
impl El for D40 {
    fn mk(v: u32) -> D40 {
        D40 { d: D::new(v), pad: [0; 4] }
    }
    fn val(&self) -> u32 {
        self.d.v
    }
    fn see(&self) -> u32 {
        self.d.see()
    }
    fn reset() {
        D::reset()
    }
    fn finish() {
        all_dropped()
    }
    fn live() -> usize {
        live_values()
    }
    const TRACKED: bool = true;
}

/// An allocator as a harness uses it.
pub trait Al: Allocator + Default + Clone {
    fn reset() {}
    fn finish() {}
    fn blocks() -> usize {
        0
    }
    const BOOKS: bool = false;
}
impl Al for Led {
    fn reset() {
        unsafe {
            BOOKS.blocks = 0;
            BOOKS.bytes = 0;
            BOOKS.aligns = 0;
            BOOKS.allocs = 0;
        }
    }
    fn finish() {
        no_leak()
    }
    fn blocks() -> usize {
        live_blocks()
    }
    const BOOKS: bool = true;
}
/// Hands out fresh blocks and never reuses one: for harnesses that look at contents only.
#[derive(Clone, Copy)]
#[repr(C)]
pub struct Plain {
    pub _d: u8,
}
impl Default for Plain {
    fn default() -> Self {
        Plain { _d: 0 }
    }
}
unsafe impl Allocator for Plain {
    fn allocate_raw_aligned(&mut self, n: usize, align: usize) -> *mut () {
        unsafe {
            let p = std::alloc::alloc(Layout::from_size_align_unchecked(if n == 0 { 1 } else { n }, align));
            #[cfg(not(kani))]
            std::ptr::write_bytes(p, 0xA5, n);
            p as *mut ()
        }
    }
    unsafe fn deallocate_raw_aligned(&mut self, _p: *mut (), _n: usize, _align: usize) {
        #[cfg(not(kani))]
        std::ptr::write_bytes(_p as *mut u8, 0xDD, _n);
    }
}
impl Al for Plain {}

pub fn reset<E: El, A: Al>() {
    E::reset();
    A::reset();
}
pub fn finish<E: El, A: Al>() {
    E::finish();
    A::finish();
}

/// The ideal sequence.
#[derive(Clone, Copy)]
pub struct Seq<const N: usize> {
    pub a: [u32; N],
    pub n: usize,
}
impl<const N: usize> Seq<N> {
    pub fn new() -> Self {
        Seq { a: [0; N], n: 0 }
    }
    pub fn push(&mut self, v: u32) {
        self.a[self.n] = v;
        self.n += 1;
    }
    pub fn insert(&mut self, i: usize, v: u32) {
        let mut j = self.n;
        while j > 0 {
            if j > i {
                self.a[j] = self.a[j - 1];
            }
            j -= 1;
        }
        self.a[i] = v;
        self.n += 1;
    }
    pub fn remove(&mut self, i: usize) -> Option<u32> {
        if i >= self.n {
            return None;
        }
        let r = self.a[i];
        let mut j = 0;
        while j + 1 < self.n {
            if j >= i {
                self.a[j] = self.a[j + 1];
            }
            j += 1;
        }
        self.n -= 1;
        Some(r)
    }
    pub fn pop(&mut self) -> Option<u32> {
        let n = self.n;
        if n == 0 {
            None
        } else {
            self.remove(n - 1)
        }
    }
    pub fn clear(&mut self) {
        self.n = 0
    }
    pub fn fill(n: usize) -> Self {
        Self::fill_of::<u32>(n)
    }
    pub fn fill_of<E: El>(n: usize) -> Self {
        let mut s = Self::new();
        let mut i = 0;
        while i < n {
            s.push(sym::u32() & E::MASK);
            i += 1;
        }
        s
    }
}

/// What an operation returned, as a value; the element itself is dropped.
pub fn took<E: El>(o: Option<E>) -> Option<u32> {
    match o {
        None => None,
        Some(e) => Some(e.see()),
    }
}
