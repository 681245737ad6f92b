//! The environment of the code under test: an allocator and element types that keep books.
use crate::sym;
use eastl_rs::equals::Equals;
use eastl_rs::hash::Hash;
use eastl_rs::Allocator;
use std::alloc::Layout;

/// Books of every `Led` allocator: what is live, in blocks, bytes and alignments.
pub struct Books {
    pub blocks: usize,
    pub bytes: usize,
    pub aligns: usize,
    pub allocs: usize,
}
pub static mut BOOKS: Books = Books { blocks: 0, bytes: 0, aligns: 0, allocs: 0 };

/// An allocator that hands out real blocks and demands each back exactly once, with the
/// size and alignment it was allocated with. Under Kani the model of `dealloc` checks the
/// pointer and the size; natively a ledger checks pointer, size and alignment, and blocks
/// are poisoned and never reused so that stale accesses show.
#[derive(Clone, Copy)]
#[repr(C)]
pub struct Led {
    pub _d: u8,
}
impl Default for Led {
    fn default() -> Self {
        Led { _d: 0 }
    }
}

#[cfg(not(kani))]
pub mod native {
    use std::cell::RefCell;
    use std::collections::HashMap;
    thread_local! { pub static LEDGER: RefCell<HashMap<usize, (usize, usize)>> = RefCell::new(HashMap::new()); }
}

unsafe impl Allocator for Led {
    fn allocate_raw_aligned(&mut self, n: usize, align: usize) -> *mut () {
        check!(n > 0, "allocation of zero bytes requested");
        check!(align > 0 && align & (align - 1) == 0, "alignment is not a power of two");
        unsafe {
            BOOKS.blocks += 1;
            BOOKS.allocs += 1;
            BOOKS.bytes += n;
            BOOKS.aligns += align;
            let p = std::alloc::alloc(Layout::from_size_align(n, align).unwrap());
            #[cfg(not(kani))]
            {
                std::ptr::write_bytes(p, 0xA5, n);
                native::LEDGER.with(|l| l.borrow_mut().insert(p as usize, (n, align)));
            }
            p as *mut ()
        }
    }
    unsafe fn deallocate_raw_aligned(&mut self, p: *mut (), n: usize, align: usize) {
        check!(BOOKS.blocks > 0, "block returned although none is live");
        check!(BOOKS.bytes >= n && BOOKS.aligns >= align, "block returned with a larger size or alignment");
        BOOKS.blocks -= 1;
        BOOKS.bytes -= n;
        BOOKS.aligns -= align;
        #[cfg(kani)]
        std::alloc::dealloc(p as *mut u8, Layout::from_size_align_unchecked(n, align));
        #[cfg(not(kani))]
        {
            let e = native::LEDGER.with(|l| l.borrow_mut().remove(&(p as usize)));
            check!(e.is_some(), "block returned twice, or never allocated");
            check!(e == Some((n, align)), "block returned with a different size or alignment");
            std::ptr::write_bytes(p as *mut u8, 0xDD, n);
        }
    }
}

pub fn live_blocks() -> usize {
    unsafe { BOOKS.blocks }
}
/// Everything the code under test allocated has been returned.
pub fn no_leak() {
    unsafe {
        check!(BOOKS.blocks == 0, "a block was not returned to the allocator");
        check!(BOOKS.bytes == 0, "blocks were returned with other sizes than allocated");
        check!(BOOKS.aligns == 0, "blocks were returned with other alignments than allocated");
    }
}

pub const MAXD: usize = 48;
/// 0: not created, 1: live, 2: dropped.
pub static mut LIFE: [u8; MAXD] = [0; MAXD];
pub static mut NEXT: usize = 0;

/// An element whose life is tracked: it must be dropped exactly once.
#[repr(C)]
#[derive(Debug)]
pub struct D {
    pub v: u32,
    pub tag: u8,
}
impl D {
    pub fn new(v: u32) -> D {
        unsafe {
            let t = NEXT;
            NEXT += 1;
            LIFE[t] = 1;
            D { v, tag: t as u8 }
        }
    }
}
impl Drop for D {
    fn drop(&mut self) {
        check!((self.tag as usize) < MAXD, "a value that never existed was dropped");
        unsafe {
            check!(LIFE[self.tag as usize] == 1, "a value was dropped twice, or before it existed");
            LIFE[self.tag as usize] = 2;
        }
    }
}
impl Clone for D {
    fn clone(&self) -> D {
        check!(self.live(), "a dead value was cloned");
        D::new(self.v)
    }
}
impl PartialEq for D {
    fn eq(&self, o: &D) -> bool {
        self.v == o.v
    }
}
impl Eq for D {}
impl PartialOrd for D {
    fn partial_cmp(&self, o: &D) -> Option<std::cmp::Ordering> {
        self.v.partial_cmp(&o.v)
    }
}
impl D {
    pub fn live(&self) -> bool {
        (self.tag as usize) < MAXD && unsafe { LIFE[self.tag as usize] == 1 }
    }
}
/// The number of tracked values alive now.
pub fn live_values() -> usize {
    let mut n = 0;
    let mut i = 0;
    unsafe {
        while i < NEXT {
            if LIFE[i] == 1 {
                n += 1
            }
            i += 1;
        }
    }
    n
}
/// Every tracked value ever created has been dropped (exactly once: `drop` checks that).
pub fn all_dropped() {
    let mut i = 0;
    unsafe {
        while i < NEXT {
            check!(LIFE[i] == 2, "a value was never dropped");
            i += 1;
        }
    }
}

/// A key with a hash value of its own: the pair (label, hash) stands for any key type under
/// any hash function, because the table can look at a key only through `Hash` and `Equals`.
#[repr(C)]
#[derive(Clone, Copy, Debug)]
pub struct Key {
    pub id: u32,
    pub h: u32,
}
impl PartialEq for Key {
    fn eq(&self, o: &Key) -> bool {
        self.id == o.id
    }
}
pub struct KeyHash;
impl Hash<Key> for KeyHash {
    fn hash(k: &Key) -> usize {
        k.h as usize
    }
}
pub struct KeyEq;
impl Equals<Key> for KeyEq {
    fn equals(a: &Key, b: &Key) -> bool {
        a.id == b.id
    }
}

/// Runs `body` for the one selector value the solver picks below `n`; each value is a path of
/// its own that ends the execution, so that shapes stay concrete on it and nothing is merged.
/// Nothing may follow a split but other paths; each split witnesses that a path reaches its end.
#[inline(always)]
pub fn split(n: u8, mut body: impl FnMut(u8)) {
    let s = sym::below(n);
    let mut i = 0;
    while i < n {
        if s == i {
            body(i);
            witness!("a path runs to its end");
            #[cfg(kani)]
            kani::assume(false);
        }
        i += 1;
    }
}
/// A split whose paths split again (the inner splits hold the witness).
#[inline(always)]
pub fn outer(n: u8, mut body: impl FnMut(u8)) {
    let s = sym::below(n);
    let mut i = 0;
    while i < n {
        if s == i {
            body(i);
            #[cfg(kani)]
            kani::assume(false);
        }
        i += 1;
    }
}
