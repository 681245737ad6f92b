//! The C++ layout of a deque, and steps of it from an arbitrary state.
use crate::el::*;
use crate::sym;
use eastl_rs::deque::Deque;

#[repr(C)]
#[derive(Clone, Copy)]
pub struct RawIt<E> {
    pub current: *mut E,
    pub begin: *mut E,
    pub end: *mut E,
    pub array: *mut *mut E,
}
#[repr(C)]
pub struct RawDeque<E, A> {
    pub ptr_array: *mut *mut E,
    pub ptr_array_size: u32,
    pub begin_it: RawIt<E>,
    pub end_it: RawIt<E>,
    pub alloc: A,
}
/// EASTL's DEQUE_DEFAULT_SUBARRAY_SIZE
pub const fn sub<E>() -> usize {
    let s = std::mem::size_of::<E>();
    if s <= 4 {
        64
    } else if s <= 8 {
        32
    } else if s <= 16 {
        16
    } else if s <= 32 {
        8
    } else {
        4
    }
}
/// Where a state has its elements: a table of `table` block slots, the first element at offset
/// `off` of the block in slot `first`, and `n` elements from there.
#[derive(Clone, Copy)]
pub struct At {
    pub table: usize,
    pub first: usize,
    pub off: usize,
    pub n: usize,
}

pub fn deque_at<E: El, A: Al, const N: usize>(s: &Seq<N>, at: At) -> Deque<'static, E, A> {
    let k = sub::<E>();
    let last = at.first + (at.off + at.n) / k;
    check!(last < at.table && at.off < k && s.n == at.n, "harness: a state");
    let mut alloc = A::default();
    unsafe {
        let table: *mut *mut E = alloc.allocate::<*mut E>(at.table);
        let mut b = 0;
        while b < at.table {
            // slots outside the used range hold anything in C++
            table.add(b).write(if b >= at.first && b <= last { alloc.allocate::<E>(k) } else { 8 as *mut E });
            b += 1;
        }
        let mut i = 0;
        while i < at.n {
            let p = at.off + i;
            (*table.add(at.first + p / k)).add(p % k).write(E::mk(s.a[i]));
            i += 1;
        }
        let it = |b: usize, o: usize| {
            let blk = *table.add(b);
            RawIt { current: blk.add(o), begin: blk, end: blk.add(k), array: table.add(b) }
        };
        let r = std::mem::ManuallyDrop::new(RawDeque {
            ptr_array: table,
            ptr_array_size: at.table as u32,
            begin_it: it(at.first, at.off),
            end_it: it(last, (at.off + at.n) % k),
            alloc,
        });
        check!(std::mem::size_of::<Deque<E, A>>() == std::mem::size_of::<RawDeque<E, A>>(), "the deque has the size of the C++ deque");
        std::ptr::read(&*r as *const RawDeque<E, A> as *const Deque<'static, E, A>)
    }
}

pub fn same_deque<E: El, A: Al, const N: usize>(d: &mut Deque<'static, E, A>, s: &Seq<N>) {
    check!(d.len() == s.n, "length");
    check!(d.is_empty() == (s.n == 0), "emptiness");
    {
        let mut it = d.iter();
        let mut i = 0;
        while i < s.n {
            let e = it.next();
            check!(e.is_some(), "an element is missing");
            check!(e.unwrap().see() == s.a[i], "element");
            i += 1;
        }
        check!(it.next().is_none(), "an element too many");
    }
    let f = if s.n == 0 { None } else { Some(s.a[0]) };
    let b = if s.n == 0 { None } else { Some(s.a[s.n - 1]) };
    check!(d.front().map(|e| e.see()) == f, "front");
    check!(d.back().map(|e| e.see()) == b, "back");
    check!(d.front_mut().map(|e| e.see()) == f, "front, mutable");
    check!(d.back_mut().map(|e| e.see()) == b, "back, mutable");
}

pub const PUSH_BACK: u8 = 0;
pub const PUSH_FRONT: u8 = 1;
pub const POP_BACK: u8 = 2;
pub const POP_FRONT: u8 = 3;

/// One of the four operations at the ends.
pub fn op<E: El, A: Al, const N: usize>(d: &mut Deque<'static, E, A>, m: &mut Seq<N>, op: u8) {
    match op {
        PUSH_BACK => {
            let x = sym::u32() & E::MASK;
            m.push(x);
            d.push_back(E::mk(x));
        }
        PUSH_FRONT => {
            let x = sym::u32() & E::MASK;
            m.insert(0, x);
            d.push_front(E::mk(x));
        }
        POP_BACK => {
            let r = took(d.pop_back());
            check!(r == m.pop(), "pop_back returns the last element");
        }
        _ => {
            let r = took(d.pop_front());
            check!(r == m.remove(0), "pop_front returns the first element");
        }
    }
}

/// Contents looked at in one element of each block and at the ends, for long deques.
pub fn sparse_deque<E: El, A: Al, const N: usize>(d: &mut Deque<'static, E, A>, s: &Seq<N>) {
    check!(d.len() == s.n, "length");
    let mut it = d.iter();
    let mut i = 0;
    while i < s.n {
        let e = it.next();
        check!(e.is_some(), "an element is missing");
        if i % sub::<E>() == 1 || i == 0 || i + 1 == s.n {
            check!(e.unwrap().see() == s.a[i], "element");
        }
        i += 1;
    }
    check!(it.next().is_none(), "an element too many");
}
pub fn step2s<E: El, A: Al, const N: usize>(at: At, op1: u8, op2: u8) {
    reset::<E, A>();
    let mut m = Seq::<N>::fill_of::<E>(at.n);
    let mut d: Deque<'static, E, A> = deque_at(&m, at);
    op(&mut d, &mut m, op1);
    op(&mut d, &mut m, op2);
    sparse_deque(&mut d, &m);
    drop(d);
    finish::<E, A>();
}

/// Two operations in a row from a state, then everything is dropped.
pub fn step2<E: El, A: Al, const N: usize>(at: At, op1: u8, op2: u8) {
    reset::<E, A>();
    let mut m = Seq::<N>::fill_of::<E>(at.n);
    let mut d: Deque<'static, E, A> = deque_at(&m, at);
    op(&mut d, &mut m, op1);
    op(&mut d, &mut m, op2);
    same_deque(&mut d, &m);
    drop(d);
    finish::<E, A>();
}
pub fn step1<E: El, A: Al, const N: usize>(at: At, op1: u8) {
    reset::<E, A>();
    let mut m = Seq::<N>::fill_of::<E>(at.n);
    let mut d: Deque<'static, E, A> = deque_at(&m, at);
    op(&mut d, &mut m, op1);
    same_deque(&mut d, &m);
    drop(d);
    finish::<E, A>();
}
/// Removal at `k`, which may be out of range.
pub fn step_remove<E: El, A: Al, const N: usize>(at: At, k: usize) {
    reset::<E, A>();
    let mut m = Seq::<N>::fill_of::<E>(at.n);
    let mut d: Deque<'static, E, A> = deque_at(&m, at);
    let r = took(d.remove(k));
    check!(r == m.remove(k), "remove returns the element at the index, or None");
    same_deque(&mut d, &m);
    drop(d);
    finish::<E, A>();
}
/// Writing through the mutable accessors.
pub fn step_write<E: El, A: Al, const N: usize>(at: At) {
    reset::<E, A>();
    let mut m = Seq::<N>::fill_of::<E>(at.n);
    let mut d: Deque<'static, E, A> = deque_at(&m, at);
    let x = sym::u32() & E::MASK;
    match sym::below(3) {
        0 => {
            if let Some(e) = d.front_mut() {
                *e = E::mk(x);
                m.a[0] = x;
            }
        }
        1 => {
            if let Some(e) = d.back_mut() {
                *e = E::mk(x);
                m.a[m.n - 1] = x;
            }
        }
        _ => {
            let mut i = 0;
            for e in d.iter_mut() {
                check!(i < m.n, "an element too many");
                m.a[i] = m.a[i] ^ (x & E::MASK);
                *e = E::mk(m.a[i]);
                i += 1;
            }
            check!(i == m.n, "an element is missing");
        }
    }
    same_deque(&mut d, &m);
    drop(d);
    finish::<E, A>();
}
