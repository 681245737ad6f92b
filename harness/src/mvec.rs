//! The C++ layout of a vector, and one step of it from an arbitrary state.
use crate::el::*;
use crate::sym;
use eastl_rs::vector::Vector;
use eastl_rs::Allocator;

#[repr(C)]
pub struct RawVec<E, A> {
    pub begin: *mut E,
    pub end: *mut E,
    pub cap: *mut E,
    pub alloc: A,
}

/// A vector of `cap` slots that holds `s`; without storage when `cap` is 0.
pub fn vec_at<E: El, A: Al, const N: usize>(s: &Seq<N>, cap: usize) -> Vector<E, A> {
    let mut alloc = A::default();
    unsafe {
        let begin: *mut E = if cap == 0 { std::ptr::null_mut() } else { alloc.allocate::<E>(cap) };
        let mut i = 0;
        while i < s.n {
            begin.add(i).write(E::mk(s.a[i]));
            i += 1;
        }
        let r = RawVec { begin, end: begin.add(s.n), cap: begin.add(cap), alloc };
        let r = std::mem::ManuallyDrop::new(r);
        check!(std::mem::size_of::<Vector<E, A>>() == std::mem::size_of::<RawVec<E, A>>(), "the vector has the size of the C++ vector");
        std::ptr::read(&*r as *const RawVec<E, A> as *const Vector<E, A>)
    }
}

pub fn same_vec<E: El, A: Allocator, const N: usize>(v: &Vector<E, A>, s: &Seq<N>) {
    check!(v.len() == s.n, "length");
    check!(v.is_empty() == (s.n == 0), "emptiness");
    check!(v.capacity() >= s.n, "capacity is at least the length");
    check!(v.is_full() == (v.capacity() == s.n), "fullness");
    let sl = v.as_slice();
    check!(sl.len() == s.n, "slice length");
    let mut i = 0;
    while i < s.n {
        check!(sl[i].see() == s.a[i], "element");
        i += 1;
    }
}

/// Operations of a step.
pub const PUSH: u8 = 0;
pub const POP: u8 = 1;
pub const INSERT: u8 = 2;
pub const REMOVE: u8 = 3;
pub const APPEND: u8 = 4;
pub const ASSIGN: u8 = 5;
pub const RESERVE: u8 = 6;
pub const CLEAR: u8 = 7;
pub const CLONE: u8 = 8;
pub const WRITE: u8 = 9;
pub const INTO: u8 = 10;

/// A slice of `k` fresh elements.
fn slice_of<E: El, const N: usize>(k: usize) -> (Vec<E>, Seq<N>) {
    let s = Seq::<N>::fill_of::<E>(k);
    let mut v = Vec::with_capacity(k + 1);
    let mut i = 0;
    while i < k {
        v.push(E::mk(s.a[i]));
        i += 1;
    }
    (v, s)
}

/// One operation, all values symbolic; `k` is its size argument.
pub fn op<E: El, A: Allocator + Clone, const N: usize>(v: &mut Vector<E, A>, m: &mut Seq<N>, op: u8, k: usize) {
    let (len, cap) = (m.n, v.capacity());
    match op {
        PUSH => {
            let x = sym::u32();
            let x = E::mk(x);
            m.push(x.val());
            v.push(x);
        }
        POP => {
            let r = took(v.pop());
            check!(r == m.pop(), "pop returns the last element");
            check!(v.capacity() == cap, "pop keeps the storage");
        }
        INSERT => {
            let x = E::mk(sym::u32());
            m.insert(k, x.val());
            v.insert(k, x);
        }
        REMOVE => {
            // k = len stands for every index out of range
            let mut i = k;
            if k == len {
                i = if std::mem::size_of::<E>() == 4 { sym::usize() } else { len };
                sym::assume(i >= len);
            }
            let r = took(v.remove(i));
            check!(r == m.remove(k), "remove returns the element at the index, or None");
        }
        APPEND => {
            let (b, s) = slice_of::<E, N>(k);
            v.append(&b);
            let mut i = 0;
            while i < k {
                check!(b[i].see() == s.a[i], "append leaves its source alone");
                m.push(s.a[i]);
                i += 1;
            }
        }
        ASSIGN => {
            let (b, s) = slice_of::<E, N>(k);
            v.assign(&b);
            let mut i = 0;
            while i < k {
                check!(b[i].see() == s.a[i], "assign leaves its source alone");
                i += 1;
            }
            *m = s;
        }
        RESERVE => {
            v.reserve(k);
            check!(v.capacity() >= cap + k, "reserve makes the room asked for");
        }
        CLEAR => {
            v.clear();
            m.clear();
        }
        CLONE => {
            let w = v.clone();
            same_vec(&w, m);
            check!(len == 0 || w.as_slice().as_ptr() != v.as_slice().as_ptr(), "a clone has storage of its own");
            // change the original: the clone must not notice, and the other way round
            let x = sym::u32();
            let old = *m;
            if len > 0 {
                v.as_slice_mut()[0] = E::mk(x);
                m.a[0] = E::mk(x).val();
            } else {
                v.push(E::mk(x));
                m.push(E::mk(x).val());
            }
            same_vec(&w, &old);
            drop(w);
        }
        WRITE => {
            let i = sym::usize();
            sym::assume(i < len);
            let x = E::mk(sym::u32());
            m.a[i] = x.val();
            if sym::boolean() {
                v.as_slice_mut()[i] = x;
            } else {
                v[i] = x;
            }
        }
        _ => unreachable!(),
    }
}
/// Consumed by `k` calls from either end, then dropped: stopped at any point.
pub fn into<E: El, A: Allocator, const N: usize>(v: Vector<E, A>, m: &Seq<N>, k: usize) {
    let (len, cap) = (m.n, v.capacity());
    let mut it = v.into_iter();
    let f = sym::u8();
    let mut lo = 0;
    let mut hi = len;
    let mut i = 0;
    while i < k {
        check!(it.len() == hi - lo, "remaining length");
        check!(it.is_empty() == (hi == lo), "remaining emptiness");
        check!(it.capacity() == cap, "the consumed storage keeps its capacity");
        {
            let sl = it.as_slice();
            check!(sl.len() == hi - lo, "remaining slice");
            check!(lo == hi || sl[0].see() == m.a[lo] && sl[hi - lo - 1].see() == m.a[hi - 1], "ends of the remaining slice");
        }
        if f >> i & 1 == 0 {
            let r = took(it.next());
            let e = if lo < hi { Some(m.a[lo]) } else { None };
            check!(r == e, "next yields the first remaining element");
            if lo < hi {
                lo += 1
            }
        } else {
            let r = took(it.next_back());
            let e = if lo < hi { Some(m.a[hi - 1]) } else { None };
            check!(r == e, "next_back yields the last remaining element");
            if lo < hi {
                hi -= 1
            }
        }
        i += 1;
    }
}
/// One operation from the state (`len`, `cap`); then everything is dropped and the books are closed.
pub fn step<E: El, A: Al, const N: usize>(o: u8, len: usize, cap: usize, k: usize) {
    reset::<E, A>();
    let mut m = Seq::<N>::fill_of::<E>(len);
    let mut v: Vector<E, A> = vec_at(&m, cap);
    if o == INTO {
        into(v, &m, k);
    } else {
        op(&mut v, &mut m, o, k);
        same_vec(&v, &m);
        drop(v);
    }
    finish::<E, A>();
}

/// All shapes with `cap <= c`: (0,0), (0,1), (1,1), (0,2) ...
pub fn shapes(c: usize, mut f: impl FnMut(usize, usize)) {
    crate::env::split(((c + 1) * (c + 2) / 2) as u8, |s| {
        let (l, c) = shape(s);
        f(l, c)
    })
}
/// The same with paths that split again.
pub fn outer_shapes(c: usize, mut f: impl FnMut(usize, usize)) {
    crate::env::outer(((c + 1) * (c + 2) / 2) as u8, |s| {
        let (l, c) = shape(s);
        f(l, c)
    })
}
pub fn shape(s: u8) -> (usize, usize) {
    let mut s = s as usize;
    let mut cap = 0;
    while s > cap {
        s -= cap + 1;
        cap += 1;
    }
    (s, cap)
}
