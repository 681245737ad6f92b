//! Iterators. Vector (consuming): capacities 0..=3, every interleaving of next and next_back, stopped anywhere. Deque
//! (shared, mutable, consuming; Queue the same): 0..=6 elements over up to 3 blocks of 4, every interleaving, every
//! position converted to the C++ pair and back; a block of 64. List (shared, mutable): 0..=4 with remaining lengths.
//! HashMap (shared, mutable), HashSet: up to 3 entries in 1..=3 buckets, every position converted and back, clones.
//! VectorMap: 0..=3 pairs from both ends. All but VectorMap: nth, count, last, fold, any, nth_back, rfold, rev, for 3
//! elements (5 or 7 in a deque) and every argument, agree with next and next_back. Values symbolic.
// cbmc: --max-field-sensitivity-array-size 256
use crate::el::*;
use crate::env::{outer, split};
use crate::mdeque::{self, deque_at, same_deque, At};
use crate::mhash::*;
use crate::mlist;
use crate::mvec;
use crate::sym;
use eastl_rs::deque::Deque;
use eastl_rs::queue::Queue;
use eastl_rs::vector_map::VectorMap;
use crate::ways::{back, ways, BACK, WAYS};
use std::mem::{ManuallyDrop, MaybeUninit};

/// What is left of a sequence that is consumed from both ends.
struct Rest<const N: usize> {
    m: Seq<N>,
    lo: usize,
    hi: usize,
}
impl<const N: usize> Rest<N> {
    fn new(m: Seq<N>) -> Self {
        Rest { m, lo: 0, hi: m.n }
    }
    fn next(&mut self, back: bool) -> Option<u32> {
        if self.lo == self.hi {
            None
        } else if back {
            self.hi -= 1;
            Some(self.m.a[self.hi])
        } else {
            self.lo += 1;
            Some(self.m.a[self.lo - 1])
        }
    }
    fn left(&self) -> usize {
        self.hi - self.lo
    }
}
/// A hint is never wrong, whether or not it is exact.
fn hint(h: (usize, Option<usize>), left: usize) {
    check!(h.0 <= left, "more elements promised than left");
    check!(h.1.map_or(true, |u| u >= left), "fewer elements promised than left");
}
/// Takes elements by `pat` (bit set: from the back) until `calls` calls were made.
fn take<const N: usize, R: El>(it: &mut impl DoubleEndedIterator<Item = R>, r: &mut Rest<N>, pat: u32, calls: usize) {
    let mut i = 0;
    while i < calls {
        hint(it.size_hint(), r.left());
        let back = pat >> i & 1 == 1;
        let e = if back { it.next_back() } else { it.next() };
        check!(took(e) == r.next(back), "the next element from that end");
        i += 1;
    }
    hint(it.size_hint(), r.left());
}

pub const AT: [At; 8] = [
    At { table: 4, first: 1, off: 0, n: 0 },
    At { table: 4, first: 0, off: 3, n: 1 },
    At { table: 4, first: 2, off: 1, n: 2 },
    At { table: 4, first: 1, off: 2, n: 3 },
    At { table: 4, first: 1, off: 0, n: 4 },
    At { table: 4, first: 0, off: 3, n: 5 },
    At { table: 4, first: 1, off: 2, n: 6 },
    At { table: 4, first: 0, off: 3, n: 7 },
];
type E = E40;
type Dq = Deque<'static, E, Plain>;
fn see(e: &E) -> u32 {
    e.see()
}
/// Every interleaving of `n + 1` calls, shared.
fn deque_pattern(at: At) {
    split(1 << at.n, |pat| {
        let m = Seq::<8>::fill_of::<E>(at.n);
        let d = ManuallyDrop::new(deque_at::<E, Plain, 8>(&m, at));
        let mut r = Rest::new(m);
        take(&mut d.iter().map(see), &mut r, pat as u32, at.n);
        let mut it = d.iter();
        take(&mut it.by_ref().map(see), &mut Rest::new(m), !(pat as u32), at.n);
        check!(it.next().is_none() && it.next_back().is_none() && it.next().is_none(), "an element too many");
    });
}
/// `a` from the front and `b` from the back, converted to the C++ pair and back, then the rest.
fn deque_mid(at: At) {
    outer(at.n as u8 + 1, |a| {
        split(at.n as u8 + 1 - a, |b| {
            let m = Seq::<8>::fill_of::<E>(at.n);
            let d = ManuallyDrop::new(deque_at::<E, Plain, 8>(&m, at));
            let mut r = Rest::new(m);
            let mut it = d.iter();
            take(&mut it.by_ref().map(see), &mut r, !0 << a, (a + b) as usize);
            let (cb, ce) = it.into_compat();
            let mut it = unsafe { eastl_rs::deque::iter::Iter::from_compat(cb, ce) };
            take(&mut it.by_ref().map(see), &mut r, 0b110011, at.n - (a + b) as usize);
            check!(it.next_back().is_none() && it.next().is_none(), "an element too many");
        })
    });
}
/// The same through the mutable iterator, writing every element.
fn deque_mid_mut(at: At) {
    outer(at.n as u8 + 1, |a| {
        split(at.n as u8 + 1 - a, |b| {
            let m = Seq::<8>::fill_of::<E>(at.n);
            let mut d = ManuallyDrop::new(deque_at::<E, Plain, 8>(&m, at));
            let x = sym::u32();
            let mut r = Rest::new(m);
            let mut it = d.iter_mut();
            let mut w = |e: &mut E| {
                let v = e.see();
                *e = E::mk(v ^ x);
                v
            };
            take(&mut it.by_ref().map(&mut w), &mut r, !0 << a, (a + b) as usize);
            let (cb, ce) = it.into_compat_mut();
            let mut it = unsafe { eastl_rs::deque::iter::IterMut::from_compat(cb, ce) };
            take(&mut it.by_ref().map(&mut w), &mut r, 0b001100, at.n - (a + b) as usize);
            check!(it.next().is_none() && it.next_back().is_none(), "an element too many");
            // read through the pair of the mutable iterator
            let (cb, ce) = d.iter_mut().into_compat();
            let mut it = unsafe { eastl_rs::deque::iter::Iter::from_compat(cb, ce) };
            let mut m2 = m;
            let mut i = 0;
            while i < at.n {
                m2.a[i] ^= x;
                i += 1;
            }
            take(&mut it.by_ref().map(see), &mut Rest::new(m2), 0, at.n);
            check!(it.next().is_none(), "an element too many");
            same_deque(&mut *d, &m2);
        })
    });
}
/// Consumed in every interleaving.
fn dq_into(at: At, queue: bool) {
    split(1 << at.n, |pat| {
        let m = Seq::<8>::fill_of::<E>(at.n);
        let d = deque_at::<E, Plain, 8>(&m, at);
        let mut r = Rest::new(m);
        if queue {
            let q: Queue<'static, E, Plain> = unsafe { std::mem::transmute(d) };
            take(&mut q.iter().map(see), &mut Rest::new(m), pat as u32 ^ 5, at.n);
            let mut it = ManuallyDrop::new(q.into_iter());
            take(&mut *it, &mut r, pat as u32, at.n);
            check!(it.next().is_none() && it.next_back().is_none(), "an element too many");
        } else {
            let mut it = ManuallyDrop::new(d.into_iter());
            take(&mut *it, &mut r, pat as u32, at.n);
            check!(it.next_back().is_none() && it.next().is_none(), "an element too many");
        }
    });
}
/// Around the end of a block of 64.
fn deque_64() {
    split(4, |n| {
        let at = At { table: 2, first: 0, off: 62, n: n as usize };
        let m = Seq::<8>::fill(at.n);
        let d = ManuallyDrop::new(deque_at::<u32, Plain, 8>(&m, at));
        take(&mut d.iter().map(|e| *e), &mut Rest::new(m), 0b0101, at.n + 1);
        take(&mut d.iter().map(|e| *e), &mut Rest::new(m), 0b1110, at.n + 1);
        let mut q: ManuallyDrop<Queue<'static, u32, Plain>> = unsafe { std::mem::transmute(d) };
        take(&mut q.iter_mut().map(|e| *e), &mut Rest::new(m), 0b0001, at.n + 1);
    });
}
fn list() {
    split(5, |n| {
        let m = Seq::<6>::fill(n as usize);
        let mut slot = MaybeUninit::uninit();
        let l = mlist::list_at::<u32, Plain, 6>(&mut slot, &m);
        let mut it = l.iter();
        let mut i = 0;
        while i < n as usize {
            check!(it.size_hint() == (n as usize - i, Some(n as usize - i)), "remaining length");
            check!(it.next().map(|e| *e) == Some(m.a[i]), "element");
            i += 1;
        }
        check!(it.size_hint() == (0, Some(0)), "remaining length at the end");
        check!(it.next().is_none() && it.next().is_none(), "an element too many");
        check!(it.size_hint() == (0, Some(0)), "remaining length behind the end");
        let x = sym::u32();
        let mut it = l.iter_mut();
        i = 0;
        let mut m2 = m;
        while i < n as usize {
            check!(it.size_hint() == (n as usize - i, Some(n as usize - i)), "remaining length");
            let e = it.next().unwrap();
            check!(*e == m.a[i], "element");
            m2.a[i] ^= x;
            *e ^= x;
            i += 1;
        }
        check!(it.next().is_none() && it.next().is_none(), "an element too many");
        check!(it.size_hint() == (0, Some(0)), "remaining length at the end");
        mlist::same_list(l, &m2);
    });
}
/// Which keys have been seen; each comes once, with its value.
struct Seen<const N: usize> {
    seen: [bool; N],
    n: usize,
}
impl<const N: usize> Seen<N> {
    fn new() -> Self {
        Seen { seen: [false; N], n: 0 }
    }
    fn one(&mut self, p: &Pairs<N>, id: u32, v: Option<u32>) {
        let mut j = 0;
        let mut hit = false;
        while j < p.n {
            if p.id[j] == id {
                check!(!self.seen[j], "a pair comes twice");
                check!(v.map_or(true, |v| v == p.v[j]), "a pair has another value");
                self.seen[j] = true;
                hit = true;
            }
            j += 1;
        }
        check!(hit, "a key that is not in the table");
        self.n += 1;
    }
}
type Map = M<HKey, u32, Plain>;
/// Shapes in 1, 2 and 3 buckets (the hash of each entry).
const THREE: [&[usize]; 12] =
    [&[], &[0], &[1], &[2], &[0, 2], &[1, 1], &[2, 2], &[0, 1, 2], &[0, 0, 2], &[1, 2, 2], &[2, 2, 2], &[0, 1, 1]];
fn hash(shapes: &'static [&'static [usize]], buckets: u32, what: u8) {
    outer(shapes.len() as u8, |s| {
        let hs = shapes[s as usize];
        split(hs.len() as u8 + 1, |k| match what {
            0 => map_mid(hs, buckets, k as usize),
            1 => map_mid_mut(hs, buckets, k as usize),
            _ => set_mid(hs, buckets, k as usize),
        })
    });
}
fn map_mid(hs: &[usize], n: u32, k: usize) {
    let p = Pairs::<4>::fill::<u32>(hs);
    let m = ManuallyDrop::new(map_at::<HKey, u32, Plain, 4>(&p, n, 9));
    let mut s = Seen::<4>::new();
    let mut it = m.iter();
    while s.n < k {
        hint(it.size_hint(), p.n - s.n);
        let e = it.next();
        check!(e.is_some(), "a pair is missing");
        let (a, b) = e.unwrap();
        s.one(&p, a.id, Some(*b));
    }
    hint(it.size_hint(), p.n - s.n);
    // a clone goes on where the original is
    let mut c = it.clone();
    let mut sc = Seen { seen: s.seen, n: s.n };
    while sc.n < p.n {
        let e = c.next();
        check!(e.is_some(), "a pair is missing from the clone");
        let (a, b) = e.unwrap();
        sc.one(&p, a.id, Some(*b));
    }
    check!(c.next().is_none(), "the clone has a pair too many");
    let (cb, ce) = it.into_compat();
    let mut it = unsafe { eastl_rs::hash_map::iter::Iter::from_compat(cb, ce) };
    while s.n < p.n {
        let e = it.next();
        check!(e.is_some(), "a pair is missing after the conversion");
        let (a, b) = e.unwrap();
        s.one(&p, a.id, Some(*b));
    }
    check!(it.next().is_none() && it.next().is_none(), "a pair too many");
}
fn map_mid_mut(hs: &[usize], n: u32, k: usize) {
    let mut p = Pairs::<4>::fill::<u32>(hs);
    let mut m = ManuallyDrop::new(map_at::<HKey, u32, Plain, 4>(&p, n, 9));
    let x = sym::u32();
    {
        let mut s = Seen::<4>::new();
        let mut it = m.iter_mut();
        while s.n < k {
            let e = it.next();
            check!(e.is_some(), "a pair is missing");
            let (a, b) = e.unwrap();
            s.one(&p, a.id, Some(*b));
            *b ^= x;
        }
        let mut it = unsafe {
            let (cb, ce) = it.into_compat();
            eastl_rs::hash_map::iter::IterMut::from_compat(cb, ce)
        };
        while s.n < p.n {
            let e = it.next();
            check!(e.is_some(), "a pair is missing after the conversion");
            let (a, b) = e.unwrap();
            s.one(&p, a.id, Some(*b));
            *b ^= x;
        }
        check!(it.next().is_none() && it.next().is_none(), "a pair too many");
    }
    let mut j = 0;
    while j < p.n {
        p.v[j] ^= x;
        j += 1;
    }
    let mut s = Seen::<4>::new();
    let (cb, ce) = m.iter_mut().into_compat_mut();
    let mut it = unsafe { eastl_rs::hash_map::iter::Iter::from_compat_mut(cb, ce) };
    while s.n < p.n {
        let e = it.next();
        check!(e.is_some(), "a pair is missing after the conversion");
        let (a, b) = e.unwrap();
        s.one(&p, a.id, Some(*b));
    }
    check!(it.next().is_none(), "a pair too many");
}
fn set_mid(hs: &[usize], n: u32, k: usize) {
    let p = Pairs::<4>::fill::<()>(hs);
    let m = ManuallyDrop::new(set_at::<HKey, Plain, 4>(&p, n, 9));
    let mut s = Seen::<4>::new();
    let mut it = m.iter();
    while s.n < k {
        hint(it.size_hint(), p.n - s.n);
        let e = it.next();
        check!(e.is_some(), "a key is missing");
        s.one(&p, e.unwrap().id, None);
    }
    let (cb, ce) = it.into_compat();
    let mut it = unsafe { eastl_rs::hash_set::iter::Iter::from_compat(cb, ce) };
    while s.n < p.n {
        let e = it.next();
        check!(e.is_some(), "a key is missing after the conversion");
        s.one(&p, e.unwrap().id, None);
    }
    check!(it.next().is_none() && it.next().is_none(), "a key too many");
}
fn vector_map(n: usize) {
    split(1 << n, |pat| {
        let mut v: ManuallyDrop<VectorMap<u32, u32, Plain>> = ManuallyDrop::new(VectorMap::with_capacity(4));
        let mut m = Seq::<4>::fill(n);
        let mut i = 0;
        while i < n {
            v.insert(i as u32 * 3, m.a[i]);
            i += 1;
        }
        let mut r = Rest::new(m);
        let mut it = v.iter();
        check!(it.len() == n, "remaining length");
        take(&mut it.by_ref().map(|p| p.1), &mut r, pat as u32, n);
        check!(it.len() == 0 && it.next().is_none() && it.next_back().is_none(), "a pair too many");
        m.n = n;
    });
}
fn vi<E: El>(c: usize) {
    mvec::outer_shapes(c, |len, cap| split(len as u8 + 2, |k| mvec::step::<E, Plain, 8>(mvec::INTO, len, cap, k as usize)));
}

/// nth, count, last, fold and any, and their kind from the back.
pub fn deque_ways(at: At, what: u8) {
    let m = Seq::<8>::fill_of::<E>(at.n);
    let mk = || deque_at::<E, Plain, 8>(&m, at);
    outer(WAYS + BACK, |w| {
        split(4, |k| {
            let k = [0, at.n - 1, at.n, at.n + 1][k as usize];
            let mut d = ManuallyDrop::new(mk());
            match what {
                0 if w < WAYS => ways(w, k, d.iter(), &m, |e| e.see()),
                0 => back(w - WAYS, k, d.iter(), &m, |e| e.see()),
                1 if w < WAYS => ways(w, k, d.iter_mut(), &m, |e| e.see()),
                1 => back(w - WAYS, k, d.iter_mut(), &m, |e| e.see()),
                _ if w < WAYS => ways(w, k, ManuallyDrop::into_inner(d).into_iter(), &m, |e| e.see()),
                _ => back(w - WAYS, k, ManuallyDrop::into_inner(d).into_iter(), &m, |e| e.see()),
            }
        })
    });
}
fn vec_ways() {
    outer(WAYS + BACK, |w| {
        split(5, |k| {
            let m = Seq::<8>::fill(3);
            let v = mvec::vec_at::<u32, Plain, 8>(&m, 4);
            if w < WAYS {
                ways(w, k as usize, v.into_iter(), &m, |e| e)
            } else {
                back(w - WAYS, k as usize, v.into_iter(), &m, |e| e)
            }
        })
    });
}
fn list_ways(mutable: bool) {
    outer(WAYS, |w| {
        split(5, |k| {
            let m = Seq::<6>::fill(3);
            let mut slot = MaybeUninit::uninit();
            let l = mlist::list_at::<u32, Plain, 6>(&mut slot, &m);
            if mutable {
                ways(w, k as usize, l.iter_mut(), &m, |e| *e)
            } else {
                ways(w, k as usize, l.iter(), &m, |e| *e)
            }
        })
    });
}
/// The order is the one of `next`.
fn hash_ways(what: u8) {
    outer(WAYS, |w| {
        split(6, |k| {
            let mut p = Pairs::<4>::fill::<u32>(&[0, 2, 2]);
            if k == 5 {
                p.n = 0;
            }
            let k = k as usize % 5;
            let mut m = ManuallyDrop::new(map_at::<HKey, u32, Plain, 4>(&p, 3, 9));
            let mut o = Seq::<6>::new();
            let mut it = m.iter();
            let mut i = 0;
            while i < p.n {
                if let Some((_, v)) = it.next() {
                    o.push(*v);
                }
                i += 1;
            }
            match what {
                0 => ways(w, k, m.iter(), &o, |(_, v)| *v),
                1 => ways(w, k, m.iter_mut(), &o, |(_, v)| *v),
                _ => {
                    let s = ManuallyDrop::new(set_at::<HKey, Plain, 4>(&p, 3, 9));
                    let mut o = Seq::<6>::new();
                    let mut it = s.iter();
                    let mut i = 0;
                    while i < p.n {
                        if let Some(key) = it.next() {
                            o.push(key.id);
                        }
                        i += 1;
                    }
                    ways(w, k, s.iter(), &o, |key| key.id)
                }
            }
        })
    });
}

harnesses! {
    vec_u32 [12] { vi::<u32>(3); }
    vec_e12 [12] { vi::<E12>(2); }
    vec_u8 [12] { vi::<u8>(2); }
    x_vec_u32 [14] { vi::<u32>(5); }
    x_vec_u64 [14] { vi::<u64>(4); }
    deque_0_3 [12] { outer(4, |i| deque_pattern(AT[i as usize])); }
    deque_4 [18] { deque_pattern(AT[4]); }
    deque_5 [34] { deque_pattern(AT[5]); }
    x_deque_6 [66] { deque_pattern(AT[6]); }
    deque_mid_0_4 [12] { outer(5, |i| deque_mid(AT[i as usize])); }
    deque_mid_5 [12] { deque_mid(AT[5]); }
    deque_mid_6 [12] { deque_mid(AT[6]); }
    deque_mut_0_3 [12] { outer(4, |i| deque_mid_mut(AT[i as usize])); }
    deque_mut_4 [12] { deque_mid_mut(AT[4]); }
    deque_mut_5 [12] { deque_mid_mut(AT[5]); }
    x_deque_mut_6 [12] { deque_mid_mut(AT[6]); }
    deque_into [12] { outer(4, |i| dq_into(AT[i as usize], false)); }
    queue_into [12] { outer(4, |i| dq_into(AT[i as usize], true)); }
    x_deque_into4 [34] { outer(2, |i| dq_into(AT[4 + i as usize], false)); }
    deque_end_64 [12] { deque_64(); }
    list_all [10] { list(); }
    map_2 [13] { hash(&TWO, 2, 0); }
    map_3 [13] { hash(&THREE, 3, 0); }
    map_mut_2 [13] { hash(&TWO, 2, 1); }
    map_mut_3 [13] { hash(&THREE, 3, 1); }
    map_1 [13] { hash(&[&[]], 1, 0); }
    set_2 [13] { hash(&TWO, 2, 2); }
    set_3 [13] { hash(&THREE, 3, 2); }
    ways_vec [42] { vec_ways(); }
    ways_deque [42] { deque_ways(AT[7], 0); }
    ways_deque_mut [42] { deque_ways(AT[7], 1); }
    ways_deque_into [42] { deque_ways(AT[5], 2); }
    ways_list [42] { list_ways(false); }
    ways_list_mut [42] { list_ways(true); }
    ways_map [42] { hash_ways(0); }
    ways_map_mut [42] { hash_ways(1); }
    ways_set [42] { hash_ways(2); }
    vmap [12] { outer(4, |n| vector_map(n as usize)); }
}
