//! The layout of a vector map, and a step of it from an arbitrary state.
//!
//! A map sees keys only through the comparator and `==`, so a state is which ordinals are
//! present: the pairs have the odd ordinals 1, 3, 5, .., a key that is absent an even one.
use crate::el::*;
use crate::env::D;
use crate::mvec::RawVec;
use crate::sym;
use eastl_rs::compare::{Compare, Greater, Less};
use eastl_rs::vector_map::{Entry, VectorMap};
use std::cmp::Ordering;

pub trait VKeyT: PartialEq + PartialOrd + Sized + 'static {
    fn mk(r: u32) -> Self;
    fn raw(&self) -> u32;
    const T: bool = false;
}
// gap and alignment: see mhash
#[repr(C, align(16))]
#[derive(Clone, Copy)]
pub struct VKey {
    pub gap: u64,
    pub r: u32,
    pub pad: [u32; 5],
}
impl std::fmt::Debug for VKey {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(unsafe { std::str::from_utf8_unchecked(&[b'#', !self.r as u8 & 0x7f]) })
    }
}
impl VKeyT for VKey {
    fn mk(r: u32) -> Self {
        VKey { gap: 0, r, pad: [0; 5] }
    }
    fn raw(&self) -> u32 {
        self.r
    }
}
impl PartialEq for VKey {
    fn eq(&self, o: &Self) -> bool {
        self.r == o.r
    }
}
impl PartialOrd for VKey {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        self.r.partial_cmp(&o.r)
    }
    fn lt(&self, o: &Self) -> bool {
        self.r < o.r
    }
    fn gt(&self, o: &Self) -> bool {
        self.r > o.r
    }
}
#[repr(C, align(16))]
#[derive(Debug)]
pub struct VDKey {
    pub gap: u64,
    pub d: D,
    pub pad: [u32; 4],
}
impl VKeyT for VDKey {
    fn mk(r: u32) -> Self {
        VDKey { gap: 0, d: D::new(r), pad: [0; 4] }
    }
    fn raw(&self) -> u32 {
        self.d.see()
    }
    const T: bool = true;
}
impl PartialEq for VDKey {
    fn eq(&self, o: &Self) -> bool {
        self.raw() == o.raw()
    }
}
impl PartialOrd for VDKey {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        self.raw().partial_cmp(&o.raw())
    }
    fn lt(&self, o: &Self) -> bool {
        self.raw() < o.raw()
    }
    fn gt(&self, o: &Self) -> bool {
        self.raw() > o.raw()
    }
}

/// A comparator together with the raw key of an ordinal.
pub trait Cmp<K>: Compare<K> + Default {
    fn raw(ord: u32) -> u32;
}
impl<K: PartialOrd> Cmp<K> for Less<K> {
    fn raw(o: u32) -> u32 {
        o + 7
    }
}
impl<K: PartialOrd> Cmp<K> for Greater<K> {
    fn raw(o: u32) -> u32 {
        100 - o
    }
}
/// An order that is neither.
#[derive(Default)]
pub struct Mix {
    pub _pad: u8,
}
impl<K: VKeyT> Compare<K> for Mix {
    fn compare(a: &K, b: &K) -> bool {
        a.raw() ^ 5 < b.raw() ^ 5
    }
}
impl<K: VKeyT> Cmp<K> for Mix {
    fn raw(o: u32) -> u32 {
        o ^ 5
    }
}

#[repr(C)]
pub struct RawVMap<K, V, A, C> {
    pub base: RawVec<(K, V), A>,
    pub cmp: C,
}
pub type VM<K, V, A, C> = VectorMap<K, V, A, C>;

pub fn vmap_at<K: VKeyT, V: El, A: Al, C: Cmp<K>, const N: usize>(s: &Seq<N>, cap: usize) -> VM<K, V, A, C> {
    let mut alloc = A::default();
    unsafe {
        let begin: *mut (K, V) = if cap == 0 { std::ptr::null_mut() } else { alloc.allocate::<(K, V)>(cap) };
        let mut i = 0;
        while i < s.n {
            begin.add(i).write((K::mk(C::raw(2 * i as u32 + 1)), V::mk(s.a[i])));
            i += 1;
        }
        let r = RawVMap { base: RawVec { begin, end: begin.add(s.n), cap: begin.add(cap), alloc }, cmp: C::default() };
        check!(std::mem::size_of::<VM<K, V, A, C>>() == std::mem::size_of::<RawVMap<K, V, A, C>>(), "the map has the size of a vector and a comparator");
        let r = std::mem::ManuallyDrop::new(r);
        std::ptr::read(&*r as *const RawVMap<K, V, A, C> as *const VM<K, V, A, C>)
    }
}
/// A key for a question only.
fn ask<K: VKeyT, R>(raw: u32, f: impl FnOnce(&K) -> R) -> R {
    let k = std::mem::ManuallyDrop::new(K::mk(raw));
    let r = f(&*k);
    if K::T {
        drop(std::mem::ManuallyDrop::into_inner(k));
    }
    r
}
/// Ordinals of the pairs (in the map's order) and their values.
#[derive(Clone, Copy)]
pub struct Ord2<const N: usize> {
    pub o: Seq<N>,
    pub v: Seq<N>,
}
pub fn same_vmap<K: VKeyT, V: El, A: Al, C: Cmp<K>, const N: usize>(m: &mut VM<K, V, A, C>, p: &Ord2<N>) {
    let n = p.o.n;
    check!(m.len() == n, "length");
    check!(m.is_empty() == (n == 0), "emptiness");
    check!(m.capacity() >= n, "capacity is at least the length");
    {
        let s: &[(K, V)] = m.as_ref();
        check!(s.len() == n, "slice length");
        let mut i = 0;
        while i < n {
            check!(s[i].0.raw() == C::raw(p.o.a[i]), "the slice is sorted: key");
            check!(s[i].1.see() == p.v.a[i], "value");
            i += 1;
        }
    }
    let mut i = 0;
    while i < n {
        let raw = C::raw(p.o.a[i]);
        check!(ask(raw, |k: &K| m.get(k).map(|v| v.see())) == Some(p.v.a[i]), "lookup of a key that is present");
        i += 1;
    }
}
pub const INSERT: u8 = 0;
pub const REMOVE: u8 = 1;
pub const REMOVE_ENTRY: u8 = 2;
pub const GET_MUT: u8 = 3;
pub const ENTRY: u8 = 4;
pub const INTO_KEY: u8 = 5;
pub const CLEAR: u8 = 6;
pub const OPS: u8 = 7;

/// One operation about the key of ordinal `o`.
pub fn op<K: VKeyT, V: El, A: Al, C: Cmp<K>, const N: usize>(m: &mut VM<K, V, A, C>, p: &mut Ord2<N>, op: u8, o: u32) {
    let x = sym::u32() & V::MASK;
    let mut i = 0;
    while i < p.o.n && p.o.a[i] < o {
        i += 1;
    }
    let there = i < p.o.n && p.o.a[i] == o;
    let old = if there { Some(p.v.a[i]) } else { None };
    let raw = C::raw(o);
    check!(ask(raw, |k: &K| m.get(k).map(|v| v.see())) == old, "lookup");
    match op {
        INSERT => {
            let r = took(m.insert(K::mk(raw), V::mk(x)));
            check!(r == old, "insert returns the value it replaced, or None");
            if there {
                p.v.a[i] = x;
            } else {
                p.o.insert(i, o);
                p.v.insert(i, x);
            }
        }
        REMOVE => {
            let r = ask(raw, |k: &K| took(m.remove(k)));
            check!(r == old, "remove returns the value, or None");
            if there {
                p.o.remove(i);
                p.v.remove(i);
            }
        }
        REMOVE_ENTRY => {
            let r = ask(raw, |k: &K| m.remove_entry(k));
            match r {
                Some((k, v)) => check!(k.raw() == raw && Some(v.see()) == old, "remove_entry returns the pair"),
                None => check!(!there, "remove_entry returns the pair"),
            }
            if there {
                p.o.remove(i);
                p.v.remove(i);
            }
        }
        GET_MUT => {
            ask(raw, |k: &K| match m.get_mut(k) {
                Some(v) => {
                    check!(Some(v.see()) == old, "get_mut finds the value");
                    *v = V::mk(x);
                    p.v.a[i] = x;
                }
                None => check!(!there, "get_mut finds a present key"),
            });
        }
        ENTRY => match m.entry(K::mk(raw)) {
            Entry::Occupied(mut e) => {
                check!(e.key().raw() == raw && Some(e.get().see()) == old, "an occupied entry is the pair of the key");
                *e.get_mut() = V::mk(x);
                check!(e.get().see() == x, "an occupied entry gives the value itself");
                p.v.a[i] = x;
            }
            Entry::Vacant(e) => {
                check!(!there, "the entry of a present key is occupied");
                check!(e.key().raw() == raw, "a vacant entry has the key");
                let v = e.insert(V::mk(x));
                check!(v.see() == x, "insertion gives the value of the key");
                let y = !x & V::MASK;
                *v = V::mk(y);
                p.o.insert(i, o);
                p.v.insert(i, y);
            }
        },
        INTO_KEY => match m.entry(K::mk(raw)) {
            Entry::Occupied(_) => check!(there, "the entry of an absent key is vacant"),
            Entry::Vacant(e) => {
                check!(!there, "the entry of a present key is occupied");
                check!(e.into_key().raw() == raw, "a vacant entry gives its key back");
            }
        },
        _ => {
            m.clear();
            p.o.clear();
            p.v.clear();
        }
    }
    let now = if p.o.n == 0 {
        None
    } else {
        let mut r = None;
        let mut i = 0;
        while i < p.o.n {
            if p.o.a[i] == o {
                r = Some(p.v.a[i])
            }
            i += 1;
        }
        r
    };
    check!(ask(raw, |k: &K| m.get(k).map(|v| v.see())) == now, "lookup afterwards");
    check!(ask(raw, |k: &K| m.contains_key(k)) == now.is_some(), "containment");
}
/// One operation from a state with `n` pairs and `cap` slots.
pub fn step<K: VKeyT, V: El, A: Al, C: Cmp<K>, const N: usize>(n: usize, cap: usize, o: u8, ord: u32) {
    reset::<D, A>();
    let s = Seq::<N>::fill_of::<V>(n);
    let mut m: VM<K, V, A, C> = vmap_at(&s, cap);
    let mut p = Ord2 { o: Seq::new(), v: s };
    let mut i = 0;
    while i < n {
        p.o.push(2 * i as u32 + 1);
        i += 1;
    }
    op(&mut m, &mut p, o, ord);
    same_vmap(&mut m, &p);
    drop(m);
    if K::T {
        D::finish();
    }
    A::finish();
}
