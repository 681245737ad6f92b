//! The C++ layout of a hash table, and steps of it from an arbitrary state.
//!
//! A key carries its hash as a value of its own: (label, hash) stands for any key type under any
//! hash function, because the table sees a key only through `Hash` and `Equals`. Two keys with
//! equal labels but different marks are equal to the functor and different to `==`.
use crate::el::*;
use crate::env::D;
use crate::sym;
use eastl_rs::equals::Equals;
use eastl_rs::hash::Hash;
use eastl_rs::hash_map::HashMap;
use eastl_rs::hash_set::HashSet;

pub trait KeyT: PartialEq + Sized + 'static {
    fn mk(id: u32, h: usize, mark: bool) -> Self;
    fn id(&self) -> u32;
    fn h(&self) -> usize;
    const T: bool = false;
}
// The gap and the alignment make the two variants of an entry share no bytes that are read:
// symbolic execution then keeps what a vacant entry refers to apart.
#[repr(C, align(16))]
#[derive(Clone, Copy, PartialEq)]
pub struct HKey {
    pub gap: u64,
    pub id: u32,
    pub mark: u32,
    pub h: usize,
}
impl std::fmt::Debug for HKey {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(unsafe { std::str::from_utf8_unchecked(&[b'#', self.id as u8 & 0x7f]) })
    }
}
impl KeyT for HKey {
    fn mk(id: u32, h: usize, mark: bool) -> Self {
        HKey { gap: 0, id, mark: mark as u32, h }
    }
    fn id(&self) -> u32 {
        self.id
    }
    fn h(&self) -> usize {
        self.h
    }
}
/// A tracked key.
#[repr(C, align(16))]
#[derive(PartialEq)]
pub struct HDKey {
    pub gap: u64,
    pub d: D,
    pub mark: u32,
    pub h: usize,
}
impl KeyT for HDKey {
    fn mk(id: u32, h: usize, mark: bool) -> Self {
        HDKey { gap: 0, d: D::new(id), mark: mark as u32, h }
    }
    fn id(&self) -> u32 {
        self.d.see()
    }
    fn h(&self) -> usize {
        self.h
    }
    const T: bool = true;
}
pub struct HFn;
impl<K: KeyT> Hash<K> for HFn {
    fn hash(k: &K) -> usize {
        k.h()
    }
}
pub struct EqFn;
impl<K: KeyT> Equals<K> for EqFn {
    fn equals(a: &K, b: &K) -> bool {
        a.id() == b.id()
    }
}

#[repr(C)]
pub struct RawHash<K, V, A> {
    pub pad: u8,
    pub buckets: *mut *mut RawHNode<K, V>,
    pub bucket_count: u32,
    pub element_count: u32,
    pub max_load: f32,
    pub growth: f32,
    pub next_resize: u32,
    pub alloc: A,
}
#[repr(C)]
pub struct RawHNode<K, V> {
    pub key: K,
    pub val: V,
    pub next: *mut RawHNode<K, V>,
}
pub type M<K, V, A> = HashMap<K, V, A, HFn, EqFn>;
pub type S<K, A> = HashSet<K, A, HFn, EqFn>;

pub static mut ANY_LABEL: bool = false;
/// The ideal map: distinct labels, their hashes, their values.
#[derive(Clone, Copy)]
pub struct Pairs<const N: usize> {
    pub id: [u32; N],
    pub h: [usize; N],
    pub v: [u32; N],
    pub n: usize,
}
impl<const N: usize> Pairs<N> {
    pub fn new() -> Self {
        Pairs { id: [0; N], h: [0; N], v: [0; N], n: 0 }
    }
    pub fn find(&self, id: u32) -> Option<u32> {
        let mut r = None;
        let mut i = 0;
        while i < self.n {
            if self.id[i] == id {
                r = Some(self.v[i]);
            }
            i += 1;
        }
        r
    }
    /// A label that is not in the map: any, or (labels are only ever compared for equality) the
    /// next of a fixed series.
    pub fn fresh(&self) -> u32 {
        if unsafe { !ANY_LABEL } {
            let mut id = 100;
            let mut i = 0;
            while i < self.n {
                if self.id[i] >= id {
                    id = self.id[i] + 1;
                }
                i += 1;
            }
            return id;
        }
        let id = sym::u32();
        let mut i = 0;
        while i < self.n {
            sym::assume(self.id[i] != id);
            i += 1;
        }
        id
    }
    pub fn push(&mut self, id: u32, h: usize, v: u32) {
        self.id[self.n] = id;
        self.h[self.n] = h;
        self.v[self.n] = v;
        self.n += 1;
    }
    pub fn remove(&mut self, i: usize) {
        let mut j = i;
        while j + 1 < self.n {
            self.id[j] = self.id[j + 1];
            self.h[j] = self.h[j + 1];
            self.v[j] = self.v[j + 1];
            j += 1;
        }
        self.n -= 1;
    }
    /// Entries with the given hashes.
    pub fn fill<V: El>(hs: &[usize]) -> Self {
        let mut p = Self::new();
        let mut i = 0;
        while i < hs.len() {
            let id = p.fresh();
            p.push(id, hs[i], sym::u32() & V::MASK);
            i += 1;
        }
        p
    }
}

/// The shared bucket array of tables without storage stays as it is.
pub static EMPTY: [usize; 2] = [0, !0];

/// A table of `n` buckets (1: no storage) holding `p`, that grows at more than `next` elements.
pub fn raw_at<K: KeyT, V: El, A: Al, const N: usize>(p: &Pairs<N>, n: u32, next: u32) -> RawHash<K, V, A> {
    let mut alloc = A::default();
    unsafe {
        let buckets: *mut *mut RawHNode<K, V> = if n == 1 {
            EMPTY.as_ptr() as *mut _
        } else {
            let b: *mut *mut RawHNode<K, V> = alloc.allocate(n as usize + 1);
            let mut i = 0;
            while i < n as usize {
                b.add(i).write(std::ptr::null_mut());
                i += 1;
            }
            b.add(n as usize).write(!0usize as *mut _);
            b
        };
        let mut i = 0;
        while i < p.n {
            let b = buckets.add(p.h[i] % n as usize);
            let node: *mut RawHNode<K, V> = alloc.allocate(1);
            node.write(RawHNode { key: K::mk(p.id[i], p.h[i], false), val: V::mk(p.v[i]), next: *b });
            *b = node;
            i += 1;
        }
        RawHash { pad: 0, buckets, bucket_count: n, element_count: p.n as u32, max_load: 1.0, growth: 2.0, next_resize: next, alloc }
    }
}
pub fn map_at<K: KeyT, V: El, A: Al, const N: usize>(p: &Pairs<N>, n: u32, next: u32) -> M<K, V, A> {
    check!(std::mem::size_of::<M<K, V, A>>() == std::mem::size_of::<RawHash<K, V, A>>(), "the map has the size of the C++ map");
    let r = std::mem::ManuallyDrop::new(raw_at::<K, V, A, N>(p, n, next));
    unsafe { std::ptr::read(&*r as *const RawHash<K, V, A> as *const M<K, V, A>) }
}
impl El for () {
    fn mk(_: u32) {}
    fn val(&self) -> u32 {
        0
    }
    const MASK: u32 = 0;
}
pub fn set_at<K: KeyT, A: Al, const N: usize>(p: &Pairs<N>, n: u32, next: u32) -> S<K, A> {
    check!(std::mem::size_of::<S<K, A>>() == std::mem::size_of::<RawHash<K, (), A>>(), "the set has the size of the C++ set");
    let r = std::mem::ManuallyDrop::new(raw_at::<K, (), A, N>(p, n, next));
    unsafe { std::ptr::read(&*r as *const RawHash<K, (), A> as *const S<K, A>) }
}

/// Length, every lookup and iteration agree with the ideal map.
pub fn same_map<K: KeyT, V: El, A: Al, const N: usize>(m: &mut M<K, V, A>, p: &Pairs<N>) {
    check!(m.len() == p.n, "length");
    check!(m.is_empty() == (p.n == 0), "emptiness");
    let mut i = 0;
    while i < p.n {
        let k = std::mem::ManuallyDrop::new(K::mk(p.id[i], p.h[i], true));
        let g = m.get(&*k).map(|v| v.see());
        check!(g == Some(p.v[i]), "lookup of a key that is present");
        check!(m.contains_key(&*k), "a present key is contained");
        forget(k);
        i += 1;
    }
    let mut seen = [false; N];
    let mut c = 0;
    let mut it = m.iter();
    while c < p.n {
        let e = it.next();
        check!(e.is_some(), "iteration: a pair is missing");
        let (k, v) = e.unwrap();
        let (id, v) = (k.id(), v.see());
        let mut j = 0;
        let mut hit = false;
        while j < p.n {
            if p.id[j] == id {
                check!(!seen[j] && p.v[j] == v, "iteration: a pair comes twice or has another value");
                seen[j] = true;
                hit = true;
            }
            j += 1;
        }
        check!(hit, "iteration: a key that is not in the map");
        c += 1;
    }
    check!(it.next().is_none(), "iteration: a pair too many");
}
/// A key made for a question only: it leaves no trace.
pub fn forget<K: KeyT>(k: std::mem::ManuallyDrop<K>) {
    if K::T {
        drop(std::mem::ManuallyDrop::into_inner(k))
    }
}
pub fn absent<K: KeyT, V: El, A: Al>(m: &M<K, V, A>, id: u32, h: usize) {
    let k = std::mem::ManuallyDrop::new(K::mk(id, h, true));
    check!(m.get(&*k).is_none() && !m.contains_key(&*k), "lookup of a key that is absent");
    forget(k);
}

/// The raw memory is a valid table that denotes the ideal map.
pub fn raw_ok<K: KeyT, V: El, A: Al, const N: usize>(m: &M<K, V, A>, p: &Pairs<N>) {
    unsafe {
        let r = &*(m as *const M<K, V, A> as *const RawHash<K, V, A>);
        check!(r.element_count as usize == p.n, "stored element count");
        let n = r.bucket_count as usize;
        check!(n >= 1, "bucket count");
        check!(*r.buckets.add(n) as usize == !0, "the bucket array is closed by the sentinel");
        let mut total = 0;
        let mut b = 0;
        while b < n {
            let mut q = *r.buckets.add(b);
            while !q.is_null() {
                check!(total < p.n, "a node too many");
                total += 1;
                check!((*q).key.h() % n == b, "a node is in the bucket its hash selects");
                check!(p.find((*q).key.id()) == Some((*q).val.see()), "a node holds a pair of the map");
                q = (*q).next;
            }
            b += 1;
        }
        check!(total == p.n, "a node is missing");
        check!(p.n == 0 || r.next_resize as usize >= p.n, "the resize limit covers the elements");
    }
}

pub const INSERT: u8 = 0;
pub const REMOVE: u8 = 1;
pub const REMOVE_ENTRY: u8 = 2;
pub const GET_MUT: u8 = 3;
pub const OR_INSERT: u8 = 4;
pub const MODIFY: u8 = 5;
pub const CLEAR: u8 = 6;
pub const ITER_MUT: u8 = 7;
pub const OR_INSERT_WITH: u8 = 8;
pub const ENTRY_DROP: u8 = 9;
pub const OPS: u8 = 10;

/// One operation; the key it is about is the `which`-th of the map, or a new one with hash `h`.
pub fn op<K: KeyT, V: El, A: Al, const N: usize>(m: &mut M<K, V, A>, p: &mut Pairs<N>, op: u8, which: usize, h: usize) {
    let x = sym::u32() & V::MASK;
    let there = which < p.n;
    let (id, h, old) = if there { (p.id[which], p.h[which], Some(p.v[which])) } else { (p.fresh(), h, None) };
    match op {
        INSERT => {
            let r = took(m.insert(K::mk(id, h, true), V::mk(x)));
            check!(r == old, "insert returns the value it replaced, or None");
            if there {
                p.v[which] = x
            } else {
                p.push(id, h, x)
            }
        }
        REMOVE => {
            let k = K::mk(id, h, true);
            let r = took(m.remove(&k));
            check!(r == old, "remove returns the value, or None");
            if there {
                p.remove(which)
            }
        }
        REMOVE_ENTRY => {
            let k = K::mk(id, h, true);
            let r = m.remove_entry(&k);
            match r {
                Some((k, v)) => check!(k.id() == id && Some(v.see()) == old, "remove_entry returns the pair"),
                None => check!(!there, "remove_entry returns the pair"),
            }
            if there {
                p.remove(which)
            }
        }
        GET_MUT => {
            let k = K::mk(id, h, true);
            match m.get_mut(&k) {
                Some(v) => {
                    check!(Some(v.see()) == old, "get_mut finds the value");
                    *v = V::mk(x);
                    p.v[which] = x;
                }
                None => check!(!there, "get_mut finds a present key"),
            }
        }
        OR_INSERT | OR_INSERT_WITH => {
            let e = m.entry(K::mk(id, h, true));
            let mut called = false;
            let v = if op == OR_INSERT {
                e.or_insert(V::mk(x))
            } else {
                e.or_insert_with(|| {
                    called = true;
                    V::mk(x)
                })
            };
            let want = old.unwrap_or(x);
            check!(v.see() == want, "or_insert gives the value of the key");
            check!(op == OR_INSERT || called == !there, "or_insert_with asks for a value exactly when there is none");
            // what it gives is the element in the map
            let y = sym::u32() & V::MASK;
            *v = V::mk(y);
            if there {
                p.v[which] = y
            } else {
                p.push(id, h, y)
            }
        }
        MODIFY => {
            // the closure is Fn: it writes what it was given
            let e = m.entry(K::mk(id, h, true));
            let v = e.and_modify(|v| *v = V::mk(x)).or_insert(V::mk(!x & V::MASK));
            check!(v.see() == if there { x } else { !x & V::MASK }, "and_modify changes a present value only");
            if there {
                p.v[which] = x
            } else {
                p.push(id, h, !x & V::MASK)
            }
        }
        CLEAR => {
            m.clear();
            p.n = 0;
        }
        ITER_MUT => {
            let mut c = 0;
            for (k, v) in m.iter_mut() {
                check!(c < p.n, "iteration: a pair too many");
                let id = k.id();
                let mut j = 0;
                let mut hit = false;
                while j < p.n {
                    if p.id[j] == id {
                        check!(p.v[j] == v.see(), "iteration: a pair comes twice or has another value");
                        // changed on the first visit: a second one does not match
                        p.v[j] = (p.v[j] ^ 1 ^ (x & !1)) & V::MASK;
                        *v = V::mk(p.v[j]);
                        hit = true;
                    }
                    j += 1;
                }
                check!(hit, "iteration: a key that is not in the map");
                c += 1;
            }
            check!(c == p.n, "iteration: a pair is missing");
        }
        _ => {
            // an entry that is not filled changes nothing
            let e = m.entry(K::mk(id, h, true));
            drop(e);
        }
    }
}

/// One operation from a state, contents looked at through the interface.
pub fn step<K: KeyT, V: El, A: Al, const N: usize>(hs: &[usize], n: u32, next: u32, o: u8, which: usize, h: usize) {
    reset::<D, A>();
    let mut p = Pairs::<N>::fill::<V>(hs);
    let mut m: M<K, V, A> = map_at(&p, n, next);
    let before = p;
    op(&mut m, &mut p, o, which, h);
    same_map(&mut m, &p);
    if which >= before.n {
        let f = p.fresh();
        absent(&m, f, h);
    } else if p.n < before.n {
        absent(&m, before.id[which], before.h[which]);
    }
    drop(m);
    if K::T {
        D::finish();
    }
    A::finish();
}
/// The same with the raw memory looked at.
pub fn step_raw<K: KeyT, V: El, A: Al, const N: usize>(hs: &[usize], n: u32, next: u32, o: u8, which: usize, h: usize) {
    reset::<D, A>();
    let mut p = Pairs::<N>::fill::<V>(hs);
    let mut m: M<K, V, A> = map_at(&p, n, next);
    raw_ok(&m, &p);
    op(&mut m, &mut p, o, which, h);
    raw_ok(&m, &p);
    drop(m);
}
/// The same for a set.
pub fn step_set<K: KeyT, A: Al, const N: usize>(hs: &[usize], n: u32, next: u32, o: u8, which: usize, h: usize) {
    reset::<D, A>();
    let mut p = Pairs::<N>::fill::<()>(hs);
    let mut s: S<K, A> = set_at(&p, n, next);
    let there = which < p.n;
    let (id, h) = if there { (p.id[which], p.h[which]) } else { (p.fresh(), h) };
    match o {
        INSERT => {
            let r = s.insert(K::mk(id, h, true));
            check!(r == !there, "insert tells whether the key was new");
            if !there {
                p.push(id, h, 0)
            }
        }
        REMOVE => {
            let k = K::mk(id, h, true);
            let r = s.remove(&k);
            check!(r.map(|k| k.id()) == if there { Some(id) } else { None }, "remove returns the key, or None");
            if there {
                p.remove(which)
            }
        }
        _ => {
            s.clear();
            p.n = 0;
        }
    }
    check!(s.len() == p.n && s.is_empty() == (p.n == 0), "length");
    let mut i = 0;
    while i < p.n {
        let k = std::mem::ManuallyDrop::new(K::mk(p.id[i], p.h[i], true));
        check!(s.get(&*k).map(|k| k.id()) == Some(p.id[i]) && s.contains_key(&*k), "lookup of a key that is present");
        forget(k);
        i += 1;
    }
    {
        let f = p.fresh();
        let k = std::mem::ManuallyDrop::new(K::mk(f, h, true));
        check!(s.get(&*k).is_none() && !s.contains_key(&*k), "lookup of a key that is absent");
        forget(k);
    }
    let mut seen = [false; N];
    let mut c = 0;
    let mut it = s.iter();
    while c < p.n {
        let e = it.next();
        check!(e.is_some(), "iteration: a key is missing");
        let id = e.unwrap().id();
        let mut j = 0;
        let mut hit = false;
        while j < p.n {
            if p.id[j] == id {
                check!(!seen[j], "iteration: a key comes twice");
                seen[j] = true;
                hit = true;
            }
            j += 1;
        }
        check!(hit, "iteration: a key that is not in the set");
        c += 1;
    }
    check!(it.next().is_none(), "iteration: a key too many");
    drop(it);
    drop(s);
    if K::T {
        D::finish();
    }
    A::finish();
}

/// Buckets of up to three entries in a table of two, up to order: which bucket each goes to.
pub const TWO: [&[usize]; 10] = [&[], &[0], &[1], &[0, 0], &[0, 1], &[1, 1], &[0, 0, 0], &[0, 0, 1], &[0, 1, 1], &[1, 1, 1]];
