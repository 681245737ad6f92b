//! The layout of a search tree, and steps of it from an arbitrary tree.
use crate::el::*;
use crate::env::D;
use crate::mvmap::VKeyT;
use crate::sym;
use eastl_rs::compare::Compare;
use eastl_rs::map::Map;
use eastl_rs::set::Set;
use std::mem::MaybeUninit;

#[repr(C)]
pub struct RawTree<K, V, A, C> {
    pub cmp: C,
    pub begin: *mut RawTNode<K, V>,
    pub end: *mut RawTNode<K, V>,
    pub root: *mut RawTNode<K, V>,
    pub size: u32,
    pub alloc: A,
}
#[repr(C)]
pub struct RawTNode<K, V> {
    pub right: *mut RawTNode<K, V>,
    pub left: *mut RawTNode<K, V>,
    /// bit 0 is the color
    pub parent: *mut RawTNode<K, V>,
    pub pair: (K, V),
}
impl VKeyT for u32 {
    fn mk(r: u32) -> u32 {
        r
    }
    fn raw(&self) -> u32 {
        *self
    }
}
/// Whether nodes have colors; without them a parent pointer is just that.
pub static mut COLORS: bool = true;
pub const SHAPES: [u8; 7] = [1, 1, 2, 5, 14, 42, 132];

/// The `shape`-th tree over the pairs `lo..lo + n`.
unsafe fn build<K: VKeyT, V: El, A: Al, const N: usize>(
    a: &mut A, ks: &Seq<N>, vs: &Seq<N>, lo: usize, n: usize, shape: u8, parent: *mut RawTNode<K, V>, color: usize,
) -> *mut RawTNode<K, V> {
    if n == 0 {
        return std::ptr::null_mut();
    }
    let mut s = shape;
    let mut l = 0;
    loop {
        let c = SHAPES[l] * SHAPES[n - 1 - l];
        if s < c {
            break;
        }
        s -= c;
        l += 1;
    }
    let r = n - 1 - l;
    let node: *mut RawTNode<K, V> = a.allocate(1);
    let i = lo + l;
    node.write(RawTNode {
        right: std::ptr::null_mut(),
        left: std::ptr::null_mut(),
        parent: (parent as *mut u8).wrapping_add(if COLORS { color } else { 0 }) as *mut _,
        pair: (K::mk(ks.a[i]), V::mk(vs.a[i])),
    });
    (*node).left = build::<K, V, A, N>(a, ks, vs, lo, l, s / SHAPES[r], node, color ^ 1);
    (*node).right = build::<K, V, A, N>(a, ks, vs, i + 1, r, s % SHAPES[r], node, i & 1);
    node
}
/// Ascending keys in the comparator's order.
pub fn keys<C: Compare<u32>, const N: usize>(n: usize) -> Seq<N> {
    let ks = Seq::<N>::fill(n);
    let mut i = 1;
    while i < n {
        sym::assume(C::compare(&ks.a[i - 1], &ks.a[i]));
        i += 1;
    }
    ks
}
unsafe fn raw_tree<K: VKeyT, V: El, A: Al, C: Default, const N: usize>(r: *mut RawTree<K, V, A, C>, ks: &Seq<N>, vs: &Seq<N>, shape: u8) {
    let anchor = std::ptr::addr_of_mut!((*r).begin) as *mut RawTNode<K, V>;
    let mut alloc = A::default();
    let n = ks.n;
    let root = build::<K, V, A, N>(&mut alloc, ks, vs, 0, n, shape, anchor, 1);
    let (mut lo, mut hi) = (anchor, anchor);
    if n > 0 {
        lo = root;
        while !(*lo).left.is_null() {
            lo = (*lo).left;
        }
        hi = root;
        while !(*hi).right.is_null() {
            hi = (*hi).right;
        }
    }
    r.write(RawTree { cmp: C::default(), begin: lo, end: hi, root, size: n as u32, alloc });
}
pub type TSlot<K, V, A, C> = MaybeUninit<Map<K, V, A, C>>;
/// Builds a map in its place; it must not move.
pub fn tree_at<'a, K: VKeyT, V: El, A: Al, C: Compare<K> + Default, const N: usize>(
    slot: &'a mut TSlot<K, V, A, C>, ks: &Seq<N>, vs: &Seq<N>, shape: u8,
) -> &'a mut Map<K, V, A, C> {
    check!(std::mem::size_of::<Map<K, V, A, C>>() == std::mem::size_of::<RawTree<K, V, A, C>>(), "the map has the size of the C++ map");
    unsafe {
        raw_tree::<K, V, A, C, N>(slot.as_mut_ptr() as *mut _, ks, vs, shape);
        &mut *slot.as_mut_ptr()
    }
}
pub fn set_at<'a, K: VKeyT, A: Al, C: Compare<K> + Default, const N: usize>(
    slot: &'a mut MaybeUninit<Set<K, A, C>>, ks: &Seq<N>, shape: u8,
) -> &'a mut Set<K, A, C> {
    check!(std::mem::size_of::<Set<K, A, C>>() == std::mem::size_of::<RawTree<K, (), A, C>>(), "the set has the size of the C++ set");
    unsafe {
        raw_tree::<K, (), A, C, N>(slot.as_mut_ptr() as *mut _, ks, &Seq::<N>::fill_of::<()>(ks.n), shape);
        &mut *slot.as_mut_ptr()
    }
}
/// Iteration and size agree with the ideal map.
pub fn same_tree<K: VKeyT, V: El, A: Al, C: Compare<K>, const N: usize>(m: &mut Map<K, V, A, C>, ks: &Seq<N>, vs: &Seq<N>) {
    check!(m.len() == ks.n, "length");
    check!(m.is_empty() == (ks.n == 0), "emptiness");
    let mut it = unsafe { m.iter() };
    let mut i = 0;
    while i < ks.n {
        match it.next() {
            Some((k, v)) => {
                check!(k.raw() == ks.a[i], "iteration is in increasing order: key");
                check!(v.see() == vs.a[i], "iteration: value");
            }
            None => check!(false, "iteration: a pair is missing"),
        }
        i += 1;
    }
    check!(it.next().is_none(), "iteration ends after the last pair");
}
pub const LOOKUP: u8 = 0;
pub const GET_MUT: u8 = 1;
pub const ITER_MUT: u8 = 2;
pub const CLEAR: u8 = 3;
pub const OPS: u8 = 4;
/// One operation on any key of any tree.
pub fn op<K: VKeyT, V: El, A: Al, C: Compare<K>, const N: usize>(m: &mut Map<K, V, A, C>, ks: &mut Seq<N>, vs: &mut Seq<N>, op: u8) {
    let x = sym::u32() & V::MASK;
    match op {
        LOOKUP | GET_MUT => {
            let q = sym::u32();
            let mut want = None;
            let mut i = 0;
            while i < ks.n {
                if ks.a[i] == q {
                    want = Some(vs.a[i]);
                    if op == GET_MUT {
                        vs.a[i] = x;
                    }
                }
                i += 1;
            }
            let k = K::mk(q);
            if op == LOOKUP {
                check!(m.get(&k).map(|v| v.see()) == want, "lookup");
                check!(m.contains_key(&k) == want.is_some(), "containment");
            } else {
                match m.get_mut(&k) {
                    Some(v) => {
                        check!(Some(v.see()) == want, "mutable lookup");
                        *v = V::mk(x);
                    }
                    None => check!(want.is_none(), "mutable lookup finds a present key"),
                }
            }
        }
        ITER_MUT => {
            let mut it = unsafe { m.iter_mut() };
            let mut i = 0;
            while i < ks.n {
                match it.next() {
                    Some((k, v)) => {
                        check!(k.raw() == ks.a[i] && v.see() == vs.a[i], "mutable iteration is in increasing order");
                        vs.a[i] = (vs.a[i] ^ x) & V::MASK;
                        *v = V::mk(vs.a[i]);
                    }
                    None => check!(false, "mutable iteration: a pair is missing"),
                }
                i += 1;
            }
            check!(it.next().is_none(), "mutable iteration ends after the last pair");
        }
        _ => {
            m.clear();
            ks.clear();
            vs.clear();
            let k = K::mk(x);
            check!(m.get(&k).is_none() && !m.contains_key(&k) && m.get_mut(&k).is_none(), "a cleared map is empty");
            check!(unsafe { m.iter_mut().next().is_none() }, "a cleared map is empty");
        }
    }
}
pub fn step<K: VKeyT, V: El, A: Al, C: Compare<K> + Compare<u32> + Default, const N: usize>(n: usize, shape: u8, o: u8) {
    reset::<D, A>();
    let mut ks = keys::<C, N>(n);
    let mut vs = Seq::<N>::fill_of::<V>(n);
    let mut slot = MaybeUninit::uninit();
    let m: &mut Map<K, V, A, C> = tree_at(&mut slot, &ks, &vs, shape);
    op(m, &mut ks, &mut vs, o);
    if o != LOOKUP {
        same_tree(m, &ks, &vs);
    }
    if o == CLEAR {
        m.clear();
        same_tree(m, &ks, &vs);
    }
    unsafe { std::ptr::drop_in_place(m) };
    if K::T {
        D::finish();
    }
    A::finish();
}
/// Just iteration.
pub fn iterate<V: El, const N: usize>(n: usize, shape: u8) {
    let ks = Seq::<N>::fill(n);
    let vs = Seq::<N>::fill_of::<V>(n);
    let mut slot = MaybeUninit::uninit();
    let m: &mut Map<u32, V, Plain, eastl_rs::compare::Less<u32>> = tree_at(&mut slot, &ks, &vs, shape);
    same_tree(m, &ks, &vs);
}
pub fn iterate_mut<V: El, const N: usize>(n: usize, shape: u8) {
    let mut ks = Seq::<N>::fill(n);
    let mut vs = Seq::<N>::fill_of::<V>(n);
    let mut slot = MaybeUninit::uninit();
    let m: &mut Map<u32, V, Plain, eastl_rs::compare::Less<u32>> = tree_at(&mut slot, &ks, &vs, shape);
    op(m, &mut ks, &mut vs, ITER_MUT);
    // what was written is in the nodes, in the same places
    unsafe {
        let r = &*(m as *const _ as *const RawTree<u32, V, Plain, eastl_rs::compare::Less<u32>>);
        if n > 0 {
            check!((*r.begin).pair.1.see() == vs.a[0], "a write through a mutable iterator changes the pair");
        }
    }
}
/// The same for a set; iteration in steps of its own.
pub fn step_set<K: VKeyT, A: Al, C: Compare<K> + Compare<u32> + Default, const N: usize>(n: usize, shape: u8, o: u8) {
    reset::<D, A>();
    let mut ks = keys::<C, N>(n);
    let mut slot = MaybeUninit::uninit();
    let s: &mut Set<K, A, C> = set_at(&mut slot, &ks, shape);
    if o == CLEAR {
        s.clear();
        ks.clear();
    }
    check!(s.len() == ks.n && s.is_empty() == (ks.n == 0), "length");
    let q = sym::u32();
    let mut want = false;
    let mut i = 0;
    while i < ks.n {
        want |= ks.a[i] == q;
        i += 1;
    }
    check!(s.contains_key(&K::mk(q)) == want, "containment");
    if o == CLEAR {
        check!(unsafe { s.iter().next().is_none() }, "a cleared set is empty");
    }
    unsafe { std::ptr::drop_in_place(s) };
    if K::T {
        D::finish();
    }
    A::finish();
}
/// A set's iteration.
pub fn iterate_set<const N: usize>(n: usize, shape: u8) {
    let ks = Seq::<N>::fill(n);
    let mut slot = MaybeUninit::uninit();
    let s: &mut Set<u32, Plain> = set_at(&mut slot, &ks, shape);
    let mut it = unsafe { s.iter() };
    let mut i = 0;
    while i < ks.n {
        match it.next() {
            Some(k) => check!(k.raw() == ks.a[i], "iteration is in increasing order"),
            None => check!(false, "iteration: a key is missing"),
        }
        i += 1;
    }
    check!(it.next().is_none(), "iteration ends after the last key");
}
