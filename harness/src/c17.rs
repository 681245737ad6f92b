//! Raw objects looked at through the C++ layouts, before and after one operation. Vector: capacities 0..=3, every
//! length, every operation. Deque of 40-byte elements: every offset in the block, 0..=5 elements, pushes over either
//! end of tables of 4 and 8 slots, removal, deques made by the crate; of u64 and 12-byte elements at block
//! boundaries; elements per block for 17 element sizes. List: ring of 0..=4, every operation. Hash map and set: every
//! distribution of 0..=3 entries over 2 buckets, every operation, growth 1, 2 and 5 buckets. Vector map: begin, end,
//! capacity of 0..=3 pairs. C++ traversal of the iterators the crate gives out, after any number of steps from either end.
// cbmc: --max-field-sensitivity-array-size 256
use crate::el::*;
use crate::env::{outer, split};
use crate::mdeque::{self, deque_at, sub, At, RawDeque, RawIt};
use crate::mhash::{self, map_at, HKey, Pairs, RawHNode, RawHash};
use crate::mlist;
use crate::mvec::{self, RawVec};
use crate::mvmap;
use crate::sym;
use eastl_rs::compare::Less;
use eastl_rs::deque::Deque;
use eastl_rs::hash_map::HashMap;
use eastl_rs::hash_set::HashSet;
use eastl_rs::list::List;
use eastl_rs::vector::Vector;
use eastl_rs::vector_map::VectorMap;
use eastl_rs::Allocator;
use std::mem::{size_of, ManuallyDrop, MaybeUninit};

// ---- vector
/// begin, end and capacity, and what lies there.
fn raw_vec<E: El, A: Allocator, const N: usize>(v: &Vector<E, A>, m: &Seq<N>) {
    unsafe {
        let r = &*(v as *const Vector<E, A> as *const RawVec<E, A>);
        if r.begin.is_null() {
            check!(r.end.is_null() && r.cap.is_null() && m.n == 0, "a vector without storage is three null pointers");
        } else {
            let len = r.end.offset_from(r.begin);
            let cap = r.cap.offset_from(r.begin);
            check!(len == m.n as isize && cap >= len, "begin, end and capacity are in order, end - begin is the length");
            check!(r.begin as usize % std::mem::align_of::<E>() == 0, "elements are aligned");
            let mut i = 0;
            while i < m.n {
                check!((*r.begin.add(i)).see() == m.a[i], "an element lies where C++ computes it to be");
                i += 1;
            }
            while i < cap as usize {
                // the rest is memory C++ may fill
                r.begin.add(i).cast::<MaybeUninit<E>>().write(MaybeUninit::uninit());
                i += 1;
            }
        }
    }
}
fn vec_step<E: El>(o: u8, len: usize, cap: usize, k: usize) {
    let mut m = Seq::<10>::fill_of::<E>(len);
    let mut v: Vector<E, Plain> = mvec::vec_at(&m, cap);
    raw_vec(&v, &m);
    mvec::op(&mut v, &mut m, o, k);
    raw_vec(&v, &m);
    drop(v);
}
fn vec_plain<E: El>(o: u8) {
    mvec::shapes(3, |len, cap| vec_step::<E>(o, len, cap, 0));
}
fn vec_sizes<E: El>(o: u8, c: usize, k: u8) {
    mvec::outer_shapes(c, |len, cap| split(k, |k| vec_step::<E>(o, len, cap, k as usize)));
}
fn vec_at_index<E: El>(o: u8, past: u8) {
    mvec::outer_shapes(3, |len, cap| split(len as u8 + past, |i| vec_step::<E>(o, len, cap, i as usize)));
}
fn vec_new() {
    split(8, |how| {
        let m = Seq::<4>::fill(if how < 4 { 0 } else { (how - 4) as usize });
        let s = [m.a[0], m.a[1], m.a[2]];
        let v: Vector<u32, Plain> = match how {
            0 => Vector::new(),
            1 => Vector::default(),
            2 => Vector::with_capacity(0),
            3 => Vector::with_capacity(3),
            4 | 5 => Vector::from(&s[..m.n]),
            6 => unsafe { Vector::from_in(&s[..m.n], Plain::default()) },
            _ => s[..m.n].iter().copied().collect(),
        };
        raw_vec(&v, &m);
    });
}
// ---- vector map: a vector of pairs in order
fn raw_vmap<C: mvmap::Cmp<mvmap::VKey>>(o: u8, n: usize, cap: usize, ord: u32) {
    use mvmap::{Ord2, RawVMap, VKey, VKeyT, VM};
    let s = Seq::<9>::fill_of::<u32>(n);
    let mut m: VM<VKey, u32, Plain, C> = mvmap::vmap_at(&s, cap);
    let mut p = Ord2 { o: Seq::new(), v: s };
    let mut i = 0;
    while i < n {
        p.o.push(2 * i as u32 + 1);
        i += 1;
    }
    mvmap::op(&mut m, &mut p, o, ord);
    unsafe {
        let r = &(*(&m as *const _ as *const RawVMap<VKey, u32, Plain, C>)).base;
        if r.begin.is_null() {
            check!(r.end.is_null() && r.cap.is_null() && p.o.n == 0, "a map without storage is three null pointers");
        } else {
            check!(r.end.offset_from(r.begin) == p.o.n as isize && r.cap.offset_from(r.end) >= 0, "end - begin is the length");
            let mut i = 0;
            while i < p.o.n {
                let e = &*r.begin.add(i);
                check!(e.0.raw() == C::raw(p.o.a[i]) && e.1 == p.v.a[i], "the pair at a place of the order");
                i += 1;
            }
        }
    }
}

fn dat(table: usize, first: usize, off: usize, n: usize) -> At {
    At { table, first, off, n }
}
// ---- deque
/// The iterator is at a slot of a block that is entry `*b` of the table; returns its block and place there.
unsafe fn place<E>(table: *mut *mut E, slots: usize, it: &RawIt<E>) -> (usize, usize) {
    let k = sub::<E>();
    let mut b = 0;
    while b < slots && table.add(b) != it.array {
        b += 1;
    }
    check!(b < slots, "an iterator's array pointer is an entry of the table");
    check!(*it.array == it.begin, "an iterator's block is the one its table entry holds");
    check!(it.begin.add(k) == it.end, "an iterator's block has the number of elements EASTL computes");
    let mut o = 0;
    while o < k && it.begin.add(o) != it.current {
        o += 1;
    }
    check!(o < k, "an iterator's position is inside its block");
    (b, o)
}
fn raw_deque<E: El, A: Al, const N: usize>(d: &Deque<'static, E, A>, m: &Seq<N>) {
    unsafe {
        let r = &*(d as *const Deque<E, A> as *const RawDeque<E, A>);
        let k = sub::<E>();
        check!(!r.ptr_array.is_null() && r.ptr_array_size > 0, "a deque has a table");
        let slots = r.ptr_array_size as usize;
        let (fb, fo) = place(r.ptr_array, slots, &r.begin_it);
        let (lb, lo) = place(r.ptr_array, slots, &r.end_it);
        check!(fb <= lb && lb * k + lo == fb * k + fo + m.n, "the distance of the iterators is the length");
        let mut b = fb;
        while b <= lb {
            let blk = *r.ptr_array.add(b);
            // a whole block of memory, of its own
            if b > fb {
                check!(blk != *r.ptr_array.add(fb), "blocks are distinct");
            }
            let mut o = 0;
            while o < k {
                let i = (b * k + o).wrapping_sub(fb * k + fo);
                if i < m.n {
                    check!((*blk.add(o)).see() == m.a[i], "an element lies where C++ computes it to be");
                } else if o == 0 || o + 1 == k {
                    blk.add(o).cast::<MaybeUninit<E>>().write(MaybeUninit::uninit());
                }
                o += 1;
            }
            b += 1;
        }
    }
}
fn deque_step<E: El>(at: At, o: u8) {
    let mut m = Seq::<80>::fill_of::<E>(at.n);
    let mut d: Deque<'static, E, Plain> = deque_at(&m, at);
    raw_deque(&d, &m);
    mdeque::op(&mut d, &mut m, o);
    raw_deque(&d, &m);
    drop(d);
}
fn deque_inner(o: u8, offs: &[usize], ns: &[usize]) {
    outer(offs.len() as u8, |f| split(ns.len() as u8, |n| deque_step::<E40>(dat(4, 1, offs[f as usize], ns[n as usize]), o)));
}
fn deque_back(table: usize, firsts: &[usize], off: usize) {
    split(firsts.len() as u8, |f| {
        let f = firsts[f as usize];
        deque_step::<E40>(dat(table, f, off, (table - f) * 4 - 1 - off), mdeque::PUSH_BACK)
    });
}
fn deque_front(table: usize, used: &[usize], end: usize) {
    split(used.len() as u8, |u| deque_step::<E40>(dat(table, 0, 0, used[u as usize] * 4 + end), mdeque::PUSH_FRONT));
}
fn deque_remove(off: usize, ns: &[usize]) {
    outer(ns.len() as u8, |n| {
        let n = ns[n as usize];
        split(n as u8 + 1, |k| {
            let mut m = Seq::<8>::fill_of::<E40>(n);
            let mut d: Deque<'static, E40, Plain> = deque_at(&m, dat(4, 1, off, n));
            let r = d.remove(k as usize).map(|e| e.see());
            check!(r == m.remove(k as usize), "remove returns the element at the index, or None");
            raw_deque(&d, &m);
        })
    });
}
/// Elements per block, read off a deque the crate makes.
fn block<E: Clone + 'static>(e: E) {
    let mut d: Deque<'static, E, Plain> = Deque::new();
    d.push_back(e);
    unsafe {
        let r = &*(&d as *const Deque<E, Plain> as *const RawDeque<E, Plain>);
        let (fb, fo) = place(r.ptr_array, r.ptr_array_size as usize, &r.begin_it);
        let (lb, lo) = place(r.ptr_array, r.ptr_array_size as usize, &r.end_it);
        check!(lb * sub::<E>() + lo == fb * sub::<E>() + fo + 1, "the distance of the iterators is the length");
    }
    std::mem::forget(d);
}
/// The pair of iterators the crate gives out, traversed as C++ does.
unsafe fn walk_deque<E: El, const N: usize>(mut b: RawIt<E>, e: RawIt<E>, m: &Seq<N>, lo: usize, hi: usize) {
    let k = sub::<E>();
    check!(*e.array == e.begin && e.begin.add(k) == e.end, "the end iterator's block is the one its table entry holds");
    let mut i = lo;
    while i < hi {
        check!(b.current != e.current, "the C++ traversal ends early");
        check!(*b.array == b.begin && b.begin.add(k) == b.end, "an iterator's block is the one its table entry holds");
        check!((*b.current).see() == m.a[i], "the C++ traversal meets another element");
        b.current = b.current.add(1);
        if b.current == b.end {
            b.array = b.array.add(1);
            b.begin = *b.array;
            b.end = b.begin.add(k);
            b.current = b.begin;
        }
        i += 1;
    }
    check!(b.current == e.current && b.array == e.array, "the C++ traversal does not end");
}
fn deque_walk(at: At, how: u8) {
    outer(at.n as u8 + 1, |a| {
        split(at.n as u8 + 1 - a, |b| {
            let (a, b) = (a as usize, b as usize);
            let m = Seq::<8>::fill_of::<E40>(at.n);
            let mut d = ManuallyDrop::new(deque_at::<E40, Plain, 8>(&m, at));
            unsafe {
                let (p, q): (RawIt<E40>, RawIt<E40>) = if how == 0 {
                    let mut it = d.iter();
                    for _ in 0..a {
                        it.next();
                    }
                    for _ in 0..b {
                        it.next_back();
                    }
                    std::mem::transmute(it.into_compat())
                } else {
                    let mut it = d.iter_mut();
                    for _ in 0..a {
                        it.next();
                    }
                    for _ in 0..b {
                        it.next_back();
                    }
                    if how == 1 {
                        std::mem::transmute(it.into_compat_mut())
                    } else {
                        std::mem::transmute(it.into_compat())
                    }
                };
                walk_deque(p, q, &m, a, at.n - b);
            }
        })
    });
}

// ---- hash tables
fn two(o: u8, lo: u8, hi: u8) {
    outer(hi - lo, |s| {
        let hs = mhash::TWO[(lo + s) as usize];
        split(hs.len() as u8 + 2, |w| {
            let h = if w as usize > hs.len() { 1 } else { 0 } + (1usize << 40);
            mhash::step_raw::<HKey, u32, Plain, 5>(hs, 2, 4, o, w as usize, h)
        })
    });
}
#[repr(C)]
#[derive(Clone, Copy)]
struct RawHIt<K, V> {
    node: *mut RawHNode<K, V>,
    bucket: *mut *mut RawHNode<K, V>,
}
const END: usize = !0;
/// EASTL's increment: the next node of the chain, or the first of the next bucket that is not empty.
unsafe fn walk_hash<V: El, const N: usize>(mut i: RawHIt<HKey, V>, e: RawHIt<HKey, V>, p: &Pairs<N>, first: usize) {
    let mut seen = [false; N];
    let mut c = first;
    check!(e.node as usize == END && *e.bucket == e.node, "the end iterator is at the sentinel");
    while c < p.n {
        check!(i.node as usize != END, "the C++ traversal ends early");
        let mut j = 0;
        let mut hit = false;
        while j < p.n {
            if p.id[j] == (*i.node).key.id {
                check!(!seen[j] && (*i.node).val.see() == p.v[j], "the C++ traversal meets a pair twice or with another value");
                seen[j] = true;
                hit = true;
            }
            j += 1;
        }
        check!(hit, "the C++ traversal meets a key that is not in the map");
        i.node = (*i.node).next;
        while i.node.is_null() {
            i.bucket = i.bucket.add(1);
            i.node = *i.bucket;
        }
        c += 1;
    }
    check!(i.node == e.node && i.bucket == e.bucket, "the C++ traversal does not end at the end iterator");
}
fn hash_walk(hs: &[usize], n: u32, how: u8) {
    split(hs.len() as u8 + 1, |a| unsafe {
        let p = Pairs::<4>::fill::<u32>(hs);
        let mut m = ManuallyDrop::new(map_at::<HKey, u32, Plain, 4>(&p, n, 9));
        let (b, e): (RawHIt<HKey, u32>, RawHIt<HKey, u32>) = match how {
            0 => {
                let mut it = m.iter();
                for _ in 0..a {
                    it.next();
                }
                std::mem::transmute(it.into_compat())
            }
            1 => {
                let mut it = m.iter_mut();
                for _ in 0..a {
                    it.next();
                }
                std::mem::transmute(it.into_compat_mut())
            }
            _ => {
                let mut it = m.iter_mut();
                for _ in 0..a {
                    it.next();
                }
                std::mem::transmute(it.into_compat())
            }
        };
        walk_hash(b, e, &p, a as usize);
    });
}
fn hash_fresh() {
    split(3, |how| unsafe {
        let m: HashMap<u32, u32, Plain> = match how {
            0 => HashMap::new(),
            1 => HashMap::default(),
            _ => [].into_iter().collect(),
        };
        let r = &*(&m as *const _ as *const RawHash<u32, u32, Plain>);
        check!(r.bucket_count == 1 && r.element_count == 0 && r.next_resize == 0, "an empty table has one bucket, and grows with the first element");
        check!((*r.buckets).is_null() && *r.buckets.add(1) as usize == END, "the empty table's bucket is empty and closed by the sentinel");
        check!(r.max_load == 1.0 && r.growth == 2.0, "the rehash policy is EASTL's");
        let s: HashSet<u32, Plain> = if how == 0 { HashSet::new() } else { HashSet::default() };
        let r = &*(&s as *const _ as *const RawHash<u32, (), Plain>);
        check!(r.bucket_count == 1 && r.element_count == 0 && (*r.buckets).is_null() && *r.buckets.add(1) as usize == END, "an empty set");
    });
}

harnesses! {
    vec_push [14] { vec_plain::<u32>(mvec::PUSH); }
    vec_push12 [14] { vec_plain::<E12>(mvec::PUSH); }
    vec_pop [14] { vec_plain::<E12>(mvec::POP); }
    vec_insert [14] { vec_at_index::<E12>(mvec::INSERT, 1); }
    vec_remove [14] { vec_at_index::<u8>(mvec::REMOVE, 0); }
    vec_append [14] { vec_sizes::<u32>(mvec::APPEND, 2, 4); }
    vec_assign [14] { vec_sizes::<E12>(mvec::ASSIGN, 2, 4); }
    vec_reserve [14] { vec_sizes::<u64>(mvec::RESERVE, 3, 3); }
    vec_clear [14] { vec_plain::<u32>(mvec::CLEAR); }
    vec_made [14] { vec_new(); }
    x_vec_append [14] { vec_sizes::<E12>(mvec::APPEND, 3, 5); }
    x_vec_assign [14] { vec_sizes::<u64>(mvec::ASSIGN, 3, 5); }
    vmap_insert [14] { outer(3, |n| split(2 * n + 1, |o| raw_vmap::<Less<mvmap::VKey>>(mvmap::INSERT, n as usize, n as usize + (o as usize & 1), o as u32))); }
    vmap_remove [14] { outer(3, |n| split(2 * n + 1, |o| raw_vmap::<Less<mvmap::VKey>>(mvmap::REMOVE, n as usize, n as usize, o as u32))); }
    d_pop_back [26] { deque_inner(mdeque::POP_BACK, &[0, 1, 3], &[0, 1, 3, 4, 5]); }
    d_pop_front [26] { deque_inner(mdeque::POP_FRONT, &[0, 2, 3], &[0, 1, 2, 5]); }
    d_push_back [26] { deque_inner(mdeque::PUSH_BACK, &[0, 2, 3], &[0, 1, 3, 4]); }
    d_push_front [26] { deque_inner(mdeque::PUSH_FRONT, &[0, 1, 3], &[0, 1, 2, 4]); }
    x_d_pop_back [26] { deque_inner(mdeque::POP_BACK, &[0, 1, 2, 3], &[0, 1, 2, 3, 4, 5, 6, 7, 8]); }
    x_d_pop_front [26] { deque_inner(mdeque::POP_FRONT, &[0, 1, 2, 3], &[0, 1, 2, 3, 4, 5, 6, 7, 8]); }
    x_d_push_back [26] { deque_inner(mdeque::PUSH_BACK, &[0, 1, 2, 3], &[0, 1, 2, 3, 4, 5, 6, 7, 8]); }
    x_d_push_front [26] { deque_inner(mdeque::PUSH_FRONT, &[0, 1, 2, 3], &[0, 1, 2, 3, 4, 5, 6, 7, 8]); }
    d_table_back [26] { deque_back(4, &[0, 1, 2, 3], 1); }
    d_table_front [26] { deque_front(4, &[0, 1, 2, 3], 2); }
    d_table8_back [40] { deque_back(8, &[7, 5, 4, 1], 3); }
    d_table8_front [40] { deque_front(8, &[0, 2, 3, 7], 0); }
    d_remove0 [26] { deque_remove(0, &[1, 4]); }
    d_remove2 [26] { deque_remove(2, &[2, 3, 5]); }
    d_made [26] {
        split(5, |o| {
            let mut d: Deque<'static, E40, Plain> = Deque::new();
            let mut m = Seq::<8>::new();
            raw_deque(&d, &m);
            mdeque::op(&mut d, &mut m, if o == 4 { 0 } else { o });
            raw_deque(&d, &m);
            mdeque::op(&mut d, &mut m, if o == 4 { mdeque::PUSH_FRONT } else { mdeque::POP_BACK });
            raw_deque(&d, &m);
        });
    }
    d_collect [26] {
        split(3, |n| {
            let m = Seq::<8>::fill_of::<E40>(2 * n as usize + 1);
            let d: Deque<'static, E40, Plain> = (0..m.n).map(|i| E40::mk(m.a[i])).collect();
            raw_deque(&d, &m);
        });
    }
    d_u64 [34] {
        outer(2, |p| split(4, |o| deque_step::<u64>(if p == 0 { dat(4, 1, 31, 1) } else { dat(4, 1, 0, 31) }, o)));
    }
    d_e12 [26] {
        outer(2, |p| split(4, |o| deque_step::<E12>(if p == 0 { dat(4, 1, 15, 1) } else { dat(4, 1, 0, 15) }, o)));
    }
    d_u32 [66] {
        split(4, |o| deque_step::<u32>(if o & 1 == 1 { dat(4, 1, 0, 3) } else { dat(4, 1, 62, if o == 0 { 1 } else { 2 }) }, o));
    }
    blocks_small [66] { split(7, |i| match i {
        0 => block(1u8),
        1 => block(1u16),
        2 => block([0u8; 3]),
        3 => block(1u32),
        4 => block([0u8; 5]),
        5 => block([0u8; 7]),
        _ => block(1u64),
    }); }
    blocks_large [20] { split(10, |i| match i {
        0 => block([0u8; 9]),
        1 => block([0u8; 15]),
        2 => block([0u64; 2]),
        3 => block([0u8; 17]),
        4 => block([0u8; 31]),
        5 => block([0u64; 4]),
        6 => block([0u8; 33]),
        7 => block([0u64; 5]),
        8 => block([0u64; 8]),
        _ => block([0u64; 40]),
    }); }
    d_walk0 [12] { deque_walk(dat(4, 1, 0, 4), 0); }
    d_walk2 [12] { deque_walk(dat(4, 1, 2, 3), 1); }
    d_walk3 [12] { deque_walk(dat(4, 1, 3, 2), 2); }
    x_d_walk [12] { outer(4, |o| deque_walk_all(o)); }
    ring [14] { outer(4, |n| split(mlist::OPS, |a| mlist::step_ring::<u32, Plain, 12>(n as usize, a))); }
    ring12 [14] { outer(2, |n| split(mlist::OPS, |a| mlist::step_ring::<E12, Plain, 12>(n as usize + 1, a))); }
    x_ring [14] { outer(2, |n| split(mlist::OPS, |a| mlist::step_ring::<u64, Plain, 14>(n as usize + 4, a))); }
    list_made [14] {
        let mut slot = MaybeUninit::uninit();
        let l: &mut List<u32, Plain> = mlist::fresh(&mut slot);
        mlist::ring(l, &Seq::<2>::new());
        witness!("end");
    }
    h_insert [22] { two(mhash::INSERT, 0, 6); }
    h_remove [22] { two(mhash::REMOVE, 1, 6); }
    h_remove_entry [22] { two(mhash::REMOVE_ENTRY, 3, 6); }
    h_or_insert [22] { two(mhash::OR_INSERT, 2, 5); }
    x_h_insert [22] { two(mhash::INSERT, 6, 10); }
    x_h_remove [22] { two(mhash::REMOVE, 6, 10); }
    x_h_remove_entry [22] { two(mhash::REMOVE_ENTRY, 6, 10); }
    x_h_or_insert [22] { two(mhash::OR_INSERT, 5, 10); }
    x_h_or_insert_with [22] { two(mhash::OR_INSERT_WITH, 0, 10); }
    x_h_modify [22] { two(mhash::MODIFY, 0, 10); }
    h_clear [22] { outer(10, |s| split(2, |o| mhash::step_raw::<HKey, u32, Plain, 5>(mhash::TWO[s as usize], 2, 4, [mhash::CLEAR, mhash::ENTRY_DROP][o as usize], 9, 1))); }
    h_empty [22] { split(mhash::OPS, |o| mhash::step_raw::<HKey, u32, Plain, 4>(&[], 1, 0, o, 0, 1 << 35 | 3)); }
    h_grow2 [22] {
        outer(3, |s| split(3, |o| mhash::step_raw::<HKey, u32, Plain, 5>(
            [&[0, 1], &[2, 4], &[5, 1 << 33]][s as usize], 2, 2, [mhash::INSERT, mhash::OR_INSERT, mhash::MODIFY][o as usize], 9, [4, 0, 1 << 33][s as usize])));
    }
    h_grow5 [22] { split(3, |s| mhash::step_raw::<HKey, u32, Plain, 8>(
        [&[0, 1, 2, 3, 4][..], &[0, 5, 10, 15, 1 << 33], &[7, 7, 18, 29, 9]][s as usize], 5, 5, mhash::INSERT, 9, 21)); }
    h_value12 [22] { outer(3, |s| split(2, |o| mhash::step_raw::<HKey, E12, Plain, 5>(mhash::TWO[3 + s as usize], 2, 4, [mhash::INSERT, mhash::REMOVE][o as usize], if o == 0 { 9 } else { 0 }, 1))); }
    h_made [8] { hash_fresh(); }
    h_walk [14] { outer(6, |s| hash_walk([&[][..], &[0], &[1], &[0, 0], &[1, 0], &[0, 2, 0]][s as usize], 2, 0)); }
    h_walk_mut [14] { outer(6, |s| hash_walk([&[][..], &[0], &[1], &[0, 0], &[1, 0], &[1, 3, 0]][s as usize], 2, 1)); }
    h_walk_mut_const [14] { outer(4, |s| hash_walk([&[][..], &[1], &[1, 0], &[1, 1]][s as usize], 2, 2)); }
    h_walk5 [14] { outer(4, |s| hash_walk([&[4][..], &[0, 4], &[2, 2], &[1, 3, 6]][s as usize], 5, s & 1)); }
}
fn deque_walk_all(o: u8) {
    deque_walk(dat(4, 1, o as usize, 6), o % 3)
}
