//! VectorMap: every operation (insert, remove, remove_entry, get_mut, entry filled or not, clear) from every map of
//! 0..=3 pairs (7 thorough; some of 4) about every present key and about an absent one before, between and after them, with and
//! without room, under Less, Greater and a third order; values symbolic, keys one per position. Lookups and
//! entries in maps of up to 6 fully symbolic u32 keys, also 13 (thorough). Every constructor, with every order and
//! every pattern of equal keys among 3 pairs. Precondition: keys are == exactly when neither is before the other.
// cbmc: --max-field-sensitivity-array-size 256
use crate::el::*;
use crate::env::{outer, split};
use crate::mvmap::*;
use crate::sym;
use eastl_rs::compare::{Compare, Greater, Less};
use eastl_rs::vector_map::{Entry, VectorMap};

type K = VKey;
/// About every ordinal of maps with `lo..=hi` pairs.
fn each<C: Cmp<K>>(o: u8, lo: u8, hi: u8) {
    outer(hi - lo + 1, |n| {
        let n = (lo + n) as usize;
        split(2 * n as u8 + 1, |ord| step::<K, u32, Plain, C, 9>(n, n + (ord as usize >> 1 & 1), o, ord as u32))
    });
}
/// A sorted map of `n` symbolic keys; any key is looked up, which the oracle finds by looking at each.
fn any_keys<C: Compare<u32> + Default, const N: usize>(n: usize, op: u8) {
    let mut ks = [0u32; N];
    let mut vs = [0u32; N];
    let mut i = 0;
    while i < n {
        ks[i] = sym::u32();
        vs[i] = sym::u32();
        sym::assume(i == 0 || C::compare(&ks[i - 1], &ks[i]));
        i += 1;
    }
    let mut a = Plain::default();
    let b: *mut (u32, u32) = unsafe { a.allocate(N + 1) };
    i = 0;
    while i < n {
        unsafe { b.add(i).write((ks[i], vs[i])) };
        i += 1;
    }
    let r = RawVMap { base: crate::mvec::RawVec { begin: b, end: b.wrapping_add(n), cap: b.wrapping_add(N + 1), alloc: a }, cmp: C::default() };
    let r = std::mem::ManuallyDrop::new(r);
    let mut m = std::mem::ManuallyDrop::new(unsafe { std::ptr::read(&*r as *const RawVMap<u32, u32, Plain, C> as *const VectorMap<u32, u32, Plain, C>) });
    let q = sym::u32();
    let mut want = None;
    i = 0;
    while i < n {
        if ks[i] == q {
            want = Some(vs[i])
        }
        i += 1;
    }
    match op {
        0 => {
            check!(m.get(&q).copied() == want, "lookup");
            check!(m.contains_key(&q) == want.is_some(), "containment");
            check!(m.get_mut(&q).copied() == want, "mutable lookup");
        }
        1 => match m.entry(q) {
            Entry::Occupied(e) => check!(*e.key() == q && Some(*e.get()) == want, "an occupied entry is the pair of the key"),
            Entry::Vacant(e) => check!(want.is_none() && *e.key() == q, "a vacant entry is of an absent key"),
        },
        2 => {
            let x = sym::u32();
            check!(m.insert(q, x) == want, "insert returns the value it replaced, or None");
            check!(m.len() == n + want.is_none() as usize, "length");
            let s: &[(u32, u32)] = m.as_ref();
            i = 0;
            while i + 1 < s.len() {
                check!(C::compare(&s[i].0, &s[i + 1].0), "the slice is strictly sorted");
                i += 1;
            }
            check!(m.get(&q) == Some(&x), "an inserted pair is there");
        }
        _ => {
            check!(m.remove(&q) == want, "remove returns the value, or None");
            check!(m.len() == n - want.is_some() as usize, "length");
            let s: &[(u32, u32)] = m.as_ref();
            i = 0;
            while i + 1 < s.len() {
                check!(C::compare(&s[i].0, &s[i + 1].0), "the slice is strictly sorted");
                i += 1;
            }
            check!(m.get(&q).is_none(), "a removed key is gone");
        }
    }
    witness!(want.is_some(), "present");
    witness!(want.is_none(), "absent");
}
/// Three pairs in any order, with any of them equal.
const ORDERS: [[u32; 3]; 13] = [
    [0, 0, 0], [0, 0, 1], [0, 1, 0], [1, 0, 0], [1, 1, 0], [1, 0, 1], [0, 1, 1],
    [0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0],
];
type M = VectorMap<u32, u32, Plain, Less<u32>>;
fn built(m: &M, ks: &[u32], vs: &[u32]) {
    let mut n = 0;
    let mut k = 0;
    let s: &[(u32, u32)] = m.as_ref();
    while k < 3 {
        // the last pair of a key wins
        let mut w = None;
        let mut i = 0;
        while i < ks.len() {
            if ks[i] == k {
                w = Some(vs[i])
            }
            i += 1;
        }
        check!(m.get(&k).copied() == w, "lookup");
        if let Some(w) = w {
            check!(n < s.len() && s[n] == (k, w), "the slice is sorted");
            n += 1;
        }
        k += 1;
    }
    check!(m.len() == n && s.len() == n && m.is_empty() == (n == 0), "length");
}

harnesses! {
    insert_less [16] { each::<Less<K>>(INSERT, 0, 3); }
    insert_less4 [16] { split(5, |i| step::<K, u32, Plain, Less<K>, 9>(4, 4 + (i as usize & 1), INSERT, [0, 4, 5, 7, 8][i as usize])); }
    insert_greater [16] { each::<Greater<K>>(INSERT, 1, 3); }
    insert_mix [16] { each::<Mix>(INSERT, 1, 3); }
    remove_less [16] { each::<Less<K>>(REMOVE, 0, 3); }
    remove_less4 [16] { split(5, |i| step::<K, u32, Plain, Less<K>, 9>(4, 5, REMOVE, [1, 4, 5, 7, 8][i as usize])); }
    remove_mix [16] { each::<Mix>(REMOVE, 2, 3); }
    remove_entry [16] { each::<Greater<K>>(REMOVE_ENTRY, 0, 3); }
    get_mut [16] { each::<Less<K>>(GET_MUT, 0, 3); }
    entry_less [16] { each::<Less<K>>(ENTRY, 0, 2); }
    entry_mix [16] { each::<Mix>(ENTRY, 3, 3); }
    into_key [16] { each::<Greater<K>>(INTO_KEY, 0, 3); }
    clear [16] { each::<Less<K>>(CLEAR, 0, 2); }
    value12 [16] { outer(2, |o| split(5, |ord| step::<K, E12, Plain, Less<K>, 6>(2, 2, o, ord as u32))); }
    any_get [14] { outer(7, |n| split(1, |_| any_keys::<Less<u32>, 8>(n as usize + 1, 0))); }
    any_get_greater [14] { outer(4, |n| split(1, |_| any_keys::<Greater<u32>, 8>(n as usize + 1, 0))); }
    any_entry [14] { outer(4, |n| split(1, |_| any_keys::<Less<u32>, 8>(n as usize + 1, 1))); }
    any_insert [14] { outer(3, |n| split(1, |_| any_keys::<Less<u32>, 4>(n as usize + 1, 2))); }
    any_remove [14] { outer(3, |n| split(1, |_| any_keys::<Less<u32>, 4>(n as usize + 1, 3))); }
    fresh [14] {
        let (x, y) = (sym::u32(), sym::u32());
        split(5, |how| {
            let mut m: M = match how {
                0 => VectorMap::new(),
                1 => VectorMap::default(),
                2 => VectorMap::new_in(Plain::default(), Less::new()),
                3 => VectorMap::with_capacity(0),
                _ => VectorMap::with_capacity(3),
            };
            check!(how < 4 || m.capacity() >= 3, "with_capacity makes the room asked for");
            check!(m.is_empty() && m.len() == 0 && m.get(&x).is_none() && m.remove(&x).is_none() && !m.contains_key(&y), "a new map is empty");
            check!(m.insert(9, x).is_none() && m.insert(4, y).is_none(), "insertion of a new key");
            check!(&m[..] == &[(4, y), (9, x)], "the slice is sorted");
            check!(m.insert(9, y) == Some(x) && m.len() == 2, "insert returns the value it replaced, or None");
        });
    }
    collect [18] {
        let v = [sym::u32(), sym::u32(), sym::u32()];
        split(13, |o| {
            let ks = ORDERS[o as usize];
            let m: M = crate::ways::NoHint((0..3).map(|i| (ks[i], v[i]))).collect();
            built(&m, &ks, &v);
        });
    }
    from_array [18] {
        let v = [sym::u32(), sym::u32(), sym::u32()];
        split(13, |o| {
            let ks = ORDERS[o as usize];
            let a = [(ks[0], v[0]), (ks[1], v[1]), (ks[2], v[2])];
            let m: M = VectorMap::from(a);
            built(&m, &ks, &v);
        });
    }
    from_slice [18] {
        let v = [sym::u32(), sym::u32(), sym::u32()];
        outer(3, |how| split(5, |o| {
            let ks = ORDERS[[1, 3, 5, 9, 12][o as usize]];
            let mut a = [(ks[0], v[0]), (ks[1], v[1]), (ks[2], v[2])];
            let m: M = match how {
                0 => VectorMap::from(&a),
                1 => VectorMap::from(&a[..]),
                _ => VectorMap::from(&mut a[..]),
            };
            built(&m, &ks, &v);
        }));
    }
    x_insert_less [24] { each::<Less<K>>(INSERT, 4, 7); }
    x_get_mut [24] { each::<Less<K>>(GET_MUT, 4, 7); }
    x_insert_mix [24] { each::<Mix>(INSERT, 4, 7); }
    x_remove_less [24] { each::<Less<K>>(REMOVE, 4, 7); }
    x_remove_mix [24] { each::<Mix>(REMOVE, 4, 7); }
    x_entry_greater [24] { each::<Greater<K>>(ENTRY, 0, 7); }
    x_any_get [24] { any_keys::<Less<u32>, 13>(13, 0); }
    x_any_insert [14] { outer(2, |n| split(1, |_| any_keys::<Less<u32>, 6>(n as usize + 4, 2))); }
}
use eastl_rs::Allocator;
