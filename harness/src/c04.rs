//! HashMap and HashSet: every operation (insert, remove, remove_entry, get_mut, entry with or_insert,
//! or_insert_with, and_modify or unused, clear, iter_mut) from every table of 2 buckets with 0..=3 entries in every
//! distribution, about every present key and about absent ones of either bucket; growth from no storage, from 2 to 5
//! and from 5 to 11 buckets. Labels and values symbolic; hashes one per residue, some beyond 32 bits. The equality
//! functor is coarser than ==. Fresh and collected maps with symbolic u32 keys under the default hash.
// cbmc: --max-field-sensitivity-array-size 256
use crate::el::*;
use crate::env::{outer, split};
use crate::mhash::*;
use crate::sym;
use eastl_rs::hash_map::HashMap;
use eastl_rs::hash_set::HashSet;

type K = HKey;
/// Every state of two buckets; growth is far.
fn two(o: u8, lo: u8, hi: u8) {
    outer(hi - lo, |s| {
        let hs = TWO[(lo + s) as usize];
        split(hs.len() as u8 + 2, |w| {
            // an absent key of either bucket, its hash beyond 32 bits
            let h = if w as usize > hs.len() { 1 } else { 0 } + (1usize << 40);
            step::<K, u32, Plain, 5>(hs, 2, 4, o, w as usize, h)
        })
    });
}
fn set_two(o: u8, lo: u8, hi: u8) {
    outer(hi - lo, |s| {
        let hs = TWO[(lo + s) as usize];
        split(hs.len() as u8 + 2, |w| {
            let h = if w as usize > hs.len() { 1 } else { 0 } + (1usize << 40);
            step_set::<K, Plain, 5>(hs, 2, 4, o, w as usize, h)
        })
    });
}
const FIVE: [&[usize]; 4] = [&[0, 1, 2, 3, 4], &[0, 5, 10, 15, 1 << 33], &[3, 4, 8, 14, 4], &[7, 7, 18, 29, 9]];

harnesses! {
    insert_a [22] { two(INSERT, 0, 6); }
    insert_b [22] { two(INSERT, 6, 10); }
    remove_a [22] { two(REMOVE, 0, 6); }
    remove_b [22] { two(REMOVE, 6, 10); }
    remove_entry [22] { two(REMOVE_ENTRY, 3, 7); }
    get_mut [22] { two(GET_MUT, 0, 8); }
    or_insert [22] { two(OR_INSERT, 2, 6); }
    x_or_insert [22] { two(OR_INSERT, 0, 10); }
    or_insert_with [22] { two(OR_INSERT_WITH, 1, 5); }
    x_or_insert_with [22] { two(OR_INSERT_WITH, 0, 10); }
    modify [22] { two(MODIFY, 2, 6); }
    x_modify [22] { two(MODIFY, 0, 10); }
    entry_drop [22] { two(ENTRY_DROP, 0, 6); }
    clear [22] { outer(10, |s| split(1, |_| step::<K, u32, Plain, 5>(TWO[s as usize], 2, 4, CLEAR, 9, 1))); }
    iter_mut [22] { outer(10, |s| split(1, |_| step::<K, u32, Plain, 5>(TWO[s as usize], 2, 4, ITER_MUT, 9, 1))); }
    // without storage, and the first growth
    empty [22] { split(OPS, |o| step::<K, u32, Plain, 4>(&[], 1, 0, o, 0, 1 << 35 | 3)); }
    // full tables
    grow2 [22] {
        outer(3, |s| split(3, |o| step::<K, u32, Plain, 5>(
            [&[0, 1], &[2, 4], &[5, 1 << 33]][s as usize], 2, 2, [INSERT, OR_INSERT, MODIFY][o as usize], 9, [4, 0, 1 << 33][s as usize])));
    }
    grow5 [22] { split(4, |s| step::<K, u32, Plain, 8>(FIVE[s as usize], 5, 5, INSERT, 9, 21)); }
    full5 [22] { split(4, |s| step::<K, u32, Plain, 8>(FIVE[s as usize], 5, 5, [INSERT, OR_INSERT, REMOVE, REMOVE_ENTRY][s as usize], s as usize, 0)); }
    set_insert [22] { set_two(INSERT, 0, 7); }
    set_remove [22] { set_two(REMOVE, 1, 8); }
    x_set_insert [22] { set_two(INSERT, 7, 10); }
    x_set_remove [22] { set_two(REMOVE, 8, 10); }
    set_clear [22] { outer(10, |s| split(1, |_| step_set::<K, Plain, 5>(TWO[s as usize], 2, 4, CLEAR, 9, 1))); }
    set_grow [22] { outer(3, |s| split(1, |_| step_set::<K, Plain, 5>([&[][..], &[0, 1], &[5, 1 << 33]][s as usize], [1, 2, 2][s as usize], [0, 2, 2][s as usize], INSERT, 9, 6))); }
    // any labels, so that which entry an operation meets is symbolic
    any_label [8] {
        let (q, x, v) = (sym::u32(), sym::u32(), sym::u32());
        outer(2, |n| split(4, |o| {
            let mut p = Pairs::<3>::new();
            p.push(x, 0, v);
            if n == 1 {
                let y = sym::u32();
                sym::assume(y != x);
                p.push(y, 2, !v);
            }
            let want = p.find(q);
            let mut m = std::mem::ManuallyDrop::new(map_at::<K, u32, Plain, 3>(&p, 2, 9));
            let k = K::mk(q, 4, true);
            match o {
                0 => check!(m.get(&k).copied() == want && m.contains_key(&k) == want.is_some(), "lookup"),
                1 => check!(m.get_mut(&k).copied() == want, "get_mut finds a present key"),
                2 => {
                    check!(m.remove(&k) == want, "remove returns the value, or None");
                    check!(m.len() == p.n - want.is_some() as usize && m.get(&k).is_none(), "a removed key is gone");
                }
                _ => {
                    check!(m.insert(k, x) == want, "insert returns the value it replaced, or None");
                    check!(m.len() == p.n + want.is_none() as usize && m.get(&k) == Some(&x), "an inserted pair is there");
                }
            }
        }));
    }
    // the default hash and equality on any u32 keys
    default_insert [12] {
        let (a, b) = (sym::u32(), sym::u32());
        split(3, |how| {
            let mut m: HashMap<u32, u32, Plain> = match how {
                0 => HashMap::new(),
                1 => HashMap::default(),
                _ => [].into_iter().collect(),
            };
            check!(m.is_empty() && m.len() == 0 && m.get(&a).is_none() && !m.contains_key(&b) && m.remove(&a).is_none(), "a new map is empty");
            check!(m.iter().next().is_none() && m.iter_mut().next().is_none() && m.get_mut(&a).is_none(), "a new map is empty");
            check!(m.insert(a, b).is_none() && m.len() == 1 && !m.is_empty(), "insertion of a new key");
            check!(m.get(&a) == Some(&b), "lookup of a key that is present");
            check!(b == a || m.get(&b).is_none(), "lookup of a key that is absent");
            std::mem::forget(m);
        });
    }
    default_set [12] {
        let (a, b) = (sym::u32(), sym::u32());
        split(3, |how| {
            let mut m: HashSet<u32, Plain> = match how {
                0 => HashSet::new(),
                1 => HashSet::default(),
                _ => [].into_iter().collect(),
            };
            check!(m.is_empty() && m.len() == 0 && m.get(&a).is_none() && !m.contains_key(&b) && m.remove(&a).is_none(), "a new set is empty");
            check!(m.iter().next().is_none(), "a new set is empty");
            check!(m.insert(a) && m.len() == 1 && !m.is_empty(), "insertion of a new key");
            check!(m.get(&a) == Some(&a), "lookup of a key that is present");
            check!(b == a || !m.contains_key(&b), "lookup of a key that is absent");
            std::mem::forget(m);
        });
    }
    collect [22] {
        outer(4, |n| split(1, |_| {
            let ks = [3u32, 8, 4, 8];
            let v = [sym::u32(), sym::u32(), sym::u32(), sym::u32()];
            let n = n as usize + 1;
            let m: HashMap<u32, u32, Plain> = crate::ways::NoHint((0..n).map(|i| (ks[i], v[i]))).collect();
            check!(m.len() == if n == 4 { 3 } else { n }, "length");
            check!(m.get(&3) == Some(&v[0]) && m.get(&5).is_none(), "lookup");
            check!(n < 2 || m.get(&8) == Some(&v[if n == 4 { 3 } else { 1 }]), "the last of equal keys wins");
            let s: HashSet<u32, Plain> = crate::ways::NoHint((0..n).map(|i| ks[i])).collect();
            check!(s.len() == m.len() && s.contains_key(&3) && s.contains_key(&8) == (n > 1) && s.contains_key(&4) == (n > 2), "a collected set");
        }));
    }
    value12 [22] { outer(4, |s| split(4, |o| step::<K, E12, Plain, 5>(TWO[3 + s as usize], 2, 4, [INSERT, REMOVE, GET_MUT, ITER_MUT][o as usize], 1, 0))); }
}
