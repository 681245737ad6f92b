//! Growth policy: every 32-bit bucket count, element count, number of added elements (whose sum fits 32 bits) and
//! resize limit, all symbolic; maximum load factor 1 and growth factor 2 (the defaults), load factors 0.5, 0.75
//! and 2 in the thorough tier. Two questions in a row. Tolerance for float rounding: 2^-22 of the value.
//! Whole tables: the element count and resize limit of a table of 2 or 5 buckets stay covered by growth.
// cbmc: --max-field-sensitivity-array-size 256
use crate::el::*;
use crate::env::split;
use crate::mhash::*;
use crate::sym;
use eastl_rs::internal::hash_table::rehash_policy::PrimeRehashPolicy;

#[repr(C)]
#[derive(Clone, Copy)]
struct Raw {
    load: f32,
    growth: f32,
    next: u32,
}
/// EASTL's gPrimeNumberArray (the last entry is repeated there).
const PRIMES: [u32; 256] = [
    2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37,
    41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89,
    97, 103, 109, 113, 127, 137, 139, 149, 157, 167, 179, 193,
    199, 211, 227, 241, 257, 277, 293, 313, 337, 359, 383, 409,
    439, 467, 503, 541, 577, 619, 661, 709, 761, 823, 887, 953,
    1031, 1109, 1193, 1289, 1381, 1493, 1613, 1741, 1879, 2029, 2179, 2357,
    2549, 2753, 2971, 3209, 3469, 3739, 4027, 4349, 4703, 5087, 5503, 5953,
    6427, 6949, 7517, 8123, 8783, 9497, 10273, 11113, 12011, 12983, 14033, 15173,
    16411, 17749, 19183, 20753, 22447, 24281, 26267, 28411, 30727, 33223, 35933, 38873,
    42043, 45481, 49201, 53201, 57557, 62233, 67307, 72817, 78779, 85229, 92203, 99733,
    107897, 116731, 126271, 136607, 147793, 159871, 172933, 187091, 202409, 218971, 236897, 256279,
    277261, 299951, 324503, 351061, 379787, 410857, 444487, 480881, 520241, 562841, 608903, 658753,
    712697, 771049, 834181, 902483, 976369, 1056323, 1142821, 1236397, 1337629, 1447153, 1565659, 1693859,
    1832561, 1982627, 2144977, 2320627, 2510653, 2716249, 2938679, 3179303, 3439651, 3721303, 4026031, 4355707,
    4712381, 5098259, 5515729, 5967347, 6456007, 6984629, 7556579, 8175383, 8844859, 9569143, 10352717, 11200489,
    12117689, 13109983, 14183539, 15345007, 16601593, 17961079, 19431899, 21023161, 22744717, 24607243, 26622317, 28802401,
    31160981, 33712729, 36473443, 39460231, 42691603, 46187573, 49969847, 54061849, 58488943, 63278561, 68460391, 74066549,
    80131819, 86693767, 93793069, 101473717, 109783337, 118773397, 128499677, 139022417, 150406843, 162723577, 176048909, 190465427,
    206062531, 222936881, 241193053, 260944219, 282312799, 305431229, 330442829, 357502601, 386778277, 418451333, 452718089, 489790921,
    529899637, 573292817, 620239453, 671030513, 725980837, 785430967, 849749479, 919334987, 994618837, 1076067617, 1164186217, 1259520799,
    1362662261, 1474249943, 1594975441, 1725587117, 1866894511, 2019773507, 2185171673, 2364114217, 2557710269, 2767159799, 2993761039, 3238918481,
    3504151727, 3791104843, 4101556399, 4294967291,
];
fn policy(load: f32, next: u32) -> PrimeRehashPolicy {
    check!(std::mem::size_of::<PrimeRehashPolicy>() == 12, "the policy has the size of EASTL's");
    unsafe { std::mem::transmute(Raw { load, growth: 2.0, next }) }
}
fn next_of(p: &PrimeRehashPolicy) -> u32 {
    unsafe { (*(p as *const PrimeRehashPolicy as *const Raw)).next }
}
const LAST: u32 = 4294967291;
fn is_prime_of_table(x: u32) -> bool {
    let mut r = false;
    let mut i = 0;
    while i < 256 {
        r |= PRIMES[i] == x;
        i += 1;
    }
    r
}
/// num / den is the maximum load factor.
struct Q {
    buckets: u32,
    elems: u32,
    add: u32,
    next: u32,
}
fn question() -> Q {
    let q = Q { buckets: sym::u32(), elems: sym::u32(), add: sym::u32(), next: sym::u32() };
    sym::assume(q.buckets >= 1 && q.add >= 1 && q.elems as u64 + q.add as u64 <= u32::MAX as u64);
    q
}
/// x <= y * (1 + 2^-22)
fn at_most(x: u64, y: u64) -> bool {
    x <= y + (y >> 22) + 1
}
fn answer(load: f32, num: u64, den: u64) {
    let q = question();
    let mut p = policy(load, q.next);
    let r = p.get_rehash_required(q.buckets, q.elems, q.add);
    let sum = q.elems as u64 + q.add as u64;
    // a maximum other than 1 divides with rounding, to a whole bucket
    let slack = if num == den { 0 } else { num + den };
    match r {
        Some(n) => {
            check!(is_prime_of_table(n), "the new bucket count is one of EASTL's primes");
            check!(n > q.buckets || q.buckets == 1 || n == LAST, "the new bucket count is larger");
            check!(at_most(sum * den, n as u64 * num + slack) || n == LAST, "the new table respects the load factor");
            check!(q.buckets == 1 || n == LAST || at_most(2 * q.buckets as u64, n as u64), "a growing table at least doubles");
            check!(q.next < sum as u32, "it grows only beyond its limit");
        }
        None => {
            check!(sum <= q.next as u64 || at_most(sum * den, q.buckets as u64 * num + slack), "a table is kept only within its load factor");
            check!(sum <= q.next as u64 || q.buckets > 1, "a table without storage is not kept");
        }
    }
    witness!(r.is_none(), "kept");
    witness!(r.is_some(), "grown");
}
/// After an answer the limit is the load limit of the table it chose.
fn limit(load: f32, num: u64, den: u64) {
    let q = question();
    let mut p = policy(load, q.next);
    let sum = q.elems as u64 + q.add as u64;
    sym::assume(sum > q.next as u64);
    let r = p.get_rehash_required(q.buckets, q.elems, q.add);
    let n = r.unwrap_or(q.buckets) as u64;
    let l = next_of(&p) as u64;
    check!(at_most(sum, l) || n == LAST as u64, "the limit covers the elements");
    check!(at_most(l * den, n * num + den), "the limit is not beyond the load factor");
    check!(at_most(n * num, l * den) || l == u32::MAX as u64, "the limit is not below the load factor");
    witness!("end");
}
/// It does not ask again before the limit, and does beyond it.
fn again() {
    let q = question();
    let mut p = policy(1.0, q.next);
    let q2 = question();
    let r = p.get_rehash_required(q.buckets, q.elems, q.add);
    let s2 = q2.elems as u64 + q2.add as u64;
    if let Some(n) = r {
        let r2 = p.get_rehash_required(n, q2.elems, q2.add);
        if r2.is_some() {
            check!(!at_most(s2 + (s2 >> 22) + 1, n as u64), "it asks again only when the load limit is reached");
        } else {
            check!(at_most(s2, n as u64) || n == LAST, "it asks again when the load limit is reached");
        }
        witness!(r2.is_some(), "asked again");
        witness!(r2.is_none(), "did not ask");
    }
}

/// A whole table after one insertion: its limit is that of its bucket count.
fn table(n: u32, hs: &[usize]) {
    let p = Pairs::<8>::fill::<u32>(hs);
    let mut m = std::mem::ManuallyDrop::new(map_at::<HKey, u32, Plain, 8>(&p, n, if n == 1 { 0 } else { n }));
    m.insert(HKey::mk(1, 77, true), sym::u32());
    let r = unsafe { &*(&*m as *const M<HKey, u32, Plain> as *const RawHash<HKey, u32, Plain>) };
    check!(r.bucket_count != 1 && is_prime_of_table(r.bucket_count), "the bucket count is one of EASTL's primes");
    check!(r.element_count as usize == hs.len() + 1 && r.element_count <= r.bucket_count, "the table respects its load factor");
    check!(r.next_resize == r.bucket_count, "the limit is the load limit");
    check!(hs.len() < n as usize && n > 1 && r.bucket_count == n || r.bucket_count > n && (r.bucket_count >= 2 * n), "a full table at least doubles, another is kept");
}

harnesses! {
    tables [258] {
        split(5, |s| match s {
            0 => table(1, &[]),
            1 => table(2, &[0]),
            2 => table(2, &[1, 2]),
            3 => table(5, &[1, 2, 3]),
            _ => table(5, &[1, 2, 3, 6, 8]),
        });
    }
    answer1 [258] { answer(1.0, 1, 1); }
    limit1 [12] { limit(1.0, 1, 1); }
    again1 [12] { again(); }
    x_answer_half [258] { answer(0.5, 1, 2); }
    x_answer_3_4 [258] { answer(0.75, 3, 4); }
    x_answer_2 [258] { answer(2.0, 2, 1); }
    x_limit_half [12] { limit(0.5, 1, 2); }
    x_limit_3_4 [12] { limit(0.75, 3, 4); }
    x_limit_2 [12] { limit(2.0, 2, 1); }
}
