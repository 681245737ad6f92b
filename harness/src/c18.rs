//! Every value of every integer type and of bool; every f32 and f64 (truncation for those that have a size_t of it,
//! equality of hashes for all that are equal); texts of 0..=3 chars in 12 patterns of widths 1 to 4 (every char of
//! those widths), ASCII texts of 0..=8 bytes (0..=24 thorough), C strings of 0..=6 arbitrary non-zero bytes (0..=16
//! thorough); the same text as str, &str, String of two capacities and C string. Maps with one key of each kind,
//! looked up by an equal key elsewhere in memory.
use crate::el::*;
use crate::env::split;
use crate::mstr::{str_at, Txt};
use crate::sym;
use eastl_rs::equals::{EqualTo, Equals};
use eastl_rs::hash::{DefaultHash, Hash};
use eastl_rs::hash_map::HashMap;
use eastl_rs::hash_set::HashSet;
use eastl_rs::string::String;
use std::ffi::c_char;

fn h<T: ?Sized>(v: &T) -> usize
where
    DefaultHash<T>: Hash<T>,
{
    <DefaultHash<T> as Hash<T>>::hash(v)
}
/// FNV-1, 32 bits, as EASTL writes it.
fn fnv(b: &[u8]) -> usize {
    let mut r = 2166136261u32;
    let mut i = 0;
    while i < b.len() {
        r = r.wrapping_mul(16777619) ^ b[i] as u32;
        i += 1;
    }
    r as usize
}
/// C's strlen, for the solver: the length the harness knows, checked to be it.
static mut LEN: usize = 0;
#[cfg(kani)]
const unsafe fn strlen(p: *const c_char) -> usize {
    let mut n = 0;
    while n < LEN {
        check!(*p.add(n) != 0, "harness: the length of a C string");
        n += 1;
    }
    check!(*p.add(n) == 0, "harness: the length of a C string");
    n
}
fn same_if_equal<T: PartialEq>(a: &T, b: &T)
where
    DefaultHash<T>: Hash<T>,
{
    check!(!<EqualTo<T> as Equals<T>>::equals(a, b) || h(a) == h(b), "equal keys have different hashes");
}
/// The integer part of `m * 2^e`, when it is a size_t.
fn trunc(m: u64, e: i32) -> u64 {
    if e >= 0 {
        m << e
    } else if e > -64 {
        m >> -e
    } else {
        0
    }
}

const PATS: [&[u8]; 12] = [&[], &[1], &[2], &[3], &[4], &[1, 1], &[2, 1], &[1, 3], &[4, 2], &[1, 2, 3], &[4, 1, 1], &[3, 3, 4]];
/// Every form of one text.
fn forms<const N: usize>(t: &Txt<N>) {
    let want = fnv(&t.b[..t.n]);
    check!(h::<str>(t.str()) == want, "the hash of a str is FNV-1 over its bytes");
    check!(h::<&str>(&t.str()) == want, "the hash of a &str is that of the str");
    let x: String<Plain> = str_at(t, t.n + 2, true);
    check!(h(&x) == want, "the hash of a String is that of the str");
    let y: String<Plain> = str_at(t, t.n, t.n > 0);
    check!(h(&y) == want, "the hash of a String does not depend on its storage");
    let mut nul = false;
    let mut c = [0u8; N];
    let mut i = 0;
    while i < t.n {
        nul = nul || t.b[i] == 0;
        c[i] = t.b[i];
        i += 1;
    }
    c[t.n] = 0;
    unsafe { LEN = t.n };
    if !nul {
        check!(h::<*const c_char>(&(c.as_ptr() as *const c_char)) == want, "the hash of a C string is that of the str");
    }
}
fn c_string<const N: usize>(n: usize) {
    let mut b = [0u8; N];
    let mut i = 0;
    while i < n {
        b[i] = sym::u8();
        sym::assume(b[i] != 0);
        i += 1;
    }
    unsafe { LEN = n };
    check!(h::<*const c_char>(&(b.as_ptr() as *const c_char)) == fnv(&b[..n]), "the hash of a C string is FNV-1 over its bytes");
    // what follows the terminator, and where it is, do not matter
    let mut c = [0u8; N];
    let mut i = 0;
    while i < n {
        c[i] = b[i];
        i += 1;
    }
    c[N - 1] = if n < N - 1 { sym::u8() } else { 0 };
    check!(h::<*const c_char>(&(c.as_ptr() as *const c_char)) == fnv(&b[..n]), "equal C strings have different hashes");
}
fn ascii<const N: usize>(n: usize) {
    let mut b = [0u8; N];
    let mut i = 0;
    while i < n {
        b[i] = sym::u8();
        sym::assume(b[i] < 0x80);
        i += 1;
    }
    let s = unsafe { std::str::from_utf8_unchecked(&b[..n]) };
    check!(h::<str>(s) == fnv(&b[..n]), "the hash of a str is FNV-1 over its bytes");
}
fn map_of<K: PartialEq>(k: K, l: K)
where
    DefaultHash<K>: Hash<K>,
{
    // k and l are equal
    let v = sym::u32();
    let mut m: HashMap<K, u32, Plain> = HashMap::new();
    m.insert(k, v);
    check!(m.get(&l) == Some(&v) && m.contains_key(&l), "a key that is present is not found by its equal");
    std::mem::forget(m);
    std::mem::forget(l);
}

harnesses! {
    unsigned [2] {
        let (a, b, c, d, e) = (sym::u8(), sym::u16(), sym::u32(), sym::u64(), sym::usize());
        check!(h(&a) == a as usize && h(&b) == b as usize && h(&c) == c as usize && h(&d) == d as usize && h(&e) == e, "an unsigned integer hashes to its value");
        witness!("end");
    }
    signed [2] {
        let (a, b, c, d, e) = (sym::i8(), sym::i16(), sym::i32(), sym::i64(), sym::isize());
        // conversion to size_t: the value modulo 2^64
        check!(h(&a) == (a as i128).rem_euclid(1 << 64) as usize, "an i8 hashes to its conversion to size_t");
        check!(h(&b) == (b as i128).rem_euclid(1 << 64) as usize, "an i16 hashes to its conversion to size_t");
        check!(h(&c) == (c as i128).rem_euclid(1 << 64) as usize, "an i32 hashes to its conversion to size_t");
        check!(h(&d) == (d as i128).rem_euclid(1 << 64) as usize, "an i64 hashes to its conversion to size_t");
        check!(h(&e) == (e as i128).rem_euclid(1 << 64) as usize, "an isize hashes to its conversion to size_t");
        witness!("end");
    }
    boolean [2] {
        check!(h(&true) == 1 && h(&false) == 0, "a bool hashes to 1 or 0");
        let (a, b) = (sym::boolean(), sym::boolean());
        same_if_equal(&a, &b);
        witness!("end");
    }
    float32 [2] {
        let (a, b) = (sym::u32(), sym::u32());
        let x = f32::from_bits(a);
        same_if_equal(&x, &f32::from_bits(b));
        let e = (a >> 23 & 0xff) as i32;
        let m = (a & 0x7fffff | if e > 0 { 0x800000 } else { 0 }) as u64;
        // -1 < x < 2^64
        if e < 127 || a >> 31 == 0 && e < 127 + 64 {
            check!(h(&x) as u64 == trunc(m, if e > 0 { e - 150 } else { -149 }), "a float hashes to its truncated value");
        }
        witness!("end");
    }
    float64 [2] {
        let (a, b) = (sym::u64(), sym::u64());
        let x = f64::from_bits(a);
        same_if_equal(&x, &f64::from_bits(b));
        let e = (a >> 52 & 0x7ff) as i32;
        let m = a & 0xfffffffffffff | if e > 0 { 1 << 52 } else { 0 };
        if e < 1023 || a >> 63 == 0 && e < 1023 + 64 {
            check!(h(&x) as u64 == trunc(m, if e > 0 { e - 1075 } else { -1074 }), "a double hashes to its truncated value");
        }
        witness!("end");
    }
    equal_keys [2] {
        let (a, b) = (sym::u64(), sym::u64());
        same_if_equal(&(a as u8), &(b as u8));
        same_if_equal(&(a as i8), &(b as i8));
        same_if_equal(&(a as u16), &(b as u16));
        same_if_equal(&(a as i16), &(b as i16));
        same_if_equal(&(a as u32), &(b as u32));
        same_if_equal(&(a as i32), &(b as i32));
        same_if_equal(&a, &b);
        same_if_equal(&(a as i64), &(b as i64));
        same_if_equal(&(a as usize), &(b as usize));
        same_if_equal(&(a as isize), &(b as isize));
        witness!("end");
    }
    #[cfg_attr(kani, kani::stub(core::ffi::c_str::strlen, strlen))]
    #[cfg_attr(kani, kani::solver(z3))]
    texts [20] { split(12, |p| forms::<16>(&Txt::any(PATS[p as usize]))); }
    #[cfg_attr(kani, kani::solver(z3))]
    ascii8 [12] { split(9, |n| ascii::<9>(n as usize)); }
    #[cfg_attr(kani, kani::stub(core::ffi::c_str::strlen, strlen))]
    #[cfg_attr(kani, kani::solver(z3))]
    c_strings [12] { split(7, |n| c_string::<10>(n as usize)); }
    #[cfg_attr(kani, kani::solver(z3))]
    x_ascii24 [28] { split(25, |n| ascii::<25>(n as usize)); }
    #[cfg_attr(kani, kani::stub(core::ffi::c_str::strlen, strlen))]
    #[cfg_attr(kani, kani::solver(z3))]
    x_c_strings16 [22] { split(17, |n| c_string::<20>(n as usize)); }
    #[cfg_attr(kani, kani::stub(core::ffi::c_str::strlen, strlen))]
    #[cfg_attr(kani, kani::solver(z3))]
    x_texts4 [24] { split(5, |p| forms::<20>(&Txt::any([&[1, 2, 3, 4][..], &[4, 4, 4, 4], &[2, 2, 2, 2], &[1, 1, 1, 1], &[3, 1, 4, 2]][p as usize]))); }
    maps [16] {
        let (a, b) = (sym::u64(), sym::u8());
        split(9, |k| match k {
            0 => map_of(a as i8, a as i8),
            1 => map_of(a as i32, a as i32),
            2 => map_of(a as i64, a as i64),
            3 => map_of(a as u16, a as u16),
            4 => map_of(b & 1 == 1, b & 1 == 1),
            5 => map_of(a as isize, a as isize),
            6 => map_of(0.0f32, -0.0f32),
            7 => map_of(0.0f64, -0.0f64),
            _ => map_of(f32::from_bits(0x3fc00000), 1.5f32),
        });
    }
    map_str [16] {
        split(3, |p| {
            let t = Txt::<8>::any(PATS[p as usize]);
            let u = t;
            map_of(t.str(), u.str());
        });
    }
    map_string [16] {
        split(3, |p| {
            let t = Txt::<8>::any(PATS[p as usize]);
            map_of::<String<Plain>>(str_at(&t, t.n, t.n > 0), str_at(&t, 5, true));
        });
    }
    set_string [16] {
        split(3, |p| {
            let t = Txt::<8>::any(PATS[p as usize]);
            let x: String<Plain> = str_at(&t, t.n + 1, true);
            let mut s: HashSet<String<Plain>, Plain> = HashSet::new();
            check!(s.insert(x), "insertion of a new key");
            let y: String<Plain> = str_at(&t, t.n, t.n > 0);
            check!(!s.insert(y) && s.len() == 1, "an equal key is not new");
            std::mem::forget(s);
        });
    }
}
