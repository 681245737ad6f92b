//! Less, Greater and EqualTo: all pairs (order laws: all triples) of every integer type and bool; all pairs of f32
//! and f64, NaN, infinities and signed zeros included; pairs of user types whose order is partial, is not the order
//! of their bytes, or that answer differently to each operator; &str and pairs of integers. Vector maps of 2 symbolic
//! keys inserted under each comparator (3 keys in every order); trees of 0..=3 nodes in C++ memory looked up under each.
use crate::el::*;
use crate::env::split;
use crate::sym;
use eastl_rs::compare::{Compare, Greater, Less};
use eastl_rs::equals::{EqualTo, Equals};
use eastl_rs::vector_map::VectorMap;
use std::cmp::Ordering;

fn lt<T: PartialOrd>(a: &T, b: &T) -> bool {
    <Less<T> as Compare<T>>::compare(a, b)
}
fn gt<T: PartialOrd>(a: &T, b: &T) -> bool {
    <Greater<T> as Compare<T>>::compare(a, b)
}
fn eq<T: PartialEq>(a: &T, b: &T) -> bool {
    <EqualTo<T> as Equals<T>>::equals(a, b)
}
/// The meaning of the three, on one pair; `o` is how they compare, found by other means.
fn pair<T: PartialOrd>(a: &T, b: &T, o: Option<Ordering>) {
    check!(lt(a, b) == (o == Some(Ordering::Less)), "Less says left < right");
    check!(gt(a, b) == (o == Some(Ordering::Greater)), "Greater says left > right");
    check!(eq(a, b) == (o == Some(Ordering::Equal)), "EqualTo says left == right");
}
fn by(l: bool, g: bool) -> Option<Ordering> {
    Some(if l {
        Ordering::Less
    } else if g {
        Ordering::Greater
    } else {
        Ordering::Equal
    })
}
/// Strict total orders, each the reverse of the other.
fn laws<T: PartialOrd>(a: &T, b: &T, c: &T) {
    check!(!lt(a, a) && !gt(a, a) && eq(a, a), "nothing is less or greater than itself");
    check!(!(lt(a, b) && lt(b, a)) && !(gt(a, b) && gt(b, a)), "an order is asymmetric");
    check!(!(lt(a, b) && lt(b, c)) || lt(a, c), "Less is transitive");
    check!(!(gt(a, b) && gt(b, c)) || gt(a, c), "Greater is transitive");
    check!(lt(a, b) == gt(b, a), "Greater is the reverse of Less");
    check!((!lt(a, b) && !lt(b, a)) == eq(a, b), "neither is less exactly when they are equal");
    check!((!gt(a, b) && !gt(b, a)) == eq(a, b), "neither is greater exactly when they are equal");
    check!(eq(a, b) == eq(b, a) && (!(eq(a, b) && eq(b, c)) || eq(a, c)), "equality is an equivalence");
}
/// How two floats compare, from their bits.
fn bits(a: u64, b: u64, exp: u64, sign: u64) -> Option<Ordering> {
    let mag = sign - 1;
    let (ma, mb) = (a & mag, b & mag);
    if ma > exp || mb > exp {
        return None; // NaN
    }
    if ma == 0 && mb == 0 {
        return Some(Ordering::Equal);
    }
    let (na, nb) = (a & sign != 0, b & sign != 0);
    match (na, nb) {
        (true, false) => Some(Ordering::Less),
        (false, true) => Some(Ordering::Greater),
        (false, false) => by(ma < mb, ma > mb),
        (true, true) => by(ma > mb, ma < mb),
    }
}
/// Answers from a table: the functors must ask the right question of the right operands.
#[derive(Clone, Copy)]
struct Odd {
    id: u8,
    ans: u8,
}
impl PartialEq for Odd {
    fn eq(&self, o: &Odd) -> bool {
        check!(self.id == 0 && o.id == 1, "the operands are passed in order");
        self.ans & 1 == 1
    }
}
impl PartialOrd for Odd {
    fn partial_cmp(&self, o: &Odd) -> Option<Ordering> {
        check!(self.id == 0 && o.id == 1, "the operands are passed in order");
        match self.ans >> 1 {
            0 => None,
            1 => Some(Ordering::Less),
            2 => Some(Ordering::Equal),
            _ => Some(Ordering::Greater),
        }
    }
}
/// The contents of a map are those under the other comparator, reversed.
fn reversed<const N: usize>(ks: &[u32; N], vs: &[u32; N]) {
    let mut l: VectorMap<u32, u32, Plain, Less<u32>> = VectorMap::new();
    let mut g: VectorMap<u32, u32, Plain, Greater<u32>> = VectorMap::new();
    let mut i = 0;
    while i < N {
        l.insert(ks[i], vs[i]);
        g.insert(ks[i], vs[i]);
        i += 1;
    }
    let (a, b): (&[(u32, u32)], &[(u32, u32)]) = (l.as_ref(), g.as_ref());
    check!(a.len() == b.len(), "the same keys under either comparator");
    let n = a.len();
    i = 0;
    while i < n {
        check!(a[i].0 == b[n - 1 - i].0 && a[i].1 == b[n - 1 - i].1, "the order under Greater is that under Less, reversed");
        check!(i == 0 || a[i - 1].0 < a[i].0, "the order under Less is ascending");
        i += 1;
    }
    std::mem::forget(l);
    std::mem::forget(g);
}

macro_rules! ints { ($($f:ident)*) => { $( {
    let (a, b, c) = (sym::$f(), sym::$f(), sym::$f());
    let (x, y) = (a as i128, b as i128);
    pair(&a, &b, by(x - y < 0, x - y > 0));
    laws(&a, &b, &c);
} )* } }

harnesses! {
    unsigned [2] { ints!(u8 u16 u32 u64 usize); witness!("end"); }
    signed [2] { ints!(i8 i16 i32 i64 isize); witness!("end"); }
    boolean [10] {
        split(8, |i| {
            let (a, b, c) = (i & 1 == 1, i & 2 == 2, i & 4 == 4);
            pair(&a, &b, by(!a && b, a && !b));
            laws(&a, &b, &c);
        });
    }
    float32 [2] {
        let (a, b) = (sym::u32(), sym::u32());
        pair(&f32::from_bits(a), &f32::from_bits(b), bits(a as u64, b as u64, 0x7f80_0000, 1 << 31));
        witness!("end");
    }
    float64 [2] {
        let (a, b) = (sym::u64(), sym::u64());
        pair(&f64::from_bits(a), &f64::from_bits(b), bits(a, b, 0x7ff << 52, 1 << 63));
        witness!("end");
    }
    pairs [2] {
        let (a, b, c) = ((sym::u32(), sym::i16()), (sym::u32(), sym::i16()), (sym::u32(), sym::i16()));
        pair(&a, &b, by(a.0 < b.0 || a.0 == b.0 && a.1 < b.1, b.0 < a.0 || a.0 == b.0 && b.1 < a.1));
        laws(&a, &b, &c);
        witness!("end");
    }
    strs [12] {
        split(9, |k| {
            let (x, y) = ([sym::u8() & 0x7f, sym::u8() & 0x7f], [sym::u8() & 0x7f, sym::u8() & 0x7f]);
            let (n, m) = (k as usize / 3, k as usize % 3);
            let (a, b) = unsafe { (std::str::from_utf8_unchecked(&x[..n]), std::str::from_utf8_unchecked(&y[..m])) };
            // lexicographic, a prefix before what it is a prefix of
            let at = |s: &[u8; 2], n: usize, i: usize| if i < n { s[i] as u32 + 1 } else { 0 };
            let (p, q) = (at(&x, n, 0) << 8 | at(&x, n, 1), at(&y, m, 0) << 8 | at(&y, m, 1));
            pair(&a, &b, by(p < q, p > q));
        });
    }
    partial [2] {
        let (a, b) = (Odd { id: 0, ans: sym::u8() & 7 }, Odd { id: 1, ans: 0 });
        check!(lt(&a, &b) == (a.ans >> 1 == 1), "Less says left < right");
        check!(gt(&a, &b) == (a.ans >> 1 == 3), "Greater says left > right");
        check!(eq(&a, &b) == (a.ans & 1 == 1), "EqualTo says left == right");
        witness!("end");
    }
    made [2] {
        // one byte each, as the empty classes of C++
        check!(std::mem::size_of::<Less<u64>>() == 1 && std::mem::size_of::<Greater<u64>>() == 1, "a comparator takes one byte");
        let (_l, _k, _g) = (Less::<u32>::new(), Less::<u32>::default(), Greater::<u32>::default());
        witness!("end");
    }
    vmap2 [8] {
        let (k, v) = ([sym::u32(), sym::u32()], [sym::u32(), sym::u32()]);
        reversed(&k, &v);
        witness!("end");
    }
    vmap3 [8] {
        split(6, |o| {
            let p = [[1, 4, 9], [1, 9, 4], [4, 1, 9], [4, 9, 1], [9, 1, 4], [9, 4, 1]][o as usize];
            reversed(&p, &[sym::u32(), sym::u32(), sym::u32()]);
        });
    }
    x_vmap3 [8] {
        let (k, v) = ([sym::u32(), sym::u32(), sym::u32()], [sym::u32(), sym::u32(), sym::u32()]);
        reversed(&k, &v);
        witness!("end");
    }
    tree_less [8] { split(5, |s| crate::mtree::step::<u32, u32, Plain, Less<u32>, 6>(3, s, crate::mtree::LOOKUP)); }
    tree_greater [8] { split(5, |s| crate::mtree::step::<u32, u32, Plain, Greater<u32>, 6>(3, s, crate::mtree::LOOKUP)); }
}
