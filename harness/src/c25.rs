//! {} and {:?} into a sink that keeps the text: Vector (0..=3 elements, capacities 0..=4), List and FixedList (0..=3), Deque
//! (0..=4, over a block boundary), Queue, FixedVector (0..=3 of 2 inline) show the elements in order and nothing else;
//! VectorMap, Map, HashMap, HashSet (0..=3 pairs) their pairs in the order of iteration. Elements and keys write
//! one symbolic byte of ASCII. String: texts of up to 3 chars in 8 patterns of widths 1 to 3 (every char of them; for {:?} those that are never escaped). For the maps `format!` writes
//! into a fixed buffer and the system allocator is replaced by typed cells (Kani only).
use crate::el::*;
use crate::env::split;
use crate::mstr::*;
use crate::mvec::*;
use crate::mvmap::VKey;
use crate::{mdeque, mhash, mlist, mvmap};
use crate::sym;
use eastl_rs::compare::Less;
use eastl_rs::fixed_list::FixedList;
use eastl_rs::fixed_vector::FixedVector;
use moveit::New;
use std::pin::Pin;
use std::fmt::{self, Write};
use std::mem::{ManuallyDrop, MaybeUninit};

const MAX: usize = 32;
/// Keeps what is written.
pub struct Sink {
    pub b: [u8; MAX],
    pub n: usize,
}
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let b = s.as_bytes();
        let mut i = 0;
        while i < b.len() {
            self.b[self.n] = b[i];
            self.n += 1;
            i += 1;
        }
        Ok(())
    }
}
/// An element that shows itself as a mark and one byte, any of ASCII.
#[derive(Clone, Copy, PartialEq)]
pub struct Sh(pub u8);
impl El for Sh {
    fn mk(v: u32) -> Sh {
        Sh(v as u8)
    }
    fn val(&self) -> u32 {
        self.0 as u32
    }
    const MASK: u32 = 0x7f;
}
impl fmt::Debug for Sh {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(unsafe { std::str::from_utf8_unchecked(&[b'#', self.0]) })
    }
}
/// The same in 40 bytes.
#[derive(Clone, Copy, PartialEq)]
pub struct Sh40(pub Sh, pub [u64; 4]);
impl El for Sh40 {
    fn mk(v: u32) -> Sh40 {
        Sh40(Sh(v as u8), [0; 4])
    }
    fn val(&self) -> u32 {
        self.0.val()
    }
    const MASK: u32 = 0x7f;
}
impl fmt::Debug for Sh40 {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}
pub fn shown(t: &dyn fmt::Debug) -> Sink {
    let mut s = Sink { b: [0; MAX], n: 0 };
    check!(write!(s, "{:?}", t).is_ok(), "formatting fails");
    s
}
/// The text shows exactly these elements, in this order.
pub fn shows<const N: usize>(s: &Sink, m: &Seq<N>) {
    let (mut i, mut k) = (0, 0);
    while i < s.n {
        if s.b[i] == b'#' {
            check!(k < m.n, "an element too many is shown");
            check!(i + 1 < s.n && s.b[i + 1] as u32 == m.a[k], "an element is shown in the wrong place");
            k += 1;
            i += 2;
        } else {
            check!(matches!(s.b[i], b' ' | b',' | b':' | b'(' | b')' | b'[' | b']' | b'{' | b'}'), "something that is no element is shown");
            i += 1;
        }
    }
    check!(k == m.n, "an element is not shown");
}
/// Text with nothing around it.
fn is_text<const N: usize>(s: &Sink, t: &Txt<N>, from: usize) {
    let mut i = 0;
    while i < t.n {
        check!(s.b[from + i] == t.b[i], "the text of a string is shown as it is");
        i += 1;
    }
}
fn text<const N: usize>(t: Txt<N>, cap: usize, storage: bool) {
    text_of(t, cap, storage, true)
}
fn text_of<const N: usize>(t: Txt<N>, cap: usize, storage: bool, quoted: bool) {
    let s = ManuallyDrop::new(str_at::<Plain, N>(&t, cap, storage));
    let mut o = Sink { b: [0; MAX], n: 0 };
    check!(write!(o, "{}", *s).is_ok(), "formatting fails");
    check!(o.n == t.n, "the length of a displayed string is that of its text");
    is_text(&o, &t, 0);
    if !quoted {
        return;
    }
    // {:?} may escape: only what needs none
    let mut i = 0;
    while i < t.chars {
        sym::assume(t.c[i] >= 0x20 && t.c[i] <= 0x7e && t.c[i] != 0x22 && t.c[i] != 0x27 && t.c[i] != 0x5c || t.c[i] >= 0xc0 && t.c[i] < 0x180 || t.c[i] >= 0x4e00 && t.c[i] < 0x9000);
        i += 1;
    }
    let o = shown(&*s);
    check!(o.n == t.n + 2 && o.b[0] == b'"' && o.b[o.n - 1] == b'"', "a string is shown in quotes");
    is_text(&o, &t, 1);
}
pub fn pairs<const N: usize>(k: &[u32], v: &[u32], n: usize) -> Seq<N> {
    let mut m = Seq::<N>::new();
    let mut i = 0;
    while i < n {
        m.push(!k[i] & 0x7f);
        m.push(v[i]);
        i += 1;
    }
    m
}
fn vmap(n: usize) {
    let s = Seq::<4>::fill_of::<Sh>(n);
    let m = ManuallyDrop::new(mvmap::vmap_at::<VKey, Sh, Plain, Less<VKey>, 4>(&s, n));
    let mut e = Seq::<8>::new();
    for (k, v) in m.iter() {
        e.push(!k.r & 0x7f);
        e.push(v.0 as u32);
    }
    check!(e.n == 2 * n, "iteration");
    shows(&shown(&*m), &e);
}
fn hash(hs: &[usize]) {
    let p = mhash::Pairs::<4>::fill::<Sh>(hs);
    let m = ManuallyDrop::new(mhash::map_at::<mhash::HKey, Sh, Plain, 4>(&p, 2, 9));
    let mut e = Seq::<8>::new();
    for (k, v) in m.iter() {
        e.push(k.id & 0x7f);
        e.push(v.0 as u32);
    }
    check!(e.n == 2 * p.n, "iteration");
    shows(&shown(&*m), &e);
}
fn hset(hs: &[usize]) {
    let p = mhash::Pairs::<4>::fill::<()>(hs);
    let m = ManuallyDrop::new(mhash::set_at::<mhash::HKey, Plain, 4>(&p, 2, 9));
    let mut e = Seq::<4>::new();
    for k in m.iter() {
        e.push(k.id & 0x7f);
    }
    check!(e.n == p.n, "iteration");
    shows(&shown(&*m), &e);
}
const HS: [&[usize]; 6] = [&[], &[1], &[0, 1], &[2, 4], &[1, 0, 3], &[0, 2, 4]];

/// The system allocator as typed cells: text in bytes, everything else (nodes, tables) in words.
macro_rules! cells { ($f:ident $t:ty: $($n:ident $i:literal),*) => {
    $( static mut $n: [$t; 32] = [0; 32]; )*
    unsafe fn $f(i: usize) -> *mut u8 {
        match i { $( $i => std::ptr::addr_of_mut!($n) as *mut u8, )* _ => { check!(false, "harness: no cell is left"); std::ptr::null_mut() } }
    }
} }
macro_rules! make_heap { ($m:ident $($n:ident $i:literal),*) => { pub mod $m {
    use std::alloc::Layout;
    use std::ptr::NonNull;
    const B: usize = 32;
    cells!(word usize: $($n $i),*);
    cells!(byte u8: B0 0, B1 1, B2 2, B3 3, B4 4, B5 5, B6 6, B7 7);
    static mut NW: usize = 0;
    static mut NB: usize = 0;
    pub unsafe fn alloc(l: Layout) -> *mut u8 {
        if l.align() == 1 {
            check!(l.size() <= 32, "harness: a text fits its cell");
            NB += 1;
            byte(NB - 1)
        } else {
            check!(l.size() <= 8 * 32, "harness: words fit their cell");
            NW += 1;
            word(NW - 1)
        }
    }
    pub fn format(a: std::fmt::Arguments<'_>) -> String {
        let mut s = super::Sink { b: [0; super::MAX], n: 0 };
        let _ = std::fmt::Write::write_fmt(&mut s, a);
        let mut r = String::with_capacity(B);
        unsafe {
            std::ptr::copy_nonoverlapping(s.b.as_ptr(), r.as_mut_ptr(), s.n);
            r.as_mut_vec().set_len(s.n);
        }
        r
    }
    pub unsafe fn dealloc(_p: NonNull<u8>, _l: Layout) {}
    pub unsafe fn realloc(p: NonNull<u8>, l: Layout, _n: usize) -> *mut u8 {
        check!(_n <= if l.align() == 1 { B } else { 8 * 32 }, "harness: what grows fits its cell");
        p.as_ptr()
    }
} } }
make_heap!(heap2 W0 0, W1 1);
make_heap!(heap3 W0 0, W1 1, W2 2);
make_heap!(heap W0 0, W1 1, W2 2, W3 3);
make_heap!(heap5 W0 0, W1 1, W2 2, W3 3, W4 4);

harnesses! {
    vector [34] {
        split(8, |s| {
            let (n, cap) = [(0, 0), (0, 2), (1, 1), (1, 3), (2, 2), (2, 3), (3, 3), (3, 4)][s as usize];
            let m = Seq::<4>::fill_of::<Sh>(n);
            let v = ManuallyDrop::new(vec_at::<Sh, Plain, 4>(&m, cap));
            shows(&shown(&*v), &m);
        });
    }
    list [34] {
        split(4, |n| {
            let m = Seq::<4>::fill_of::<Sh>(n as usize);
            let mut slot = MaybeUninit::uninit();
            let l = mlist::list_at::<Sh, Plain, 4>(&mut slot, &m);
            shows(&shown(&*l), &m);
        });
    }
    deque [34] {
        split(6, |s| {
            let (n, off) = [(0, 0), (1, 3), (3, 0), (3, 2), (2, 3), (4, 3)][s as usize];
            let m = Seq::<4>::fill_of::<Sh40>(n);
            let d = ManuallyDrop::new(mdeque::deque_at::<Sh40, Plain, 4>(&m, mdeque::At { table: 4, first: 1, off, n }));
            shows(&shown(&*d), &m);
        });
    }
    queue [34] {
        split(3, |n| {
            let m = Seq::<4>::fill_of::<Sh>(n as usize);
            let mut q = ManuallyDrop::new(eastl_rs::queue::Queue::<Sh, Plain>::default());
            let mut i = 0;
            while i < n as usize {
                q.push(Sh(m.a[i] as u8));
                i += 1;
            }
            shows(&shown(&*q), &m);
        });
    }
    fixed_vector [34] {
        split(4, |n| {
            let m = Seq::<4>::fill_of::<Sh>(n as usize);
            let mut slot = MaybeUninit::<FixedVector<Sh, 2, Plain>>::uninit();
            unsafe {
                New::new(FixedVector::<Sh, 2, Plain>::new(), Pin::new_unchecked(&mut slot));
                let v = slot.assume_init_mut();
                let mut i = 0;
                while i < n as usize {
                    v.push(Sh(m.a[i] as u8));
                    i += 1;
                }
                shows(&shown(&*v), &m);
            }
        });
    }
    fixed_list [34] {
        split(4, |n| {
            let m = Seq::<4>::fill_of::<Sh>(n as usize);
            let mut slot = MaybeUninit::<FixedList<Sh, 2, Plain>>::uninit();
            unsafe {
                New::new(FixedList::<Sh, 2, Plain>::new_in(Plain::default()), Pin::new_unchecked(&mut slot));
                let v = slot.assume_init_mut();
                let mut i = 0;
                while i < n as usize {
                    v.push_back(Sh(m.a[i] as u8));
                    i += 1;
                }
                shows(&shown(&*v), &m);
            }
        });
    }
    #[cfg_attr(kani, kani::stub(std::alloc::alloc, heap2::alloc))]
    #[cfg_attr(kani, kani::stub(alloc::alloc::dealloc_nonnull, heap2::dealloc))]
    #[cfg_attr(kani, kani::stub(alloc::alloc::realloc_nonnull, heap2::realloc))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, heap2::format))]
    vector_map1 [34] { split(2, |n| vmap(n as usize)); }
    #[cfg_attr(kani, kani::stub(std::alloc::alloc, heap2::alloc))]
    #[cfg_attr(kani, kani::stub(alloc::alloc::dealloc_nonnull, heap2::dealloc))]
    #[cfg_attr(kani, kani::stub(alloc::alloc::realloc_nonnull, heap2::realloc))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, heap2::format))]
    vector_map2 [34] { vmap(2); witness!("end"); }
    #[cfg_attr(kani, kani::stub(std::alloc::alloc, heap2::alloc))]
    #[cfg_attr(kani, kani::stub(alloc::alloc::dealloc_nonnull, heap2::dealloc))]
    #[cfg_attr(kani, kani::stub(alloc::alloc::realloc_nonnull, heap2::realloc))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, heap2::format))]
    vector_map3 [34] { vmap(3); witness!("end"); }
    #[cfg_attr(kani, kani::stub(std::alloc::alloc, heap3::alloc))]
    #[cfg_attr(kani, kani::stub(alloc::alloc::dealloc_nonnull, heap3::dealloc))]
    #[cfg_attr(kani, kani::stub(alloc::alloc::realloc_nonnull, heap3::realloc))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, heap3::format))]
    hash_map1 [34] { split(2, |i| hash(HS[i as usize])); }
    #[cfg_attr(kani, kani::stub(std::alloc::alloc, heap::alloc))]
    #[cfg_attr(kani, kani::stub(alloc::alloc::dealloc_nonnull, heap::dealloc))]
    #[cfg_attr(kani, kani::stub(alloc::alloc::realloc_nonnull, heap::realloc))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, heap::format))]
    hash_map2a [34] { hash(HS[2]); witness!("end"); }
    #[cfg_attr(kani, kani::stub(std::alloc::alloc, heap::alloc))]
    #[cfg_attr(kani, kani::stub(alloc::alloc::dealloc_nonnull, heap::dealloc))]
    #[cfg_attr(kani, kani::stub(alloc::alloc::realloc_nonnull, heap::realloc))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, heap::format))]
    hash_map2b [34] { hash(HS[3]); witness!("end"); }
    #[cfg_attr(kani, kani::stub(std::alloc::alloc, heap5::alloc))]
    #[cfg_attr(kani, kani::stub(alloc::alloc::dealloc_nonnull, heap5::dealloc))]
    #[cfg_attr(kani, kani::stub(alloc::alloc::realloc_nonnull, heap5::realloc))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, heap5::format))]
    hash_map3a [34] { hash(HS[4]); witness!("end"); }
    #[cfg_attr(kani, kani::stub(std::alloc::alloc, heap5::alloc))]
    #[cfg_attr(kani, kani::stub(alloc::alloc::dealloc_nonnull, heap5::dealloc))]
    #[cfg_attr(kani, kani::stub(alloc::alloc::realloc_nonnull, heap5::realloc))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, heap5::format))]
    hash_map3b [34] { hash(HS[5]); witness!("end"); }
    #[cfg_attr(kani, kani::stub(std::alloc::alloc, heap3::alloc))]
    #[cfg_attr(kani, kani::stub(alloc::alloc::dealloc_nonnull, heap3::dealloc))]
    #[cfg_attr(kani, kani::stub(alloc::alloc::realloc_nonnull, heap3::realloc))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, heap3::format))]
    hash_set1 [34] { split(2, |i| hset(HS[i as usize])); }
    #[cfg_attr(kani, kani::stub(std::alloc::alloc, heap::alloc))]
    #[cfg_attr(kani, kani::stub(alloc::alloc::dealloc_nonnull, heap::dealloc))]
    #[cfg_attr(kani, kani::stub(alloc::alloc::realloc_nonnull, heap::realloc))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, heap::format))]
    hash_set2a [34] { hset(HS[2]); witness!("end"); }
    #[cfg_attr(kani, kani::stub(std::alloc::alloc, heap::alloc))]
    #[cfg_attr(kani, kani::stub(alloc::alloc::dealloc_nonnull, heap::dealloc))]
    #[cfg_attr(kani, kani::stub(alloc::alloc::realloc_nonnull, heap::realloc))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, heap::format))]
    hash_set2b [34] { hset(HS[3]); witness!("end"); }
    #[cfg_attr(kani, kani::stub(std::alloc::alloc, heap5::alloc))]
    #[cfg_attr(kani, kani::stub(alloc::alloc::dealloc_nonnull, heap5::dealloc))]
    #[cfg_attr(kani, kani::stub(alloc::alloc::realloc_nonnull, heap5::realloc))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, heap5::format))]
    hash_set3a [34] { hset(HS[4]); witness!("end"); }
    #[cfg_attr(kani, kani::stub(std::alloc::alloc, heap5::alloc))]
    #[cfg_attr(kani, kani::stub(alloc::alloc::dealloc_nonnull, heap5::dealloc))]
    #[cfg_attr(kani, kani::stub(alloc::alloc::realloc_nonnull, heap5::realloc))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, heap5::format))]
    hash_set3b [34] { hset(HS[5]); witness!("end"); }
    string [34] {
        split(8, |s| match s {
            0 => text(Txt::<12>::any(&[]), 0, false),
            1 => text(Txt::<12>::any(&[]), 2, true),
            2 => text(Txt::<12>::any(&[1]), 1, true),
            3 => text(Txt::<12>::any(&[2]), 2, true),
            4 => text(Txt::<12>::any(&[3, 1]), 6, true),
            5 => text(Txt::<12>::any(&[1, 1, 1]), 3, true),
            6 => text(Txt::<12>::any(&[1, 2, 3]), 6, true),
            _ => text(Txt::<12>::any(&[2, 1]), 4, true),
        });
    }
    // concrete texts: white space at either end, NUL, a byte order mark, a combining mark
    string_edges [34] {
        split(9, |s| {
            let (cs, quoted): (&[u32], bool) = [
                (&[0x61, 0x20][..], true), (&[0x20, 0x61], true), (&[0x20], true), (&[0x61, 0x20, 0x20], true),
                (&[0x61, 0], false), (&[0], false), (&[0x61, 0x0a], false), (&[0xfeff, 0x61], false), (&[0x22, 0x61, 0x5c], false),
            ][s as usize];
            let mut t = Txt::<12>::new();
            let mut i = 0;
            while i < cs.len() {
                t.push(cs[i], if cs[i] < 0x80 { 1 } else { 3 });
                i += 1;
            }
            let n = t.n;
            text_of(t, n, true, quoted);
        });
    }
}
