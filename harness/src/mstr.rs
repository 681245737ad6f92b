//! A step of a string from an arbitrary state.
use crate::el::*;
use crate::mvec::RawVec;
use crate::sym;
use eastl_rs::string::String;

/// The ideal text: bytes, and where chars start.
#[derive(Clone, Copy)]
pub struct Txt<const N: usize> {
    pub b: [u8; N],
    pub n: usize,
    pub at: [usize; 8],
    pub c: [u32; 8],
    pub chars: usize,
}
/// Any char of `w` bytes.
pub fn ch(w: u8) -> u32 {
    let x = sym::u32();
    sym::assume(match w {
        1 => x < 0x80,
        2 => x >= 0x80 && x < 0x800,
        3 => x >= 0x800 && x < 0xd800 || x >= 0xe000 && x < 0x10000,
        _ => x >= 0x10000 && x < 0x110000,
    });
    x
}
pub fn width(x: u32) -> u8 {
    if x < 0x80 {
        1
    } else if x < 0x800 {
        2
    } else if x < 0x10000 {
        3
    } else {
        4
    }
}
/// The bytes of a char of `w` bytes.
pub fn enc(x: u32, w: u8) -> [u8; 4] {
    let t = |s: u32| 0x80 | (x >> s & 0x3f) as u8;
    match w {
        1 => [x as u8, 0, 0, 0],
        2 => [0xc0 | (x >> 6) as u8, t(0), 0, 0],
        3 => [0xe0 | (x >> 12) as u8, t(6), t(0), 0],
        _ => [0xf0 | (x >> 18) as u8, t(12), t(6), t(0)],
    }
}
impl<const N: usize> Txt<N> {
    pub fn new() -> Self {
        Txt { b: [0; N], n: 0, at: [0; 8], c: [0; 8], chars: 0 }
    }
    /// Any text with chars of these widths.
    pub fn any(ws: &[u8]) -> Self {
        let mut t = Self::new();
        let mut i = 0;
        while i < ws.len() {
            t.push(ch(ws[i]), ws[i]);
            i += 1;
        }
        t
    }
    pub fn push(&mut self, x: u32, w: u8) {
        let e = enc(x, w);
        let mut j = 0;
        while j < w as usize {
            self.b[self.n + j] = e[j];
            j += 1;
        }
        self.at[self.chars] = self.n;
        self.c[self.chars] = x;
        self.chars += 1;
        self.n += w as usize;
    }
    fn end(&self, i: usize) -> usize {
        if i + 1 < self.chars {
            self.at[i + 1]
        } else {
            self.n
        }
    }
    /// A char put before the `i`-th, or the `i`-th removed: rebuilt from the chars.
    pub fn insert(&mut self, i: usize, x: u32, w: u8) {
        let old = *self;
        *self = Self::new();
        let mut j = 0;
        while j <= old.chars {
            if j == i {
                self.push(x, w);
            }
            if j < old.chars {
                self.push(old.c[j], (old.end(j) - old.at[j]) as u8);
            }
            j += 1;
        }
    }
    pub fn remove(&mut self, i: usize) -> u32 {
        let old = *self;
        *self = Self::new();
        let mut j = 0;
        while j < old.chars {
            if j != i {
                self.push(old.c[j], (old.end(j) - old.at[j]) as u8);
            }
            j += 1;
        }
        old.c[i]
    }
    pub fn str(&self) -> &str {
        unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(self.b.as_ptr(), self.n)) }
    }
}
/// A string with room for `cap` bytes and the terminator, or without storage.
pub fn str_at<A: Al, const N: usize>(t: &Txt<N>, cap: usize, storage: bool) -> String<A> {
    let cap = if storage { cap } else { 0 };
    let mut alloc = A::default();
    unsafe {
        let begin: *mut u8 = if !storage { std::ptr::null_mut() } else { alloc.allocate_raw_aligned(cap + 1, 1) as *mut u8 };
        let mut i = 0;
        while i < t.n {
            begin.add(i).write(t.b[i]);
            i += 1;
        }
        if storage {
            begin.add(t.n).write(0);
            begin.add(cap).write(0);
        }
        let r = std::mem::ManuallyDrop::new(RawVec { begin, end: begin.add(t.n), cap: begin.add(cap), alloc });
        check!(std::mem::size_of::<String<A>>() == std::mem::size_of::<RawVec<u8, A>>(), "the string has the size of the C++ string");
        std::ptr::read(&*r as *const RawVec<u8, A> as *const String<A>)
    }
}
/// Text and terminator agree with the ideal ones. `text`: which of the two is looked at.
pub fn same_str<A: Al, const N: usize>(s: &String<A>, t: &Txt<N>, text: bool) {
    let r = unsafe { &*(s as *const String<A> as *const RawVec<u8, A>) };
    if text {
        check!(s.len() == t.n, "length");
        check!(s.is_empty() == (t.n == 0), "emptiness");
        check!(s.capacity() >= t.n && s.is_full() == (s.capacity() == t.n), "capacity");
        let b = s.as_bytes();
        check!(b.len() == t.n, "length of the bytes");
        let mut i = 0;
        while i < t.n {
            check!(b[i] == t.b[i], "text");
            i += 1;
        }
        check!(s.as_str().len() == t.n, "length of the text");
    } else {
        let cap = r.cap as usize - r.begin as usize;
        let len = r.end as usize - r.begin as usize;
        check!(len == t.n && len <= cap, "the text lies inside the block");
        if r.begin.is_null() {
            check!(len == 0 && cap == 0, "a string without storage is empty");
        } else {
            check!(unsafe { *r.begin.add(len) } == 0, "a string with storage is terminated");
            let mut i = 0;
            while i < t.n {
                check!(unsafe { *r.begin.add(i) } == t.b[i], "C++ reads the text");
                i += 1;
            }
        }
    }
}
/// The one block of a string is `capacity` bytes and the terminator.
pub fn block<A: Al>(s: &String<A>) {
    if A::BOOKS {
        let r = unsafe { &*(s as *const String<A> as *const RawVec<u8, A>) };
        unsafe {
            use crate::env::BOOKS;
            if r.begin.is_null() {
                check!(BOOKS.blocks == 0, "a string without storage has a block");
            } else {
                check!(BOOKS.blocks == 1, "a string has one block");
                check!(BOOKS.bytes == r.cap as usize - r.begin as usize + 1, "the block has room for the terminator behind the capacity");
            }
        }
    }
}
pub const PUSH: u8 = 0;
pub const POP: u8 = 1;
pub const INSERT: u8 = 2;
pub const REMOVE: u8 = 3;
pub const RESERVE: u8 = 4;
pub const CLONE: u8 = 5;
/// Edges of the char widths, taken when `x` is not any char.
pub const EDGE: [u32; 10] = [0x41, 0x7f, 0x80, 0x7ff, 0x800, 0xffff, 0x10000, 0x10ffff, 0xd7ff, 0];

/// One operation from the text `t`; `k` is an index or a size, `x` a char.
pub fn step<A: Al, const N: usize>(mut t: Txt<N>, cap: usize, storage: bool, op: u8, k: usize, x: u32, w: u8, text: bool) {
    A::reset();
    let mut s: String<A> = str_at(&t, cap, storage);
    match op {
        PUSH => {
            let c = t.chars;
            t.insert(c, x, w);
            s.push(unsafe { char::from_u32_unchecked(x) });
        }
        POP => {
            let r = s.pop();
            let want = if t.chars == 0 {
                None
            } else {
                let c = t.chars - 1;
                Some(t.remove(c))
            };
            if text {
                check!(r.map(|c| c as u32) == want, "pop returns the last char");
            }
        }
        INSERT => {
            let i = if k < t.chars { t.at[k] } else { t.n };
            t.insert(k, x, w);
            s.insert(i, unsafe { char::from_u32_unchecked(x) });
        }
        REMOVE => {
            // k is a byte index
            let r = s.remove(k);
            let mut want = None;
            let mut i = 0;
            while i < t.chars {
                if t.at[i] == k {
                    want = Some(t.remove(i));
                    break;
                }
                i += 1;
            }
            if text {
                check!(r.map(|c| c as u32) == want, "remove returns the char that starts at the index, or None");
            }
        }
        RESERVE => {
            s.reserve(k);
            check!(s.capacity() >= k + if storage { cap } else { 0 }, "reserve makes the room asked for");
        }
        _ => {
            let c = s.clone();
            same_str(&c, &t, text);
            if text {
                check!(c == s && s == c, "a clone is equal");
            }
            check!(!storage || c.as_bytes().as_ptr() != s.as_bytes().as_ptr() || t.n == 0, "a clone has storage of its own");
            drop(c);
        }
    }
    same_str(&s, &t, text);
    block(&s);
    drop(s);
    A::finish();
}
/// Assignment of any text to any text.
pub fn step_assign<A: Al, const N: usize>(t: Txt<N>, cap: usize, storage: bool, u: Txt<N>, text: bool) {
    A::reset();
    let mut s: String<A> = str_at(&t, cap, storage);
    s.assign(u.str());
    same_str(&s, &u, text);
    block(&s);
    drop(s);
    A::finish();
}
use crate::env::{outer, split};
/// Texts by the widths of their chars.
pub const WS: [&[u8]; 14] = [&[], &[1], &[2], &[3], &[4], &[1, 1], &[1, 2], &[2, 1], &[3, 1], &[1, 4], &[4, 4], &[2, 3], &[1, 2, 3], &[4, 1, 2]];
pub type T = Txt<20>;
fn nbytes(ws: &[u8]) -> usize {
    let mut n = 0;
    let mut i = 0;
    while i < ws.len() {
        n += ws[i] as usize;
        i += 1;
    }
    n
}
/// `o`: push, or insertion at every char. Chars at the edges of the widths; room for none or some of the bytes.
pub fn edges<A: Al>(states: &[usize], es: &[usize], o: u8, text: bool) {
    outer(states.len() as u8, |s| {
        let ws = WS[states[s as usize]];
        let n = nbytes(ws);
        let at = if o == INSERT { ws.len() as u8 + 1 } else { 1 };
        outer(es.len() as u8, |e| {
            split(at, |k| {
                let x = EDGE[es[e as usize]];
                step::<A, 20>(T::any(ws), n + (e as usize + k as usize) % 3, n > 0 || e & 1 == 1, o, k as usize, x, width(x), text)
            })
        })
    });
}
/// The same with any char of width `w`.
pub fn any_char<A: Al>(states: &[usize], w: u8, o: u8, text: bool) {
    outer(states.len() as u8, |s| {
        let ws = WS[states[s as usize]];
        let n = nbytes(ws);
        let at = if o == INSERT { ws.len() as u8 + 1 } else { 1 };
        split(at, |k| step::<A, 20>(T::any(ws), n + (s as usize + k as usize) % 5, true, o, k as usize, ch(w), w, text))
    });
}
pub fn pops<A: Al>(lo: usize, hi: usize, text: bool) {
    split((hi - lo) as u8, |s| {
        let ws = WS[lo + s as usize];
        let n = nbytes(ws);
        step::<A, 20>(T::any(ws), n + s as usize % 2, n > 0 || s & 1 == 1, POP, 0, 0, 1, text)
    });
}
/// At every byte index, in a char or not, and beyond the end.
pub fn removes<A: Al>(lo: usize, hi: usize, text: bool) {
    outer((hi - lo) as u8, |s| {
        let ws = WS[lo + s as usize];
        let n = nbytes(ws);
        split(n as u8 + 3, |k| {
            let k = if k as usize == n + 2 { !0 } else { k as usize };
            step::<A, 20>(T::any(ws), n + s as usize % 2, n > 0, REMOVE, k, 0, 1, text)
        })
    });
}
pub fn others<A: Al>(lo: usize, hi: usize, o: u8, text: bool) {
    outer((hi - lo) as u8, |s| {
        let ws = WS[lo + s as usize];
        let n = nbytes(ws);
        split(3, |c| step::<A, 20>(T::any(ws), n + c as usize, n > 0 || c > 0, o, c as usize * 2, 0, 1, text))
    });
}
pub fn assigns<A: Al>(states: &[usize], by: &[usize], text: bool) {
    outer(states.len() as u8, |s| {
        let ws = WS[states[s as usize]];
        let n = nbytes(ws);
        split(by.len() as u8, |u| step_assign::<A, 20>(T::any(ws), n + u as usize % 2, n > 0 || u & 1 == 1, T::any(WS[by[u as usize]]), text))
    });
}
/// Ways a string comes into being.
pub fn fresh<A: Al>(text: bool) {
    outer(8, |how| {
        split(3, |u| {
            A::reset();
            let t = T::any(WS[[0, 2, 8][u as usize]]);
            let mut want = T::new();
            let mut s: String<A> = match how {
                0 => String::new(),
                1 => String::default(),
                2 => String::new_in(A::default()),
                3 => String::with_capacity(u as usize),
                4 => {
                    want = t;
                    String::from(t.str())
                }
                5 => {
                    want = t;
                    String::from_in(t.str(), A::default())
                }
                6 => {
                    want = t;
                    t.str().parse::<String<A>>().unwrap()
                }
                _ => {
                    want = t;
                    String::from(t.str()).clone()
                }
            };
            same_str(&s, &want, text);
            check!(how != 3 || s.capacity() >= u as usize, "with_capacity makes the room asked for");
            block(&s);
            // and goes on
            s.push('\u{e9}');
            want.push(0xe9, 2);
            same_str(&s, &want, text);
            block(&s);
            drop(s);
            A::finish();
        })
    });
}
