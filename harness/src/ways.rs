//! The provided methods of iterators, which a type may override: all must agree with `next` and `next_back`.
use crate::el::Seq;

fn at<const N: usize>(m: &Seq<N>, i: usize) -> Option<u32> {
    if i < m.n {
        Some(m.a[i])
    } else {
        None
    }
}
/// An iterator that promises nothing about how much it yields.
pub struct NoHint<I>(pub I);
impl<I: Iterator> Iterator for NoHint<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.0.next()
    }
}
pub const WAYS: u8 = 5;
pub const BACK: u8 = 3;
/// `it` must be about to yield `m`; `see` turns what it yields into a value.
pub fn ways<I: Iterator, const N: usize>(way: u8, k: usize, mut it: I, m: &Seq<N>, see: impl Fn(I::Item) -> u32) {
    match way {
        0 => {
            let e = it.nth(k).map(&see);
            check!(e == at(m, k), "nth yields the element so many ahead");
            let h = it.size_hint();
            let left = m.n.saturating_sub(k + 1);
            check!(h.0 <= left && h.1.map_or(true, |u| u >= left), "the hint behind nth");
            let e = it.next().map(&see);
            check!(e == at(m, k + 1), "nth goes on behind its element");
        }
        1 => {
            // some are gone already
            let mut i = 0;
            while i < k {
                it.next().map(&see);
                i += 1;
            }
            check!(it.count() == m.n.saturating_sub(k), "count counts what is left");
        }
        2 => {
            let mut i = 0;
            while i < k {
                it.next().map(&see);
                i += 1;
            }
            let e = it.last().map(&see);
            check!(e == if k < m.n { at(m, m.n - 1) } else { None }, "last yields the last element");
        }
        3 => {
            let mut i = 0;
            while i < k {
                it.next().map(&see);
                i += 1;
            }
            let n = it.fold(k.min(m.n), |i, e| {
                check!(at(m, i) == Some(see(e)), "fold takes each element in order");
                i + 1
            });
            check!(n == m.n, "fold takes every element");
        }
        _ => {
            // all visits up to the one that says stop, and no further
            let mut i = 0;
            let hit = it.any(|e| {
                check!(at(m, i) == Some(see(e)), "any takes each element in order");
                i += 1;
                i == k + 1
            });
            check!(hit == (k < m.n), "any stops where it should");
            let e = it.next().map(&see);
            check!(e == at(m, k + 1), "any goes on behind the element it stopped at");
        }
    }
}
/// The same from the back.
pub fn back<I: DoubleEndedIterator, const N: usize>(way: u8, k: usize, mut it: I, m: &Seq<N>, see: impl Fn(I::Item) -> u32) {
    let last = |i: usize| if i < m.n { Some(m.a[m.n - 1 - i]) } else { None };
    match way {
        0 => {
            let e = it.nth_back(k).map(&see);
            check!(e == last(k), "nth_back yields the element so many from the end");
            let e = it.next().map(&see);
            check!(e == if k + 1 < m.n { at(m, 0) } else { None }, "the front is untouched by nth_back");
        }
        1 => {
            let n = it.rfold(0, |i, e| {
                check!(last(i) == Some(see(e)), "rfold takes each element from the end");
                i + 1
            });
            check!(n == m.n, "rfold takes every element");
        }
        _ => {
            // from both ends
            let a = it.next().map(&see);
            check!(a == at(m, 0), "the first element");
            let e = it.rev().nth(k).map(&see);
            check!(e == if k + 1 < m.n { last(k) } else { None }, "a reversed iterator skips from the end");
        }
    }
}
