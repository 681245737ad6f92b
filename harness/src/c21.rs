//! The conformant FixedList (feature nightly). Placement: lists of 1, 2 and 3 inline nodes of u32, u64, u128, 40-byte,
//! 32- and 64-byte aligned elements, at every one of 16 placements in steps of the list's own alignment: all inline
//! nodes filled, then one more. Behaviour: 2 inline nodes, every one of 15 states of the pool (which nodes hold
//! elements, which were returned, 0..=2 elements in overflow blocks on either side of the pool), one operation each
//! (two thorough); u32, 40-byte and tracked elements; values symbolic.
use crate::c14::{arena, out, ANode, Arena, At2, RawPool, RawPooled, AB, ARENA, STATES};
use crate::el::*;
use crate::env::*;
use crate::mlist::{self, RawLink, RawNode};
use crate::sym;
use eastl_rs::fixed_list::conformant::{DefaultFixedList, FixedList};
use eastl_rs::Allocator;
use moveit::New;
use std::mem::{align_of, size_of, MaybeUninit};
use std::pin::Pin;

#[derive(Clone, Copy, PartialEq, Debug)]
#[repr(C, align(32))]
struct A32(u32);
#[derive(Clone, Copy, PartialEq, Debug)]
#[repr(C, align(64))]
struct A64(u32);
impl El for A32 {
    fn mk(v: u32) -> Self {
        A32(v)
    }
    fn val(&self) -> u32 {
        self.0
    }
}
impl El for A64 {
    fn mk(v: u32) -> Self {
        A64(v)
    }
    fn val(&self) -> u32 {
        self.0
    }
}
impl El for u128 {
    fn mk(v: u32) -> u128 {
        v as u128
    }
    fn val(&self) -> u32 {
        *self as u32
    }
}
/// Room for a list at any placement.
#[repr(C, align(128))]
struct Place([MaybeUninit<u64>; 96]);

macro_rules! at_place { ($f:ident, $e:ty, $k:literal, $n:literal) => {
    fn $f(place: usize) {
        type L = FixedList<$e, $k, Led>;
        Led::reset();
        let size = size_of::<RawNode<$e>>();
        let mut room = Place([MaybeUninit::uninit(); 96]);
        unsafe {
            let base = room.0.as_mut_ptr() as *mut u8;
            check!(size_of::<L>() + 120 <= 96 * 8 && align_of::<L>() == 8, "harness: room for the list");
            check!(size_of::<L>() >= size_of::<RawPooled>() + ($k + 1) * size - 1 && size_of::<L>() < size_of::<RawPooled>() + ($k + 1) * size + 8, "the list has the size of the C++ one");
            let slot = &mut *(base.add(8 * place) as *mut MaybeUninit<L>);
            New::new(L::new_in(Led::default()), Pin::new_unchecked(&mut *slot));
            let r = slot.as_ptr() as *const RawPooled;
            let lo = (r as usize).wrapping_sub(base as usize);
            let next = ((*r).pool.next as usize).wrapping_sub(base as usize);
            let cap = ((*r).pool.capacity as usize).wrapping_sub(base as usize);
            let begin = ((*r).pool_begin as usize).wrapping_sub(base as usize);
            check!((*r).pool.head.is_null(), "a new pool has no returned nodes");
            check!(next >= lo + size_of::<RawPooled>() && next < 96 * 8, "the inline nodes lie behind the header");
            check!(next % align_of::<RawNode<$e>>() == 0, "the inline nodes are aligned");
            check!(cap <= lo + size_of::<L>() && cap == next + $k * size, "the inline nodes lie in the list, as many as promised");
            check!(begin >= lo + size_of::<RawPooled>() && begin <= next, "blocks of the pool are recognised");
            std::mem::forget(std::ptr::read(slot));
        }
    }
} }
at_place!(p_u32_1, u32, 1, 1);
at_place!(p_u32_3, u32, 3, 3);
at_place!(p_u64_2, u64, 2, 2);
at_place!(p_u128_2, u128, 2, 2);
at_place!(p_e40_1, E40, 1, 1);
at_place!(p_e40_2, E40, 2, 2);
at_place!(p_a32_1, A32, 1, 1);
at_place!(p_a32_3, A32, 3, 3);
at_place!(p_a64_1, A64, 1, 1);
at_place!(p_a64_2, A64, 2, 2);

/// The list filled to the last inline node and beyond, in its real memory.
macro_rules! fill { ($f:ident, $e:ty, $k:literal) => {
    fn $f(place: usize) {
        type L = FixedList<$e, $k, Led>;
        Led::reset();
        let mut room = Place([MaybeUninit::uninit(); 96]);
        unsafe {
            let base = room.0.as_mut_ptr() as *mut u8;
            let slot = &mut *(base.add(8 * place) as *mut MaybeUninit<L>);
            New::new(L::new_in(Led::default()), Pin::new_unchecked(&mut *slot));
            let l = slot.assume_init_mut();
            let mut i = 0;
            while i <= $k {
                l.push_back(<$e as El>::mk(i));
                let p = l.back().unwrap() as *const $e as usize;
                check!(p % align_of::<$e>() == 0, "an element is aligned");
                let d = p.wrapping_sub(base as usize);
                if i < $k {
                    check!(live_blocks() == 0, "nothing is allocated while an inline node is free");
                    check!(d >= 8 * place && d + size_of::<$e>() <= 8 * place + size_of::<L>(), "an inline element lies in the list");
                } else {
                    check!(live_blocks() == 1, "beyond the inline nodes the overflow allocator serves");
                }
                i += 1;
            }
            std::mem::forget(std::ptr::read(slot));
        }
    }
} }
fill!(f_u32_2, u32, 2);
fill!(f_u128_1, u128, 1);
fill!(f_a64_1, A64, 1);

// ---- behaviour
macro_rules! behave { ($c:ident, $same:ident, $op:ident, $step:ident, $step2:ident, $e:ty) => {
    type $c = FixedList<$e, 2, Arena>;
    fn $same(l: &mut $c, m: &Seq<8>) {
        check!(l.len() == m.n && l.size() == m.n && l.is_empty() == (m.n == 0), "length");
        let mut i = 0;
        for e in l.iter() {
            check!(i < m.n, "an element too many");
            check!(e.see() == m.a[i], "element");
            i += 1;
        }
        check!(i == m.n, "an element is missing");
        let f = if m.n == 0 { None } else { Some(m.a[0]) };
        let b = if m.n == 0 { None } else { Some(m.a[m.n - 1]) };
        check!(l.front().map(|e| e.see()) == f && l.front_mut().map(|e| e.see()) == f, "front");
        check!(l.back().map(|e| e.see()) == b && l.back_mut().map(|e| e.see()) == b, "back");
    }
    fn $op(l: &mut $c, m: &mut Seq<8>, o: u8) {
        let (n, allocs, over) = (m.n, unsafe { AB.allocs }, out());
        let x = sym::u32() & <$e>::MASK;
        match o {
            mlist::PUSH_BACK => {
                m.push(x);
                l.push_back(<$e>::mk(x));
            }
            mlist::PUSH_FRONT => {
                m.insert(0, x);
                l.push_front(<$e>::mk(x));
            }
            mlist::POP_BACK => check!(took(l.pop_back()) == m.pop(), "pop_back returns the last element"),
            mlist::POP_FRONT => check!(took(l.pop_front()) == m.remove(0), "pop_front returns the first element"),
            mlist::CLEAR => {
                l.clear();
                m.clear();
            }
            mlist::FRONT_MUT => {
                if let Some(e) = l.front_mut() {
                    *e = <$e>::mk(x);
                    m.a[0] = x;
                }
            }
            mlist::BACK_MUT => {
                if let Some(e) = l.back_mut() {
                    *e = <$e>::mk(x);
                    m.a[m.n - 1] = x;
                }
            }
            _ => {
                let mut i = 0;
                for e in l.iter_mut() {
                    check!(i < m.n, "an element too many");
                    m.a[i] ^= x;
                    *e = <$e>::mk(m.a[i]);
                    i += 1;
                }
                check!(i == m.n, "an element is missing");
            }
        }
        if m.n > n {
            let room = 2 - (n - over);
            check!(unsafe { AB.allocs } == allocs + (room == 0) as usize, "the overflow allocator serves exactly when no inline node is free");
        } else {
            check!(unsafe { AB.allocs } == allocs, "nothing is allocated when nothing is added");
        }
    }
    fn $step(at: &At2, o: u8) {
        <$e as El>::reset();
        let mut m = Seq::<8>::fill_of::<$e>(at.0.len());
        let mut buf = arena::<$e>();
        // the header of the list; its pool is in the arena
        let mut slot = MaybeUninit::<$c>::uninit();
        unsafe {
            crate::c14::fill_pooled::<$e, 8>(slot.as_mut_ptr() as *mut RawPooled, &mut buf, &m, at);
            let l = slot.assume_init_mut();
            $op(l, &mut m, o);
            $same(l, &m);
            std::ptr::drop_in_place(l);
        }
        <$e as El>::finish();
        check!(out() == 0, "an overflow block was not returned");
    }
    fn $step2(at: &At2, o: u8, o2: u8) {
        <$e as El>::reset();
        let mut m = Seq::<8>::fill_of::<$e>(at.0.len());
        let mut buf = arena::<$e>();
        let mut slot = MaybeUninit::<$c>::uninit();
        unsafe {
            crate::c14::fill_pooled::<$e, 8>(slot.as_mut_ptr() as *mut RawPooled, &mut buf, &m, at);
            let l = slot.assume_init_mut();
            $op(l, &mut m, o);
            $op(l, &mut m, o2);
            $same(l, &m);
            std::ptr::drop_in_place(l);
        }
        <$e as El>::finish();
        check!(out() == 0, "an overflow block was not returned");
    }
} }
behave!(C32, same32, op32, step32, step32x2, u32);
behave!(C40, same40, op40, step40, step40x2, E40);
behave!(Cd, same_d, op_d, step_d, step_dx2, D);
const PAIR: [u8; 4] = [mlist::PUSH_BACK, mlist::PUSH_FRONT, mlist::POP_BACK, mlist::POP_FRONT];

harnesses! {
    place_u32 [18] { split(16, |i| { p_u32_1(i as usize); p_u32_3(i as usize) }); }
    place_u64 [18] { split(16, |i| p_u64_2(i as usize)); }
    place_u128 [18] { split(16, |i| p_u128_2(i as usize)); }
    place_e40 [18] { split(16, |i| { p_e40_1(i as usize); p_e40_2(i as usize) }); }
    place_a32 [18] { split(16, |i| { p_a32_1(i as usize); p_a32_3(i as usize) }); }
    place_a64 [18] { split(16, |i| { p_a64_1(i as usize); p_a64_2(i as usize) }); }
    fill_u32 [18] { split(4, |i| f_u32_2(i as usize)); }
    fill_u128 [18] { split(4, |i| f_u128_1(i as usize)); }
    fill_a64 [18] { split(8, |i| f_a64_1(i as usize)); }
    push_back [18] { split(15, |s| step32(&STATES[s as usize], mlist::PUSH_BACK)); }
    push_front [18] { split(15, |s| step32(&STATES[s as usize], mlist::PUSH_FRONT)); }
    pop_back [18] { split(15, |s| step32(&STATES[s as usize], mlist::POP_BACK)); }
    pop_front [18] { split(15, |s| step32(&STATES[s as usize], mlist::POP_FRONT)); }
    clear [18] { split(15, |s| step32(&STATES[s as usize], mlist::CLEAR)); }
    write [18] { outer(3, |o| split(6, |s| step32(&STATES[2 * s as usize], [mlist::FRONT_MUT, mlist::BACK_MUT, mlist::ITER_MUT][o as usize]))); }
    pop40 [18] { split(15, |s| step40(&STATES[s as usize], mlist::POP_FRONT)); }
    push_tracked [18] { split(15, |s| step_d(&STATES[s as usize], mlist::PUSH_BACK)); }
    pop_tracked [18] { split(15, |s| step_d(&STATES[s as usize], mlist::POP_BACK)); }
    clear_tracked [18] { split(15, |s| step_d(&STATES[s as usize], mlist::CLEAR)); }
    x_push_back2 [18] { outer(15, |s| split(4, |o| step32x2(&STATES[s as usize], mlist::PUSH_BACK, PAIR[o as usize]))); }
    x_pop_front2 [18] { outer(15, |s| split(4, |o| step40x2(&STATES[s as usize], mlist::POP_FRONT, PAIR[o as usize]))); }
    x_clear2 [18] { outer(15, |s| split(4, |o| step_dx2(&STATES[s as usize], mlist::CLEAR, PAIR[o as usize]))); }
    default [18] {
        let mut slot = MaybeUninit::<DefaultFixedList<u32, 1>>::uninit();
        unsafe {
            New::new(DefaultFixedList::<u32, 1>::new_with_default_overflow_allocator(), Pin::new_unchecked(&mut slot));
            let l = slot.assume_init_mut();
            check!(l.is_empty() && l.len() == 0 && l.front().is_none() && l.back().is_none() && l.pop_back().is_none() && l.pop_front().is_none(), "a new list is empty");
            check!(l.iter().next().is_none() && l.iter_mut().next().is_none(), "a new list is empty");
            let r = slot.as_ptr() as *const RawPooled;
            check!((*r).node.next as *const RawLink == r as *const RawLink && (*r).node.prev as *const RawLink == r as *const RawLink, "the ring of a new list is closed");
        }
        witness!("end");
    }
}
