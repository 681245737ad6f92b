//! The C++ layout of a list, and a step of it from an arbitrary state.
use crate::el::*;
use crate::sym;
use eastl_rs::list::List;
use eastl_rs::Allocator;
use std::mem::MaybeUninit;

#[repr(C)]
pub struct RawLink {
    pub next: *mut RawLink,
    pub prev: *mut RawLink,
}
#[repr(C)]
pub struct RawNode<E> {
    pub base: RawLink,
    pub value: E,
}
#[repr(C)]
pub struct RawList<A> {
    pub node: RawLink,
    pub size: u32,
    pub alloc: A,
}

/// A place for a list; it must not move once filled.
pub type Slot<E, A> = MaybeUninit<List<E, A>>;

/// Builds the list that holds `s`, as C++ would, in its place.
pub fn list_at<'a, E: El, A: Al, const N: usize>(slot: &'a mut Slot<E, A>, s: &Seq<N>) -> &'a mut List<E, A> {
    check!(std::mem::size_of::<List<E, A>>() == std::mem::size_of::<RawList<A>>(), "the list has the size of the C++ list");
    unsafe {
        let r = slot.as_mut_ptr() as *mut RawList<A>;
        let head = std::ptr::addr_of_mut!((*r).node);
        let mut alloc = A::default();
        (*head).next = head;
        (*head).prev = head;
        let mut i = 0;
        while i < s.n {
            let n: *mut RawNode<E> = alloc.allocate::<RawNode<E>>(1);
            let last = (*head).prev;
            n.write(RawNode { base: RawLink { next: head, prev: last }, value: E::mk(s.a[i]) });
            (*last).next = n as *mut RawLink;
            (*head).prev = n as *mut RawLink;
            i += 1;
        }
        (*r).size = s.n as u32;
        std::ptr::addr_of_mut!((*r).alloc).write(alloc);
        &mut *slot.as_mut_ptr()
    }
}
/// The ring read as C++ reads it: forward, backward, and the size.
pub fn ring<E: El, A: Allocator, const N: usize>(l: &List<E, A>, s: &Seq<N>) {
    unsafe {
        let r = l as *const List<E, A> as *const RawList<A>;
        let head = std::ptr::addr_of!((*r).node);
        check!((*r).size as usize == s.n, "stored size");
        let mut p = (*head).next as *const RawLink;
        let mut q = (*head).prev as *const RawLink;
        let mut i = 0;
        while i < s.n {
            check!(p != head && q != head, "the ring is too short");
            check!((*(p as *const RawNode<E>)).value.see() == s.a[i], "element, following next");
            check!((*(q as *const RawNode<E>)).value.see() == s.a[s.n - 1 - i], "element, following prev");
            p = (*p).next;
            q = (*q).prev;
            i += 1;
        }
        check!(p == head && q == head, "the ring does not close");
    }
}
pub fn same_list<E: El, A: Allocator, const N: usize>(l: &mut List<E, A>, s: &Seq<N>) {
    check!(l.size() == s.n && l.len() as usize == s.n, "size");
    check!(l.empty() == (s.n == 0) && l.is_empty() == (s.n == 0), "emptiness");
    {
        let mut it = l.iter();
        let mut i = 0;
        while i < s.n {
            let e = it.next();
            check!(e.is_some(), "an element is missing");
            check!(e.unwrap().see() == s.a[i], "element");
            i += 1;
        }
        check!(it.next().is_none(), "an element too many");
    }
    let f = if s.n == 0 { None } else { Some(s.a[0]) };
    let b = if s.n == 0 { None } else { Some(s.a[s.n - 1]) };
    check!(l.front().map(|e| e.see()) == f, "front");
    check!(l.back().map(|e| e.see()) == b, "back");
    check!(l.front_mut().map(|e| e.see()) == f, "front, mutable");
    check!(l.back_mut().map(|e| e.see()) == b, "back, mutable");
}
pub const PUSH_BACK: u8 = 0;
pub const PUSH_FRONT: u8 = 1;
pub const POP_BACK: u8 = 2;
pub const POP_FRONT: u8 = 3;
pub const CLEAR: u8 = 4;
pub const EXTEND: u8 = 5;
pub const FRONT_MUT: u8 = 6;
pub const BACK_MUT: u8 = 7;
pub const ITER_MUT: u8 = 8;
pub const OPS: u8 = 9;

pub fn op<E: El, A: Allocator + Default, const N: usize>(l: &mut List<E, A>, m: &mut Seq<N>, op: u8) {
    let x = sym::u32() & E::MASK;
    match op {
        PUSH_BACK => {
            m.push(x);
            l.push_back(E::mk(x));
        }
        PUSH_FRONT => {
            m.insert(0, x);
            l.push_front(E::mk(x));
        }
        POP_BACK => {
            let r = took(l.pop_back());
            check!(r == m.pop(), "pop_back returns the last element");
        }
        POP_FRONT => {
            let r = took(l.pop_front());
            check!(r == m.remove(0), "pop_front returns the first element");
        }
        CLEAR => {
            m.clear();
            l.clear();
        }
        EXTEND => {
            m.push(x);
            m.push(!x & E::MASK);
            l.extend(crate::ways::NoHint([E::mk(x)].into_iter()));
            l.extend([E::mk(!x & E::MASK)]);
        }
        FRONT_MUT => {
            if let Some(e) = l.front_mut() {
                *e = E::mk(x);
                m.a[0] = x;
            }
        }
        BACK_MUT => {
            if let Some(e) = l.back_mut() {
                *e = E::mk(x);
                m.a[m.n - 1] = x;
            }
        }
        _ => {
            let mut i = 0;
            for e in l.iter_mut() {
                check!(i < m.n, "an element too many");
                m.a[i] ^= x;
                *e = E::mk(m.a[i]);
                i += 1;
            }
            check!(i == m.n, "an element is missing");
        }
    }
}
/// Two operations from the state with `n` elements, then everything is dropped.
pub fn step2<E: El, A: Al, const N: usize>(n: usize, op1: u8, op2: u8) {
    reset::<E, A>();
    let mut m = Seq::<N>::fill_of::<E>(n);
    let mut slot = MaybeUninit::uninit();
    let l: &mut List<E, A> = list_at(&mut slot, &m);
    op(l, &mut m, op1);
    op(l, &mut m, op2);
    same_list(l, &m);
    unsafe { std::ptr::drop_in_place(l) };
    finish::<E, A>();
}
/// The same, looking at the ring instead of the interface.
pub fn step_ring<E: El, A: Al, const N: usize>(n: usize, op1: u8) {
    reset::<E, A>();
    let mut m = Seq::<N>::fill_of::<E>(n);
    let mut slot = MaybeUninit::uninit();
    let l: &mut List<E, A> = list_at(&mut slot, &m);
    ring(l, &m);
    op(l, &mut m, op1);
    ring(l, &m);
    unsafe { std::ptr::drop_in_place(l) };
    finish::<E, A>();
}
/// A list made by the crate itself, in its place.
pub fn fresh<'a, E: El, A: Al>(slot: &'a mut Slot<E, A>) -> &'a mut List<E, A> {
    use moveit::New;
    use std::pin::Pin;
    unsafe {
        New::new(List::<E, A>::new(), Pin::new_unchecked(&mut *slot));
        slot.assume_init_mut()
    }
}
