//! FixedVector with 2 inline elements (1, 4, 12 and 16 bytes, alignments 1 to 16, tracked): inline with 0..=2 elements, spilled with capacity 3 and
//! 0..=3 elements, without storage; every operation, and every operation after moving the object to another place
//! (contents, has_overflowed and allocator books looked at after each), also moving after the operation; then dropped.
use crate::el::*;
use crate::env::*;
use crate::mvec;
use crate::sym;
use eastl_rs::fixed_vector::FixedVector;
use moveit::drop_flag::DroppingFlag;
use moveit::move_ref::MoveRef;
use moveit::{MoveNew, New};
use std::mem::{align_of, size_of, MaybeUninit};
use std::pin::Pin;

const K: usize = 2;
type FV<E> = FixedVector<E, K, Led>;
type Slot<E> = MaybeUninit<FV<E>>;
/// The C++ layout of a fixed vector.
#[repr(C)]
pub struct RawFV<E> {
    pub begin: *mut E,
    pub end: *mut E,
    pub cap: *mut E,
    pub over: Led,
    pub pool_begin: *mut u8,
    pub buffer: [MaybeUninit<E>; K],
}
pub trait Elx: El + std::fmt::Debug {}
impl<E: El + std::fmt::Debug> Elx for E {}

/// 0..=2: inline with that many elements; 3..=6: spilled with 0..=3 of 3; 7: without storage.
pub const STATES: u8 = 8;
fn len_of(st: u8) -> usize {
    match st {
        0..=2 => st as usize,
        3..=6 => st as usize - 3,
        _ => 0,
    }
}
fn fv_at<'a, E: Elx, const N: usize>(slot: &'a mut Slot<E>, s: &Seq<N>, st: u8) -> &'a mut FV<E> {
    check!(size_of::<FV<E>>() == size_of::<RawFV<E>>(), "the fixed vector has the size of the C++ one");
    unsafe {
        let r = slot.as_mut_ptr() as *mut RawFV<E>;
        let buf = std::ptr::addr_of_mut!((*r).buffer) as *mut E;
        let mut led = Led::default();
        let (begin, cap) = match st {
            0..=2 => (buf, K),
            3..=6 => (eastl_rs::Allocator::allocate::<E>(&mut led, 3), 3),
            _ => (std::ptr::null_mut(), 0),
        };
        let mut i = 0;
        while i < s.n {
            begin.add(i).write(E::mk(s.a[i]));
            i += 1;
        }
        (*r).begin = begin;
        (*r).end = begin.add(s.n);
        (*r).cap = begin.add(cap);
        (*r).over = led;
        (*r).pool_begin = buf as *mut u8;
        &mut *slot.as_mut_ptr()
    }
}
/// What must be true of any fixed vector that holds `m`.
fn same<E: Elx, const N: usize>(v: &FV<E>, m: &Seq<N>) {
    mvec::same_vec(&**v, m);
    check!(v.max_size() == K, "the fixed size");
    check!(AsRef::<[E]>::as_ref(v).len() == m.n, "length of the slice it is seen as");
    let lo = v as *const FV<E> as usize;
    let a = v.as_slice().as_ptr() as usize;
    let inline = a >= lo && a < lo + size_of::<FV<E>>();
    check!(a % align_of::<E>() == 0, "the elements are aligned");
    let raw = v as *const FV<E> as *const RawFV<E>;
    let (begin, buf) = unsafe { ((*raw).pool_begin as usize, std::ptr::addr_of!((*raw).buffer) as usize) };
    check!(begin == buf, "the pool pointer, by which EASTL tells inline from overflow storage, is not the object's own inline buffer");
    if inline {
        check!(m.n <= K && v.capacity() <= K, "more inline elements than fit");
        check!(a + v.capacity() * size_of::<E>() <= lo + size_of::<FV<E>>(), "inline storage sticks out of the object");
        check!(a >= lo + 40, "inline storage overlaps the header");
        check!(!v.has_overflowed(), "overflow is reported although the elements are inline");
        check!(live_blocks() == 0, "a block is alive although the elements are inline");
    } else if m.n > 0 {
        check!(v.has_overflowed(), "overflow is not reported");
        check!(live_blocks() == 1, "one block holds the overflowed elements");
    } else {
        check!(v.has_overflowed() == (live_blocks() == 1), "overflow is reported exactly while there is overflow storage");
    }
}
const SAME: u8 = 20;
const FCLEAR: u8 = 21;
fn op<E: Elx, const N: usize>(v: &mut FV<E>, m: &mut Seq<N>, o: u8, k: usize) {
    let (allocs, cap, over) = unsafe { (BOOKS.allocs, v.capacity(), v.has_overflowed()) };
    match o {
        SAME => {}
        FCLEAR => {
            v.clear();
            m.clear();
            check!(!v.has_overflowed(), "a cleared fixed vector reports overflow");
            check!(v.capacity() == K && live_blocks() == 0, "a cleared fixed vector is back in its inline storage");
        }
        _ => mvec::op::<E, _, N>(&mut **v, m, o, k),
    }
    if m.n <= cap && o != mvec::RESERVE && o != mvec::CLONE {
        check!(unsafe { BOOKS.allocs } == allocs, "allocated although the elements fit");
    }
    if !over && cap == K && m.n > K {
        check!(v.has_overflowed() && live_blocks() == 1, "full and one more: all elements move to the overflow allocator");
    }
}
/// Moves the object to another place; the old place is overwritten.
fn moved<'a, E: Elx>(from: &mut Slot<E>, to: &'a mut Slot<E>) -> &'a mut FV<E> {
    unsafe {
        let f = DroppingFlag::new(());
        let flag = DroppingFlag::flag(&f);
        flag.inc();
        let src = MoveRef::into_pin(MoveRef::new_unchecked(&mut *from.as_mut_ptr(), flag));
        MoveNew::move_new(src, Pin::new_unchecked(&mut *to));
        *from = MaybeUninit::zeroed();
        &mut *to.as_mut_ptr()
    }
}
fn step<E: Elx, const N: usize>(st: u8, o: u8, k: usize) {
    reset::<E, Led>();
    let mut m = Seq::<N>::fill_of::<E>(len_of(st));
    let mut slot = MaybeUninit::uninit();
    let v = fv_at::<E, N>(&mut slot, &m, st);
    op::<E, N>(v, &mut m, o, k);
    same(v, &m);
    unsafe { std::ptr::drop_in_place(v) };
    finish::<E, Led>();
}
/// Moved before and after the operation.
fn move_step<E: Elx, const N: usize>(st: u8, o: u8, k: usize) {
    reset::<E, Led>();
    let mut m = Seq::<N>::fill_of::<E>(len_of(st));
    let (mut a, mut b, mut c) = (MaybeUninit::uninit(), MaybeUninit::uninit(), MaybeUninit::uninit());
    let over = fv_at::<E, N>(&mut a, &m, st).has_overflowed();
    let v = moved::<E>(&mut a, &mut b);
    check!(v.has_overflowed() == over, "moving changes the overflow state");
    same(v, &m);
    op::<E, N>(v, &mut m, o, k);
    let over = v.has_overflowed();
    let v = moved::<E>(&mut b, &mut c);
    check!(v.has_overflowed() == over, "moving changes the overflow state");
    same(v, &m);
    unsafe { std::ptr::drop_in_place(v) };
    finish::<E, Led>();
}
fn each<E: Elx>(o: u8, k: usize) {
    split(STATES, |st| step::<E, 8>(st, o, k));
}
/// At every index (and one out of range for removal).
fn at<E: Elx>(o: u8) {
    outer(STATES, |st| split(len_of(st) as u8 + 1, |k| step::<E, 8>(st, o, k as usize)));
}
fn sized<E: Elx>(o: u8, k: u8) {
    outer(STATES, |st| split(k, |k| step::<E, 8>(st, o, k as usize)));
}
fn moves<E: Elx>(o: u8, k: usize) {
    split(STATES, |st| move_step::<E, 8>(st, o, k));
}
/// Made by the crate: empty, inline, with room for K; then `k` pushes.
fn made<E: Elx>() {
    reset::<E, Led>();
    let mut m = Seq::<8>::new();
    let (mut slot, mut to) = (MaybeUninit::<FV<E>>::uninit(), MaybeUninit::uninit());
    unsafe {
        New::new(FV::<E>::new_in(Led::default()), Pin::new_unchecked(&mut slot));
        let v = slot.assume_init_mut();
        same(v, &m);
        check!(v.capacity() == K && !v.has_overflowed(), "a new fixed vector has its inline capacity");
        op::<E, 8>(v, &mut m, mvec::PUSH, 0);
        op::<E, 8>(v, &mut m, mvec::PUSH, 0);
        same(v, &m);
        check!(BOOKS.allocs == 0, "allocated although the elements fit");
        let v = moved::<E>(&mut slot, &mut to);
        op::<E, 8>(v, &mut m, mvec::PUSH, 0);
        same(v, &m);
        std::ptr::drop_in_place(v);
    }
    finish::<E, Led>();
    witness!("reached the end");
}

harnesses! {
    made_u32 [12] { made::<u32>(); }
    made_u8 [12] { made::<u8>(); }
    made_a16 [12] { made::<A16>(); }
    made_e12 [12] { made::<E12>(); }
    push_u8 [12] { each::<u8>(mvec::PUSH, 0); }
    push_a16 [12] { each::<A16>(mvec::PUSH, 0); }
    move_a16 [12] { moves::<A16>(mvec::PUSH, 0); }
    made_tracked [12] { made::<D>(); }
    push [12] { each::<u32>(mvec::PUSH, 0); }
    push_e12 [12] { each::<E12>(mvec::PUSH, 0); }
    pop [12] { each::<D>(mvec::POP, 0); }
    insert [12] { at::<D>(mvec::INSERT); }
    insert_u32 [12] { at::<u32>(mvec::INSERT); }
    remove [12] { at::<D>(mvec::REMOVE); }
    append [12] { sized::<u32>(mvec::APPEND, 3); }
    append_tracked [12] { sized::<D>(mvec::APPEND, 2); }
    assign [12] { sized::<D>(mvec::ASSIGN, 3); }
    x_assign [12] { sized::<D>(mvec::ASSIGN, 4); }
    x_append_tracked [12] { sized::<D>(mvec::APPEND, 4); }
    x_move_insert [12] { moves::<D>(mvec::INSERT, 0); }
    x_move_assign [12] { moves::<D>(mvec::ASSIGN, 3); }
    x_move_append [12] { moves::<E12>(mvec::APPEND, 4); }
    x_move_clone [12] { moves::<D>(mvec::CLONE, 0); }
    reserve [12] { sized::<D>(mvec::RESERVE, 3); }
    base_clear [12] { each::<D>(mvec::CLEAR, 0); }
    clear [12] { each::<D>(FCLEAR, 0); }
    clone [12] { each::<D>(mvec::CLONE, 0); }
    move_push [12] { moves::<u32>(mvec::PUSH, 0); }
    move_push_tracked [12] { moves::<D>(mvec::PUSH, 0); }
    move_append [12] { moves::<D>(mvec::APPEND, 3); }
    move_pop [12] { moves::<E12>(mvec::POP, 0); }
    move_clear [12] { moves::<D>(FCLEAR, 0); }
    move_base_clear [12] { moves::<u32>(mvec::CLEAR, 0); }
    move_reserve [12] { moves::<u32>(mvec::RESERVE, 1); }
}
