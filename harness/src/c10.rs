//! Blocks of Vector, Deque, Queue, List and VectorMap: the steps of C01, C02, C03 and C06 over an allocator that
//! keeps books (each block returned once, with its size and alignment; nothing left after the drop; no empty
//! requests; the solver's memory model rejects any use of a returned block). Vectors of capacity 0..=3, also consumed;
//! deques with the used blocks at every place of a table of 4, growing over either end, 1..=3 blocks drained,
//! removal; lists of 0..=3; maps of 0..=3 pairs.
// cbmc: --max-field-sensitivity-array-size 256
use crate::el::*;
use crate::env::{live_blocks, outer, split, Led};
use crate::mdeque::{self, At};
use crate::mlist;
use crate::mvec;
use crate::mvmap;
use crate::sym;
use eastl_rs::compare::{Greater, Less};
use eastl_rs::deque::Deque;
use eastl_rs::list::List;
use eastl_rs::queue::Queue;
use eastl_rs::vector::Vector;
use eastl_rs::vector_map::VectorMap;

fn v<E: El>(op: u8) {
    mvec::shapes(3, |len, cap| mvec::step::<E, Led, 8>(op, len, cap, 0));
}
fn vk<E: El>(op: u8, c: usize, k: u8) {
    mvec::outer_shapes(c, |len, cap| split(k, |k| mvec::step::<E, Led, 10>(op, len, cap, k as usize)));
}
fn vi<E: El>(op: u8) {
    mvec::outer_shapes(3, |len, cap| split(len as u8 + 1, |i| mvec::step::<E, Led, 8>(op, len, cap, i as usize)));
}
fn at(table: usize, first: usize, off: usize, n: usize) -> At {
    At { table, first, off, n }
}
type E = E40;
/// Over the back end of the table, and the front end, with the used blocks anywhere.
fn over_back(op2: u8, off: usize) {
    split(4, |f| mdeque::step2s::<E, Led, 24>(at(4, f as usize, off, (4 - f as usize) * 4 - 1 - off), mdeque::PUSH_BACK, op2));
}
fn over_front(op2: u8, end: usize) {
    split(4, |u| mdeque::step2s::<E, Led, 24>(at(4, 0, 0, u as usize * 4 + end), mdeque::PUSH_FRONT, op2));
}
/// Blocks come and go at the ends of the used range.
fn ends(op1: u8, off: usize, ns: &[usize]) {
    outer(ns.len() as u8, |n| split(4, |op2| mdeque::step2s::<E, Led, 16>(at(4, 1, off, ns[n as usize]), op1, op2)));
}
fn m<C: mvmap::Cmp<mvmap::VKey>>(o: u8, n: usize) {
    split(2 * n as u8 + 1, |ord| mvmap::step::<mvmap::VKey, u32, Led, C, 9>(n, n + (ord as usize >> 1 & 1), o, ord as u32));
}

harnesses! {
    vec_push [14] { v::<u32>(mvec::PUSH); }
    vec_push12 [14] { v::<E12>(mvec::PUSH); }
    vec_pop [14] { v::<u32>(mvec::POP); }
    vec_insert [14] { vi::<u32>(mvec::INSERT); }
    vec_remove [14] { vi::<u32>(mvec::REMOVE); }
    vec_append [14] { vk::<u32>(mvec::APPEND, 2, 4); }
    vec_assign [14] { vk::<u32>(mvec::ASSIGN, 2, 4); }
    vec_reserve [14] { vk::<u64>(mvec::RESERVE, 3, 3); }
    vec_clear [14] { v::<u32>(mvec::CLEAR); }
    vec_clone [14] { v::<u32>(mvec::CLONE); }
    vec_clone12 [14] { v::<E12>(mvec::CLONE); }
    vec_into [14] { vk::<u32>(mvec::INTO, 2, 4); }
    vec_fresh [14] {
        split(8, |how| {
            Led::reset();
            let a = [sym::u32(), sym::u32(), sym::u32()];
            {
                let mut v: Vector<u32, Led> = match how {
                    0 => Vector::new(),
                    1 => Vector::with_capacity(0),
                    2 => Vector::with_capacity(3),
                    3 => Vector::from(&a[..]),
                    4 => Vector::from(&a[..0]),
                    5 => Vector::from(a),
                    6 => a.into_iter().collect(),
                    _ => [].into_iter().collect(),
                };
                check!(live_blocks() == (v.capacity() > 0) as usize, "a vector has one block, or none without room");
                v.push(a[0]);
                check!(live_blocks() == 1, "a vector has one block");
                v.clear();
                check!(live_blocks() == (v.capacity() > 0) as usize, "a vector has one block, or none without room");
                v.push(a[1]);
            }
            Led::finish();
        });
    }
    vec_into_fresh [14] {
        split(4, |n| {
            Led::reset();
            let v: Vector<u32, Led> = (0..n as u32).collect();
            let mut it = v.into_iter();
            it.next();
            it.next_back();
            drop(it);
            Led::finish();
        });
    }
    dq_over_back_b [30] { over_back(mdeque::PUSH_BACK, 2); }
    dq_over_back_p [30] { over_back(mdeque::POP_BACK, 0); }
    dq_over_front_f [30] { over_front(mdeque::PUSH_FRONT, 3); }
    dq_over_front_p [30] { over_front(mdeque::POP_FRONT, 0); }
    dq_pop_back [30] { ends(mdeque::POP_BACK, 0, &[0, 1, 4, 5]); }
    dq_pop_back3 [30] { ends(mdeque::POP_BACK, 3, &[0, 1, 2, 5]); }
    dq_pop_front [30] { ends(mdeque::POP_FRONT, 3, &[0, 1, 2, 5]); }
    dq_pop_front0 [30] { ends(mdeque::POP_FRONT, 0, &[0, 1, 4]); }
    dq_push [30] { ends(mdeque::PUSH_BACK, 3, &[0, 3]); }
    dq_push_front [30] { ends(mdeque::PUSH_FRONT, 0, &[0, 3]); }
    dq_remove [30] {
        outer(2, |s| split(5, |k| {
            let s = s as usize;
            let k = if s == 0 && k == 4 { 5 } else { k };
            mdeque::step_remove::<E, Led, 16>(at(4, 1, [2, 3, 0][s], [4, 5, 4][s]), if k == 5 { 9 } else { k as usize })
        }));
    }
    dq_write [30] { split(3, |o| mdeque::step_write::<E, Led, 16>(at(4, 1, 3, [0, 2, 5][o as usize]))); }
    // several blocks given back at once, some never used
    dq_drop [30] { split(4, |b| mdeque::step1::<E, Led, 20>(at(8, 2, 1, 1 + 4 * b as usize), mdeque::PUSH_BACK)); }
    dq64 [70] { split(4, |o| mdeque::step1::<u32, Led, 70>(at(8, 3, 63 * (o as usize & 1), 1), o)); }
    dq_fresh [30] {
        split(4, |o| {
            Led::reset();
            let mut d: Deque<'static, E, Led> = if o == 0 { Deque::new() } else { Deque::default() };
            let mut m = Seq::<8>::new();
            mdeque::op(&mut d, &mut m, o);
            mdeque::op(&mut d, &mut m, mdeque::PUSH_FRONT);
            drop(d);
            Led::finish();
        });
    }
    dq_collect [30] {
        split(4, |n| {
            Led::reset();
            let d: Deque<'static, E, Led> = (0..n as u32 * 3).map(E::mk).collect();
            check!(d.len() == n as usize * 3, "length");
            let mut q: Queue<'static, E, Led> = Queue::default();
            q.push(E::mk(1));
            drop(q.pop());
            drop(q.into_inner());
            drop(d);
            Led::finish();
        });
    }
    list_pairs0 [14] { outer(2, |n| outer(mlist::OPS, |a| split(2, |b| mlist::step2::<u32, Led, 12>(n as usize, a, b)))); }
    list_pairs2a [14] { outer(4, |a| split(mlist::OPS, |b| mlist::step2::<u32, Led, 12>(2, a, b))); }
    list_pairs2b [14] { outer(2, |a| split(mlist::OPS, |b| mlist::step2::<u32, Led, 12>(2, 4 + a, b))); }
    list_ring [14] { outer(2, |n| split(mlist::OPS, |a| mlist::step_ring::<E12, Led, 12>(2 * n as usize, a))); }
    list_ring8 [14] { outer(2, |n| split(mlist::OPS, |a| mlist::step_ring::<u8, Led, 12>(n as usize + 1, a))); }
    list_fresh [14] {
        split(mlist::OPS, |a| {
            Led::reset();
            let mut slot = std::mem::MaybeUninit::uninit();
            let l: &mut List<u32, Led> = mlist::fresh(&mut slot);
            let mut m = Seq::<8>::new();
            mlist::op(l, &mut m, a);
            mlist::op(l, &mut m, mlist::PUSH_FRONT);
            check!(live_blocks() == m.n, "a list has a block for each element");
            unsafe { std::ptr::drop_in_place(l) };
            Led::finish();
        });
    }
    map_insert [16] { outer(3, |n| m::<Less<_>>(mvmap::INSERT, n as usize)); }
    map_insert3 [16] { m::<Greater<_>>(mvmap::INSERT, 3); }
    map_remove [16] { outer(3, |n| m::<Less<_>>(mvmap::REMOVE, n as usize)); }
    map_remove_entry [16] { outer(3, |n| m::<Less<_>>(mvmap::REMOVE_ENTRY, n as usize)); }
    map_entry [16] { outer(3, |n| m::<Less<_>>(mvmap::ENTRY, n as usize)); }
    map_clear [16] { outer(3, |n| m::<Less<_>>(mvmap::CLEAR, n as usize)); }
    map_fresh [16] {
        split(4, |how| {
            Led::reset();
            let a = [(3u32, sym::u32()), (1, sym::u32()), (3, sym::u32())];
            let mut m: VectorMap<u32, u32, Led> = match how {
                0 => VectorMap::with_capacity(2),
                1 => VectorMap::from(a),
                2 => VectorMap::from(&a[..]),
                _ => a.into_iter().collect(),
            };
            m.insert(2, 5);
            check!(live_blocks() == 1, "a map has one block");
            drop(m);
            Led::finish();
        });
    }
    x_vec_insert [30] { mvec::outer_shapes(5, |l, c| split(l as u8 + 1, |i| mvec::step::<E12, Led, 10>(mvec::INSERT, l, c, i as usize))); }
    x_vec_append [17] { mvec::outer_shapes(4, |l, c| split(5, |k| mvec::step::<E12, Led, 12>(mvec::APPEND, l, c, k as usize))); }
    x_vec_assign [17] { mvec::outer_shapes(4, |l, c| split(5, |k| mvec::step::<E12, Led, 12>(mvec::ASSIGN, l, c, k as usize))); }
    x_vec_into [14] { vk::<u32>(mvec::INTO, 4, 6); }
    x_dq_back [30] { outer(4, |o| split(4, |f| mdeque::step2s::<E, Led, 24>(at(4, f as usize, 3, (4 - f as usize) * 4 - 4), mdeque::PUSH_BACK, o))); }
    x_dq_front [30] { outer(4, |o| split(4, |u| mdeque::step2s::<E, Led, 24>(at(4, 0, 0, u as usize * 4 + 2), mdeque::PUSH_FRONT, o))); }
    x_dq_ends1 [30] { outer(4, |o| ends(o, 1, &[0, 1, 2, 3, 4, 6, 7])); }
    x_dq_ends2 [30] { outer(4, |o| ends(o, 2, &[0, 1, 2, 3, 4, 6, 7])); }
    x_dq8_back [50] { split(4, |f| mdeque::step2s::<E, Led, 60>(at(8, 2 * f as usize, 0, (8 - 2 * f as usize) * 4 - 1), mdeque::PUSH_BACK, f)); }
    x_dq8_front [50] { split(4, |u| mdeque::step2s::<E, Led, 60>(at(8, 0, 0, 2 * u as usize * 4 + 3), mdeque::PUSH_FRONT, u)); }
    x_list_pairs3 [14] { outer(mlist::OPS, |a| split(mlist::OPS, |b| mlist::step2::<u64, Led, 12>(3, a, b))); }
    x_map_entry [20] { outer(3, |n| m::<Less<_>>(mvmap::ENTRY, n as usize + 3)); }
    x_map_insert [20] { outer(3, |n| m::<Less<_>>(mvmap::INSERT, n as usize + 3)); }
}
