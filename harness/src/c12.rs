//! Values in Vector, Deque, Queue, List and VectorMap: the steps of C01, C02, C03 and C06 over elements (and keys)
//! that record their life: each is dropped exactly once, only while alive, and none is left after the container and
//! everything it handed out are gone; what is reachable is alive; clones are made of live values. Vectors of
//! capacity 0..=3 and their consuming iterator stopped anywhere, also by nth, count, last, fold, any and their kind; deques of 0..=5 elements across blocks (more when
//! the table fills up); lists of 0..=3; maps of 0..=3 pairs, tracked keys and values.
// cbmc: --max-field-sensitivity-array-size 256
use crate::el::*;
use crate::env::{outer, split, D};
use crate::mdeque::{self, At};
use crate::mlist;
use crate::mvec;
use crate::mvmap;
use crate::sym;
use crate::ways::{back, ways, BACK, WAYS};
use eastl_rs::compare::{Greater, Less};
use eastl_rs::deque::Deque;
use eastl_rs::queue::Queue;
use eastl_rs::vector::Vector;
use eastl_rs::vector_map::VectorMap;

fn v(op: u8) {
    mvec::shapes(3, |len, cap| mvec::step::<D, Plain, 8>(op, len, cap, 0));
}
fn vk(op: u8, c: usize, k: u8) {
    mvec::outer_shapes(c, |len, cap| split(k, |k| mvec::step::<D, Plain, 10>(op, len, cap, k as usize)));
}
fn vi(op: u8) {
    mvec::outer_shapes(3, |len, cap| split(len as u8 + 1, |i| mvec::step::<D, Plain, 8>(op, len, cap, i as usize)));
}
fn at(table: usize, first: usize, off: usize, n: usize) -> At {
    At { table, first, off, n }
}
type E = D40;
fn over_back(op2: u8, off: usize) {
    split(3, |f| mdeque::step2s::<E, Plain, 20>(at(4, 1 + f as usize, off, (3 - f as usize) * 4 - 1 - off), mdeque::PUSH_BACK, op2));
}
fn over_front(op2: u8, end: usize) {
    split(3, |u| mdeque::step2s::<E, Plain, 20>(at(4, 0, 0, u as usize * 4 + end), mdeque::PUSH_FRONT, op2));
}
fn ends(op1: u8, off: usize, ns: &[usize]) {
    outer(ns.len() as u8, |n| split(4, |op2| mdeque::step2s::<E, Plain, 16>(at(4, 1, off, ns[n as usize]), op1, op2)));
}
type DK = mvmap::VDKey;
fn m<C: mvmap::Cmp<DK>>(o: u8, n: usize) {
    split(2 * n as u8 + 1, |ord| mvmap::step::<DK, D, Plain, C, 9>(n, n + (ord as usize >> 1 & 1), o, ord as u32));
}
/// A tracked key.
#[derive(Clone)]
struct DKey(D);
impl PartialEq for DKey {
    fn eq(&self, o: &Self) -> bool {
        self.0.see() == o.0.see()
    }
}
impl PartialOrd for DKey {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        self.0.see().partial_cmp(&o.0.see())
    }
}

harnesses! {
    vec_push [22] { v(mvec::PUSH); }
    vec_pop [22] { v(mvec::POP); }
    vec_insert [22] { vi(mvec::INSERT); }
    vec_remove [22] { vi(mvec::REMOVE); }
    vec_append [22] { vk(mvec::APPEND, 2, 3); }
    vec_assign [22] { vk(mvec::ASSIGN, 2, 4); }
    vec_reserve [22] { vk(mvec::RESERVE, 3, 2); }
    vec_clear [22] { v(mvec::CLEAR); }
    vec_clone [22] { v(mvec::CLONE); }
    vec_write [22] { mvec::shapes(2, |len, cap| if len > 0 { mvec::step::<D, Plain, 8>(mvec::WRITE, len, cap, 0) }); }
    vec_into [22] { vk(mvec::INTO, 2, 4); }
    vec_into3 [22] { split(5, |k| mvec::step::<D, Plain, 8>(mvec::INTO, 3, 3, k as usize)); }
    vec_into_ways [42] {
        outer(WAYS + BACK, |w| split(5, |k| {
            D::reset();
            {
                let m = Seq::<8>::fill_of::<D>(3);
                let it = mvec::vec_at::<D, Plain, 8>(&m, 3).into_iter();
                if w < WAYS { ways(w, k as usize, it, &m, |e| e.see()) } else { back(w - WAYS, k as usize, it, &m, |e| e.see()) }
            }
            D::finish();
        }));
    }
    dq_into_ways [42] {
        outer(WAYS + BACK, |w| split(4, |k| {
            D::reset();
            {
                let m = Seq::<8>::fill_of::<E>(3);
                let it = mdeque::deque_at::<E, Plain, 8>(&m, at(4, 1, 2, 3)).into_iter();
                if w < WAYS { ways(w, 1 + k as usize, it, &m, |e| e.see()) } else { back(w - WAYS, 1 + k as usize, it, &m, |e| e.see()) }
            }
            D::finish();
        }));
    }
    vec_fresh [22] {
        split(5, |how| {
            D::reset();
            {
                let a = [D::new(sym::u32()), D::new(2), D::new(3)];
                let mut v: Vector<D, Plain> = match how {
                    0 => Vector::with_capacity(2),
                    1 => Vector::from(&a[..]),
                    2 => Vector::from(&a[..0]),
                    3 => a.into_iter().collect(),
                    _ => Vector::from(a),
                };
                v.push(D::new(7));
                let w = v.clone();
                v.clear();
                check!(w.as_slice().iter().all(|d| d.live()), "an element that is reachable is not alive");
            }
            D::finish();
        });
    }
    dq_over_back_b [40] { over_back(mdeque::PUSH_BACK, 2); }
    dq_over_back_p [40] { over_back(mdeque::POP_BACK, 0); }
    dq_over_front_f [40] { over_front(mdeque::PUSH_FRONT, 3); }
    dq_over_front_p [40] { over_front(mdeque::POP_FRONT, 0); }
    dq_pop_back [40] { ends(mdeque::POP_BACK, 0, &[0, 1, 4, 5]); }
    dq_pop_front [40] { ends(mdeque::POP_FRONT, 3, &[0, 1, 2, 5]); }
    dq_push [40] { ends(mdeque::PUSH_BACK, 3, &[0, 3]); }
    dq_push_front [40] { ends(mdeque::PUSH_FRONT, 0, &[0, 3]); }
    dq_remove0 [40] { split(5, |k| mdeque::step_remove::<E, Plain, 16>(at(4, 1, 2, 4), k as usize)); }
    dq_remove1 [40] { split(4, |k| mdeque::step_remove::<E, Plain, 16>(at(4, 1, 3, 5), 1 + k as usize)); }
    dq_remove2 [40] { split(4, |k| mdeque::step_remove::<E, Plain, 16>(at(4, 1, 0, 3), k as usize)); }
    dq_write [40] { split(3, |o| mdeque::step_write::<E, Plain, 16>(at(4, 1, 3, [0, 2, 5][o as usize]))); }
    dq_drop [40] { split(4, |b| mdeque::step1::<E, Plain, 20>(at(8, 2, b as usize, 1 + 3 * b as usize), mdeque::PUSH_BACK)); }
    dq_collect [40] {
        split(3, |n| {
            D::reset();
            {
                let mut d: Deque<'static, E, Plain> = (0..n as u32 * 3).map(E::mk).collect();
                check!(d.len() == n as usize * 3, "length");
                let mut q: Queue<'static, E, Plain> = Queue::default();
                q.push(E::mk(1));
                q.push(E::mk(2));
                drop(q.pop());
                if let Some(e) = d.pop_front() {
                    check!(e.d.live(), "an element that is handed out is not alive");
                    q.push(e);
                }
                let mut d2 = q.into_inner();
                check!(d2.front_mut().map_or(true, |e| e.d.live()), "an element that is reachable is not alive");
                drop(d2.pop_back());
            }
            D::finish();
        });
    }
    list_pairs0 [18] { outer(mlist::OPS, |a| split(2, |b| mlist::step2::<D, Plain, 12>(0, a, b + 1))); }
    list_pairs2a [18] { outer(3, |a| split(mlist::OPS, |b| mlist::step2::<D, Plain, 12>(2, a + 3, b))); }
    list_pairs2b [18] { outer(3, |a| split(mlist::OPS, |b| mlist::step2::<D, Plain, 12>(2, a + 6, b))); }
    list_pairs1 [18] { outer(4, |a| split(6, |b| mlist::step2::<D, Plain, 12>(1, a, b))); }
    list_ring [18] { split(mlist::OPS, |a| mlist::step_ring::<D, Plain, 12>(3, a)); }
    map_insert [20] { outer(3, |n| m::<Less<_>>(mvmap::INSERT, n as usize)); }
    map_insert3 [20] { m::<Greater<_>>(mvmap::INSERT, 3); }
    map_remove [20] { outer(3, |n| m::<Less<_>>(mvmap::REMOVE, n as usize)); }
    map_remove_entry [20] { outer(2, |n| m::<Less<_>>(mvmap::REMOVE_ENTRY, n as usize + 1)); }
    map_get_mut [20] { m::<Less<_>>(mvmap::GET_MUT, 2); }
    map_entry [20] { outer(3, |n| m::<Less<_>>(mvmap::ENTRY, n as usize)); }
    map_into_key [20] { outer(3, |n| m::<Less<_>>(mvmap::INTO_KEY, n as usize)); }
    map_clear [20] { split(3, |n| mvmap::step::<DK, D, Plain, Less<DK>, 9>(n as usize, n as usize + 1, mvmap::CLEAR, 0)); }
    map_fresh [20] {
        split(3, |how| {
            D::reset();
            {
                let k = |r: u32| DKey(D::new(r));
                let a = [(k(3), D::new(1)), (k(1), D::new(2)), (k(3), D::new(3))];
                let mut m: VectorMap<DKey, D, Plain> = match how {
                    0 => VectorMap::from(a),
                    1 => VectorMap::from(&a[..]),
                    _ => a.into_iter().collect(),
                };
                check!(m.len() == 2 && m.as_ref().iter().all(|(k, v)| k.0.live() && v.live()), "a pair that is reachable is not alive");
                drop(m.insert(k(2), D::new(5)));
                drop(m.insert(k(1), D::new(6)));
            }
            D::finish();
        });
    }
    x_vec_insert [30] { mvec::outer_shapes(5, |l, c| split(l as u8 + 1, |i| mvec::step::<D, Plain, 10>(mvec::INSERT, l, c, i as usize))); }
    x_vec_remove [30] { mvec::outer_shapes(5, |l, c| split(l as u8 + 1, |i| mvec::step::<D, Plain, 10>(mvec::REMOVE, l, c, i as usize))); }
    x_vec_append [30] { mvec::outer_shapes(4, |l, c| split(5, |k| mvec::step::<D, Plain, 12>(mvec::APPEND, l, c, k as usize))); }
    x_vec_assign [30] { mvec::outer_shapes(4, |l, c| split(5, |k| mvec::step::<D, Plain, 12>(mvec::ASSIGN, l, c, k as usize))); }
    x_vec_into [30] { vk(mvec::INTO, 4, 6); }
    x_dq_ends1 [40] { outer(4, |o| ends(o, 1, &[0, 1, 2, 3, 4, 6, 7])); }
    x_dq_ends2 [40] { outer(4, |o| ends(o, 2, &[0, 1, 2, 3, 4, 6, 7])); }
    x_dq_back [40] { outer(4, |o| over_back(o, 1)); }
    x_dq_front [40] { outer(4, |o| over_front(o, 1)); }
    x_dq_remove [40] { outer(4, |o| split(8, |k| mdeque::step_remove::<E, Plain, 16>(at(4, 1, o as usize, 7), k as usize))); }
    x_list_pairs3 [22] { outer(mlist::OPS, |a| split(mlist::OPS, |b| mlist::step2::<D, Plain, 12>(3, a, b))); }
    x_map_entry [24] { outer(3, |n| m::<Less<_>>(mvmap::ENTRY, n as usize + 3)); }
    x_map_insert [24] { outer(3, |n| m::<Less<_>>(mvmap::INSERT, n as usize + 3)); }
}
