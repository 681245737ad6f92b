//! Vector: one operation from every state with capacity 0..=4 and every length up to it, all element
//! values and indices symbolic (64-bit indices); slices of 0..=3 elements.
//! One larger state (capacity and length around 17..20) per operation; element types u32, u8, 12 bytes.
//! Constructors with 0..=4 elements. Histories are covered by induction over the states.
use crate::el::*;
use crate::env::{outer, split};
use crate::mvec::*;
use crate::sym;
use eastl_rs::vector::Vector;

type V<E> = Vector<E, Plain>;

fn each<E: El>(op: u8) {
    shapes(4, |len, cap| step::<E, Plain, 10>(op, len, cap, 0));
}
/// At every index of every state.
fn each_i<E: El>(op: u8, c: usize) {
    outer_shapes(c, |len, cap| split(len as u8 + 1, |i| step::<E, Plain, 10>(op, len, cap, i as usize)));
}
fn each_k<E: El>(op: u8, c: usize, k: usize) {
    outer_shapes(c, |len, cap| split(k as u8 + 1, |k| step::<E, Plain, 10>(op, len, cap, k as usize)));
}

/// An iterator whose size hint promises less than it has.
struct Hint {
    s: Seq<6>,
    i: usize,
    low: usize,
}
impl Iterator for Hint {
    type Item = u32;
    fn next(&mut self) -> Option<u32> {
        if self.i < self.s.n {
            self.i += 1;
            Some(self.s.a[self.i - 1])
        } else {
            None
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.low, None)
    }
}

harnesses! {
    push [17] { each::<u32>(PUSH); }
    pop [17] { each::<u32>(POP); }
    insert [17] { each_i::<u32>(INSERT, 4); }
    remove [17] { each_i::<u32>(REMOVE, 4); }
    append [17] { each_k::<u32>(APPEND, 2, 2); }
    assign [17] { each_k::<u32>(ASSIGN, 2, 2); }
    reserve [17] { each_k::<u32>(RESERVE, 3, 2); }
    clear [17] { each::<u32>(CLEAR); }
    clone [17] { each::<u32>(CLONE); }
    write [17] { each::<u32>(WRITE); }
    insert12 [17] { each_i::<E12>(INSERT, 3); }
    remove12 [17] { each_i::<E12>(REMOVE, 3); }
    push12 [17] { each::<E12>(PUSH); }
    remove8 [17] { each_i::<u8>(REMOVE, 3); }
    insert8 [17] { each_i::<u8>(INSERT, 3); }

    // larger states
    big_push [26] { split(2, |c| step::<u32, Plain, 24>(PUSH, 17, 17 + c as usize, 0)); }
    big_insert [26] { outer(2, |c| split(6, |i| step::<u32, Plain, 24>(INSERT, 17, 17 + c as usize, [0, 1, 8, 12, 16, 17][i as usize]))); }
    big_remove [26] { split(6, |i| step::<u32, Plain, 24>(REMOVE, 17, 20, [0, 1, 8, 12, 16, 17][i as usize])); }
    big_append [26] { split(2, |c| step::<u32, Plain, 24>(APPEND, 16, 16 + c as usize, 3)); }
    big_assign [26] { split(2, |c| step::<u32, Plain, 24>(ASSIGN, 17, 18, 1 + 18 * c as usize)); }
    big_reserve [26] { step::<u32, Plain, 24>(RESERVE, 17, 18, 5); witness!("end"); }

    insert_refuses [17] {
        outer_shapes(3, |len, cap| {
            let m = Seq::<6>::fill(len);
            let mut v: V<u32> = vec_at(&m, cap);
            let i = sym::usize();
            sym::assume(i > len);
            sym::refuses(|| v.insert(i, 7));
        });
    }
    fresh [17] {
        let x = sym::u32();
        let y = sym::u32();
        split(6, |how| {
            let mut v: V<u32> = match how {
                0 => V::new(),
                1 => V::default(),
                2 => V::new_in(Plain::default()),
                3 => V::with_capacity(0),
                4 => V::with_capacity(1),
                _ => V::with_capacity(3),
            };
            same_vec(&v, &Seq::<4>::new());
            check!(how < 4 || v.capacity() >= if how == 4 { 1 } else { 3 }, "with_capacity makes the room asked for");
            check!(v.pop().is_none() && v.remove(0).is_none(), "an empty vector gives nothing");
            v.push(x);
            v.insert(0, y);
            let mut m = Seq::<4>::new();
            m.push(y);
            m.push(x);
            same_vec(&v, &m);
            check!(v.pop() == Some(x) && v.pop() == Some(y) && v.pop().is_none(), "what was pushed comes out again");
        });
    }
    from_slice [17] {
        split(5, |n| {
            let n = n as usize;
            let m = Seq::<4>::fill(n);
            let mut a = m.a;
            let v: V<u32> = V::from(&a[..n]);
            same_vec(&v, &m);
            let w: V<u32> = V::from(&mut a[..n]);
            same_vec(&w, &m);
            let u: V<u32> = unsafe { V::from_in(&a[..n], Plain::default()) };
            same_vec(&u, &m);
            check!(v.as_ref() == &a[..n] && u[..] == w[..], "slices of equal vectors are equal");
        });
    }
    from_array [17] {
        let m = Seq::<4>::fill(3);
        let a = [m.a[0], m.a[1], m.a[2]];
        let v: V<u32> = V::from(&a);
        same_vec(&v, &m);
        let w: V<u32> = V::from(a);
        same_vec(&w, &m);
        let e: V<u32> = V::from([]);
        same_vec(&e, &Seq::<4>::new());
        witness!("end");
    }
    from_iter [17] {
        outer(5, |n| split(n + 1, |low| {
            let s = Seq::<6>::fill(n as usize);
            let v: V<u32> = Hint { s, i: 0, low: low as usize }.collect();
            same_vec(&v, &s);
        }));
    }
    x_push [30] { shapes(6, |l, c| step::<u64, Plain, 12>(PUSH, l, c, 0)); }
    x_insert [30] { outer_shapes(6, |l, c| split(l as u8 + 1, |i| step::<u64, Plain, 12>(INSERT, l, c, i as usize))); }
    x_remove [30] { outer_shapes(6, |l, c| split(l as u8 + 1, |i| step::<u64, Plain, 12>(REMOVE, l, c, i as usize))); }
    x_append [17] { outer_shapes(4, |l, c| split(6, |k| step::<E12, Plain, 12>(APPEND, l, c, k as usize))); }
    x_assign [17] { outer_shapes(4, |l, c| split(6, |k| step::<E12, Plain, 12>(ASSIGN, l, c, k as usize))); }
    x_reserve [17] { outer_shapes(4, |l, c| split(6, |k| step::<E12, Plain, 12>(RESERVE, l, c, k as usize))); }
    x_big_insert [40] { outer(3, |c| split(34, |i| step::<u32, Plain, 40>(INSERT, 33, 33 + c as usize, i as usize))); }
    x_big_remove [40] { split(34, |i| step::<u32, Plain, 40>(REMOVE, 33, 33, i as usize)); }
}
