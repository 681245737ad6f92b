//! Deque, 40-byte elements (EASTL's smallest block: 4 elements), two operations in a row (push or pop at either
//! end, every pair) from states with the first element at every offset of its block and 0..=5 elements (0..=12
//! thorough); removal at every index of such states and beyond the end (len, len + 1 and the largest index).
//! Block table: every number and position of used blocks in a table of 4 slots and some in one of 8 (all of 8,
//! some of 18 thorough), pushed over at the full end, then pushed or popped again. 64-element blocks (u32) at a
//! block boundary. Writes, construction from iterators, new, Queue. Values symbolic.
use crate::el::*;
use crate::env::{outer, split};
use crate::mdeque::*;
use crate::sym;
use eastl_rs::deque::Deque;
use eastl_rs::queue::Queue;

type E = E40;
fn at(table: usize, first: usize, off: usize, n: usize) -> At {
    At { table, first, off, n }
}
/// States inside the table, `ns` elements each.
fn inner(op1: u8, off: usize, ns: &[usize]) {
    outer(ns.len() as u8, |n| split(4, |op2| step2::<E, Plain, 16>(at(4, 1, off, ns[n as usize]), op1, op2)));
}
/// The last slot is in use and its block is about to be filled: push_back must find room.
fn table_back(firsts: &[usize], op2: u8, table: usize, off: usize) {
    split(firsts.len() as u8, |f| {
        let first = firsts[f as usize];
        let n = (table - first) * 4 - 1 - off;
        step2s::<E, Plain, 80>(at(table, first, off, n), PUSH_BACK, op2)
    });
}
/// The first slot is in use and its block is full to the front: push_front must find room.
fn table_front(used: &[usize], op2: u8, table: usize, end: usize) {
    split(used.len() as u8, |u| {
        let n = used[u as usize] * 4 + end;
        step2s::<E, Plain, 80>(at(table, 0, 0, n), PUSH_FRONT, op2)
    });
}
fn removal(off: usize, ns: &[usize]) {
    outer(ns.len() as u8, |n| {
        let n = ns[n as usize];
        split(n as u8 + 3, |k| step_remove::<E, Plain, 16>(at(4, 1, off, n), if k as usize == n + 2 { !0 } else { k as usize }))
    });
}
fn queue_history() {
    let mut q: Queue<'static, u32, Plain> = Queue::default();
    check!(q.is_empty() && q.len() == 0 && q.top().is_none() && q.pop().is_none(), "a new queue is empty");
    let (a, b, c) = (sym::u32(), sym::u32(), sym::u32());
    q.push(a);
    q.push(b);
    check!(q.len() == 2 && !q.is_empty() && q.top() == Some(&a), "the first pushed is on top");
    check!(q.pop() == Some(a), "first in, first out");
    q.push(c);
    let mut it = q.iter();
    check!(it.next() == Some(&b) && it.next() == Some(&c) && it.next().is_none(), "a queue iterates in order");
    for e in q.iter_mut() {
        *e = !*e;
    }
    check!(q.pop() == Some(!b) && q.pop() == Some(!c) && q.pop().is_none() && q.is_empty(), "first in, first out");
    let mut q: Queue<'static, u32, Plain> = [a, b].into_iter().collect();
    q.push(c);
    let mut d = q.into_inner();
    let mut m = Seq::<4>::new();
    m.push(a);
    m.push(b);
    m.push(c);
    same_deque(&mut d, &m);
}

harnesses! {
    iter_ways [33] { crate::c16::deque_ways(crate::c16::AT[5], 0); }
    iter_mut_ways [33] { crate::c16::deque_ways(crate::c16::AT[7], 1); }
    pop_back0 [26] { inner(POP_BACK, 0, &[0, 1, 3, 4, 5]); }
    pop_back1 [26] { inner(POP_BACK, 1, &[0, 1, 3, 4]); }
    pop_back3 [26] { inner(POP_BACK, 3, &[0, 1, 2, 5]); }
    pop_front0 [26] { inner(POP_FRONT, 0, &[0, 1, 3, 4, 5]); }
    pop_front2 [26] { inner(POP_FRONT, 2, &[0, 1, 2, 3]); }
    pop_front3 [26] { inner(POP_FRONT, 3, &[0, 1, 2, 5]); }
    push_back0 [26] { inner(PUSH_BACK, 0, &[0, 2, 3, 4]); }
    push_back3 [26] { inner(PUSH_BACK, 3, &[0, 1, 3, 4]); }
    push_front0 [26] { inner(PUSH_FRONT, 0, &[0, 2, 3, 4]); }
    push_front1 [26] { inner(PUSH_FRONT, 1, &[0, 2, 3, 4]); }
    x_pop_back2 [26] { inner(POP_BACK, 2, &[0, 1, 2, 3, 4, 5, 6, 7, 8]); }
    x_pop_front1 [26] { inner(POP_FRONT, 1, &[0, 1, 2, 3, 4, 5, 6, 7, 8]); }
    x_push_back1 [26] { inner(PUSH_BACK, 1, &[0, 1, 2, 3, 4, 5, 6, 7, 8]); }
    x_push_back2 [26] { inner(PUSH_BACK, 2, &[0, 1, 2, 3, 4, 5, 6, 7, 8]); }
    x_push_front2 [26] { inner(PUSH_FRONT, 2, &[0, 1, 2, 3, 4, 5, 6, 7, 8]); }
    x_push_front3 [26] { inner(PUSH_FRONT, 3, &[0, 1, 2, 3, 4, 5, 6, 7, 8]); }
    x_pop_back [26] { inner(POP_BACK, 0, &[2, 6, 7, 8, 9, 11]); }
    x_pop_front [26] { inner(POP_FRONT, 3, &[3, 4, 6, 7, 8]); }
    remove0 [26] { removal(0, &[0, 1, 4]); }
    remove1 [26] { removal(1, &[3, 4]); }
    remove2 [26] { removal(2, &[1, 2, 3]); }
    remove3 [26] { removal(3, &[2, 5]); }
    remove6 [26] { split(7, |k| step_remove::<E, Plain, 16>(at(4, 1, 2, 6), k as usize)); }
    x_remove0 [26] { removal(0, &[2, 3, 5, 6, 7, 8, 9]); }
    x_remove1 [26] { removal(1, &[2, 5, 6, 7, 8, 9]); }
    x_remove2 [26] { removal(2, &[4, 5, 7, 8, 9]); }
    x_remove3 [26] { removal(3, &[1, 3, 4, 6, 7, 8]); }
    write [26] { outer(4, |o| split(3, |n| step_write::<E, Plain, 16>(at(4, 1, o as usize, [0, 2, 5][n as usize])))); }
    // every position of the used blocks in a table of 4 slots
    table_back_b [26] { table_back(&[0, 1, 2, 3], PUSH_BACK, 4, 2); }
    table_back_f [26] { table_back(&[0, 1, 2, 3], PUSH_FRONT, 4, 0); }
    table_back_p [26] { table_back(&[0, 1, 2, 3], POP_BACK, 4, 1); }
    table_front_b [26] { table_front(&[0, 1, 2, 3], PUSH_BACK, 4, 3); }
    table_front_f [26] { table_front(&[0, 1, 2, 3], PUSH_FRONT, 4, 0); }
    table_front_p [26] { table_front(&[0, 1, 2, 3], POP_FRONT, 4, 1); }
    // some in a table of 8
    table8_back [40] { table_back(&[7, 6, 4], PUSH_BACK, 8, 3); }
    table8_back_full [40] { table_back(&[1, 0], POP_FRONT, 8, 3); }
    table8_front [40] { table_front(&[0, 1, 3], PUSH_FRONT, 8, 0); }
    table8_front_full [40] { table_front(&[6, 7], POP_BACK, 8, 0); }
    x_table8_back_b [40] { table_back(&[0, 1, 2, 3, 5], PUSH_BACK, 8, 0); }
    x_table8_back_p [40] { table_back(&[2, 3, 4, 5, 6], POP_BACK, 8, 1); }
    x_table8_front_f [40] { table_front(&[2, 4, 5, 6, 7], PUSH_FRONT, 8, 0); }
    x_table8_front_p [40] { table_front(&[1, 2, 3, 4, 5], POP_FRONT, 8, 2); }
    x_table18_back [80] { table_back(&[17, 15, 12, 9, 5], PUSH_BACK, 18, 0); }
    x_table18_front [80] { table_front(&[1, 4, 8, 12], PUSH_FRONT, 18, 3); }
    // 64 elements to a block
    block64 [70] {
        outer(2, |p| split(4, |op1| if p == 0 {
            step2::<u32, Plain, 70>(at(8, 3, 62, 1), op1, PUSH_BACK)
        } else {
            step2::<u32, Plain, 70>(at(8, 3, 63, 2), op1, POP_FRONT)
        }));
    }
    fresh [16] {
        split(4, |op1| {
            let mut d: Deque<'static, E, Plain> = if op1 & 1 == 0 { Deque::new() } else { Deque::default() };
            let mut m = Seq::<8>::new();
            same_deque(&mut d, &m);
            check!(d.remove(sym::usize()).is_none(), "an empty deque gives nothing");
            op(&mut d, &mut m, op1);
            op(&mut d, &mut m, PUSH_FRONT);
            op(&mut d, &mut m, PUSH_BACK);
            op(&mut d, &mut m, op1);
            same_deque(&mut d, &m);
        });
    }
    collect [16] {
        split(6, |n| {
            let m = Seq::<6>::fill(n as usize);
            let mut d: Deque<'static, E, Plain> = crate::ways::NoHint((0..n as usize).map(|i| E::mk(m.a[i]))).collect();
            same_deque(&mut d, &m);
        });
    }
    queue [16] { queue_history(); witness!("end"); }
}
