//! String in memory: the steps of C08 with the raw object looked at: begin, end and capacity, the terminator
//! behind the last char, the text as C++ reads it, and the one block of capacity + 1 bytes returned as allocated.
//! Also strings with storage of every capacity 0..=5, and constructors with every capacity 0..=5.
use crate::el::*;
use crate::env::{split, Led};
use crate::mstr::*;
use crate::sym;
use eastl_rs::string::String;

harnesses! {
    push_edges [14] { edges::<Led>(&[0, 1, 5], &[0, 2, 5, 6], PUSH, false); }
    push_any2 [10] { any_char::<Led>(&[1, 7], 2, PUSH, false); }
    push_any4 [10] { any_char::<Led>(&[0], 4, PUSH, false); }
    insert_edges [14] { edges::<Led>(&[1, 6], &[1, 3, 5], INSERT, false); }
    insert_any1 [10] { any_char::<Led>(&[2], 1, INSERT, false); }
    insert_any3 [10] { any_char::<Led>(&[1], 3, INSERT, false); }
    pop [18] { pops::<Led>(0, 14, false); }
    remove1 [16] { removes::<Led>(0, 5, false); }
    remove2 [16] { removes::<Led>(5, 7, false); }
    remove3 [16] { removes::<Led>(11, 12, false); }
    reserve [16] { others::<Led>(0, 6, RESERVE, false); }
    clone [16] { others::<Led>(0, 8, CLONE, false); }
    assign [16] { assigns::<Led>(&[0, 1, 4, 7], &[0, 2, 3, 6], false); }
    fresh_string [12] { fresh::<Led>(false); }
    // every capacity, filled up and beyond
    capacity [12] {
        split(6, |c| {
            Led::reset();
            let mut s: String<Led> = String::with_capacity(c as usize);
            let mut t = T::new();
            same_str(&s, &t, false);
            block(&s);
            let mut i = 0;
            while i < c as usize + 1 {
                let x = 0x61 + i as u32;
                s.push(unsafe { char::from_u32_unchecked(x) });
                t.push(x, 1);
                i += 1;
            }
            same_str(&s, &t, false);
            block(&s);
            drop(s);
            Led::finish();
        });
    }
    // what a string leaves behind the text does not matter
    shrink [12] {
        split(3, |u| {
            Led::reset();
            let mut s: String<Led> = str_at(&T::any(&[3, 4]), 7, true);
            let t = T::any([&[][..], &[1], &[2]][u as usize]);
            s.assign(t.str());
            same_str(&s, &t, false);
            s.reserve(3);
            same_str(&s, &t, false);
            block(&s);
            check!(s.remove(9).is_none(), "nothing starts beyond the end");
            s.pop();
            let n = if u == 0 { T::new() } else { T::new() };
            same_str(&s, &n, false);
            drop(s);
            Led::finish();
        });
    }
    x_insert_edges [14] { edges::<Led>(&[2, 3, 4, 5, 7, 8], &[0, 1, 2, 3, 4, 5, 6, 7], INSERT, false); }
    x_push_edges [14] { edges::<Led>(&[2, 3, 4, 6, 7, 8, 9, 10], &[0, 1, 2, 3, 4, 5, 6, 7], PUSH, false); }
    x_insert_any2 [10] { any_char::<Led>(&[1, 3, 4, 5], 2, INSERT, false); }
    x_insert_any4 [10] { any_char::<Led>(&[1, 2, 3, 4, 5], 4, INSERT, false); }
    x_remove4 [16] { removes::<Led>(8, 11, false); }
    x_remove5 [16] { removes::<Led>(12, 14, false); }
    x_reserve [18] { others::<Led>(6, 14, RESERVE, false); }
    x_clone [18] { others::<Led>(8, 14, CLONE, false); }
    x_assign [16] { assigns::<Led>(&[2, 3, 5, 6, 8, 9, 10, 11, 12, 13], &[0, 1, 2, 3, 4, 6, 9, 10, 12, 13], false); }
}
