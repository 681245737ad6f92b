//! String, from every text of up to 3 chars in 14 patterns of widths 1 to 4 (every char of those widths), with room
//! for none or some of what is added: push and insert of any char (and of those at the edges of each width)
//! before every char, pop, remove at every byte index and beyond the end, reserve, clone, assign of any text; every
//! constructor; equality of any two texts of up to 3 bytes; changing the text in place.
use crate::el::*;
use crate::env::{outer, split};
use crate::mstr::*;
use crate::sym;
use eastl_rs::string::String;

harnesses! {
    push_edges [14] { edges::<Plain>(&[0, 1, 4, 6], &[0, 1, 2, 3, 4, 5, 6, 7], PUSH, true); }
    push_any1 [10] { any_char::<Plain>(&[0, 2], 1, PUSH, true); }
    push_any2 [10] { any_char::<Plain>(&[1, 7], 2, PUSH, true); }
    push_any3 [10] { any_char::<Plain>(&[5], 3, PUSH, true); }
    push_any4 [10] { any_char::<Plain>(&[0, 3], 4, PUSH, true); }
    insert_edges [14] { edges::<Plain>(&[1, 6], &[1, 3, 5, 6], INSERT, true); }
    insert_edges2 [14] { edges::<Plain>(&[0, 11], &[0, 2, 4, 7], INSERT, true); }
    insert_any1 [10] { any_char::<Plain>(&[7], 1, INSERT, true); }
    insert_any2 [10] { any_char::<Plain>(&[2], 2, INSERT, true); }
    insert_any3 [10] { any_char::<Plain>(&[1], 3, INSERT, true); }
    pop [18] { pops::<Plain>(0, 14, true); }
    remove1 [16] { removes::<Plain>(0, 5, true); }
    remove2 [16] { removes::<Plain>(5, 8, true); }
    remove3 [16] { removes::<Plain>(11, 13, true); }
    reserve [16] { others::<Plain>(0, 6, RESERVE, true); }
    clone [16] { others::<Plain>(0, 8, CLONE, true); }
    assign [16] { assigns::<Plain>(&[0, 1, 4, 7], &[0, 2, 3, 6], true); }
    fresh_string [12] { fresh::<Plain>(true); }
    // texts with chars that other code might take for something else
    edge_texts [14] {
        outer(6, |i| split(5, |how| {
            let cs: &[u32] = [&[0][..], &[0x61, 0, 0x62], &[0, 0xe9], &[0x61, 0], &[0x20, 0x61, 0x0a], &[0xfeff, 0x61]][i as usize];
            let mut t = T::new();
            for &c in cs {
                t.push(c, width(c));
            }
            let s: String<Plain> = match how {
                0 => String::from(t.str()),
                1 => String::from_in(t.str(), Plain::default()),
                2 => t.str().parse().unwrap(),
                3 => String::from(t.str()).clone(),
                _ => {
                    let mut s = String::from("xy");
                    s.assign(t.str());
                    s
                }
            };
            same_str(&s, &t, true);
            check!(s == String::<Plain>::from(t.str()), "strings of the same text are equal");
            std::mem::forget(s);
        }));
    }
    insert_refuses [14] {
        outer(4, |i| {
            // inside a char, or beyond the end
            let t = T::any(&[1, 3]);
            let mut s: String<Plain> = str_at(&t, 12, true);
            sym::refuses(|| s.insert([2, 3, 5, !0][i as usize], 'x'));
        });
    }
    equality [10] {
        outer(4, |a| split(4, |b| {
            let (t, u) = (T::any(WS[[0, 1, 2, 5][a as usize]]), T::any(WS[[0, 1, 2, 5][b as usize]]));
            let x: String<Plain> = str_at(&t, t.n + a as usize, true);
            let y: String<Plain> = str_at(&u, u.n + b as usize, b != 0);
            let mut same = t.n == u.n;
            let mut i = 0;
            while i < 2 {
                same &= i >= t.n || i >= u.n || t.b[i] == u.b[i];
                i += 1;
            }
            check!((x == y) == same, "strings are equal exactly when their texts are");
            check!((x != y) == !same, "strings are equal exactly when their texts are");
            std::mem::forget((x, y));
        }));
    }
    in_place [10] {
        split(3, |s| {
            let t = T::any(WS[[1, 5, 6][s as usize]]);
            let mut x: String<Plain> = str_at(&t, t.n, true);
            {
                let r: &mut str = &mut x;
                r.make_ascii_uppercase();
            }
            let b = x.as_bytes();
            check!(b.len() == t.n && x.len() == t.n, "length");
            let mut i = 0;
            while i < t.n {
                let c = t.b[i];
                check!(b[i] == if c >= b'a' && c <= b'z' { c - 32 } else { c }, "text changed in place");
                i += 1;
            }
            std::mem::forget(x);
        });
    }
    x_insert_edges [14] { edges::<Plain>(&[2, 3, 4, 5, 7, 8], &[0, 1, 2, 3, 4, 5, 6, 7, 8], INSERT, true); }
    x_push_edges [14] { edges::<Plain>(&[2, 3, 5, 7, 8, 9, 10], &[0, 1, 2, 3, 4, 5, 6, 7, 8], PUSH, true); }
    x_insert_any1 [10] { any_char::<Plain>(&[1, 2, 3, 4], 1, INSERT, true); }
    x_insert_any2 [10] { any_char::<Plain>(&[1, 3, 4, 5], 2, INSERT, true); }
    x_insert_any3 [10] { any_char::<Plain>(&[2, 3, 4, 5], 3, INSERT, true); }
    x_insert_any4 [10] { any_char::<Plain>(&[1, 2, 3, 4, 5], 4, INSERT, true); }
    x_remove4 [16] { removes::<Plain>(8, 11, true); }
    x_remove5 [16] { removes::<Plain>(13, 14, true); }
    x_others [18] { others::<Plain>(6, 14, RESERVE, true); }
    x_clone [18] { others::<Plain>(8, 14, CLONE, true); }
    x_assign [16] { assigns::<Plain>(&[2, 3, 5, 6, 8, 9, 10, 11, 12, 13], &[0, 1, 2, 3, 4, 6, 9, 10, 12, 13], true); }
}
