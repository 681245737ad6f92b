//! replay <module::harness> <values file>: runs one harness natively, once, on the values of a
//! counterexample. The file has one line of hex bytes per symbolic value, in call order.
//! Or a line "! next step choices..": selectors from the choices, other values from a series.
//! Exit 0: nothing wrong. 77: the values break an assumption. Anything else: it reproduces.
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let text = std::fs::read_to_string(&a[2]).expect("values file");
    // "! next step choice choice..": values by rule
    if let Some(l) = text.lines().find(|l| l.starts_with('!')) {
        let v: Vec<i64> = l[1..].split_whitespace().map(|x| x.parse().expect("number")).collect();
        let choices = v[2..].iter().map(|x| *x as u8).collect();
        vh::sym::load_fill(vh::sym::Fill { choices, used: Vec::new(), next: v[0] as u64, step: v[1] });
    }
    let vals = text
        .lines()
        .filter(|l| !l.starts_with(['#', '!']))
        .map(|l| {
            (0..l.trim().len() / 2)
                .map(|i| u8::from_str_radix(&l.trim()[2 * i..2 * i + 2], 16).expect("hex"))
                .collect::<Vec<u8>>()
        })
        .collect();
    vh::sym::load(vals);
    for (m, t) in vh::tables() {
        for (n, f) in t {
            if format!("{m}::{n}") == a[1] {
                f();
                vh::sym::say_choices();
                println!("replay: {} ran to its end, no violation", a[1]);
                return;
            }
        }
    }
    eprintln!("replay: no harness {}", a[1]);
    std::process::exit(76);
}
