//! One source, two readings. Under Kani every `any_*` is a symbolic variable, `assume`
//! restricts it and `check!` is an assertion for the solver. Natively (the replay binary)
//! the same harness runs once, on the values of a counterexample, against the real build.

#[cfg(kani)]
mod imp {
    macro_rules! prim { ($($f:ident $t:ty),*) => { $( #[inline(always)] pub fn $f() -> $t { kani::any() } )* } }
    prim!(u8 u8, u16 u16, u32 u32, u64 u64, usize usize, i8 i8, i16 i16, i32 i32, i64 i64, isize isize);
    #[inline(always)]
    pub fn assume(c: bool) {
        kani::assume(c)
    }
    #[inline(always)]
    pub fn below(n: u8) -> u8 {
        let v = u8();
        assume(v < n);
        v
    }
}

#[cfg(not(kani))]
mod imp {
    use std::cell::RefCell;
    use std::collections::VecDeque;
    thread_local! {
        static VALS: RefCell<VecDeque<Vec<u8>>> = RefCell::new(VecDeque::new());
        static FILL: RefCell<Option<Fill>> = RefCell::new(None);
    }
    pub fn load(v: Vec<Vec<u8>>) {
        VALS.with(|q| *q.borrow_mut() = v.into());
    }
    /// Values by rule instead of by list: selectors from `choices` (then 0), the others from a series.
    pub struct Fill {
        pub choices: VecDeque<u8>,
        pub used: Vec<(u8, u8)>,
        pub next: u64,
        pub step: i64,
    }
    pub fn load_fill(f: Fill) {
        FILL.with(|q| *q.borrow_mut() = Some(f));
    }
    pub fn say_choices() {
        FILL.with(|q| {
            if let Some(f) = &*q.borrow() {
                let t: Vec<String> = f.used.iter().map(|(v, n)| format!("{v}/{n}")).collect();
                println!("choices: {}", t.join(" "));
            }
        })
    }
    pub fn below(n: u8) -> u8 {
        let c = FILL.with(|q| {
            q.borrow_mut().as_mut().map(|f| {
                let v = f.choices.pop_front().unwrap_or(0);
                f.used.push((v, n));
                v
            })
        });
        let v = c.unwrap_or_else(u8);
        assume(v < n);
        v
    }
    fn take(n: usize) -> u64 {
        let f = FILL.with(|q| {
            q.borrow_mut().as_mut().map(|f| {
                let v = f.next;
                f.next = if f.step == i64::MAX {
                    f.next.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407)
                } else {
                    f.next.wrapping_add(f.step as u64)
                };
                if f.step == i64::MAX { v >> 29 } else { v }
            })
        });
        if let Some(v) = f {
            return v;
        }
        let b = VALS.with(|q| q.borrow_mut().pop_front());
        let Some(b) = b else {
            eprintln!("replay: out of values, continuing with 0");
            return 0;
        };
        if b.len() != n {
            eprintln!("replay: value of {} bytes where {} are needed", b.len(), n);
            std::process::exit(78);
        }
        let mut r = [0u8; 8];
        r[..n].copy_from_slice(&b);
        u64::from_le_bytes(r)
    }
    macro_rules! prim { ($($f:ident $t:ty),*) => { $( pub fn $f() -> $t { take(std::mem::size_of::<$t>()) as $t } )* } }
    prim!(u8 u8, u16 u16, u32 u32, u64 u64, usize usize, i8 i8, i16 i16, i32 i32, i64 i64, isize isize);
    pub fn assume(c: bool) {
        if !c {
            say_choices();
            eprintln!("replay: assumption does not hold");
            std::process::exit(77);
        }
    }
}

pub use imp::*;

#[inline(always)]
pub fn boolean() -> bool {
    u8() & 1 == 1
}


macro_rules! check {
    ($c:expr, $m:literal) => {
        assert!($c, $m)
    };
}

/// The closure must refuse (panic); under Kani the driver expects its panics and nothing else.
pub fn refuses<R>(f: impl FnOnce() -> R) {
    #[cfg(kani)]
    {
        let _r = std::mem::ManuallyDrop::new(f());
        check!(false, "an impossible request was accepted");
    }
    #[cfg(not(kani))]
    {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        check!(r.is_err(), "an impossible request was accepted");
        std::mem::forget(r);
    }
}

/// The closure may refuse (panic) or do its work; `None` when it refused. Harnesses that use it are
/// named `_refuses`: the driver expects panics of the crate there, and only those.
pub fn may_refuse<R>(f: impl FnOnce() -> R) -> Option<R> {
    #[cfg(kani)]
    {
        Some(f())
    }
    #[cfg(not(kani))]
    {
        use std::sync::atomic::{AtomicBool, Ordering};
        static OURS: AtomicBool = AtomicBool::new(false);
        let old = std::panic::take_hook();
        std::panic::set_hook(Box::new(move |i| {
            OURS.store(i.location().map_or(false, |l| l.file().contains("harness/src")), Ordering::SeqCst);
            old(i)
        }));
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
            Ok(r) => Some(r),
            Err(e) if OURS.load(Ordering::SeqCst) => std::panic::resume_unwind(e),
            Err(_) => None,
        }
    }
}

/// A reachability witness: the solver must find an execution that gets here.

macro_rules! witness {
    ($m:literal) => {{
        #[cfg(kani)]
        kani::cover!(true, $m);
    }};
    ($c:expr, $m:literal) => {{
        #[cfg(kani)]
        kani::cover!($c, $m);
        #[cfg(not(kani))]
        let _ = $c;
    }};
}

/// Registers harnesses: a Kani proof each, and an entry of the replay table.

macro_rules! harnesses {
    ($( $(#[$m:meta])* $name:ident [$unwind:literal] $body:block )*) => {
        $(
            $(#[$m])*
            #[cfg_attr(kani, kani::proof)]
            #[cfg_attr(kani, kani::unwind($unwind))]
            #[cfg_attr(kani, kani::stub(<*mut u8>::add, crate::sym::fast::add_mut))]
            #[cfg_attr(kani, kani::stub(<*const u8>::add, crate::sym::fast::add))]
            #[cfg_attr(kani, kani::stub(<*mut u8>::sub, crate::sym::fast::sub_mut))]
            #[cfg_attr(kani, kani::stub(<*const u8>::sub, crate::sym::fast::sub))]
            pub fn $name() $body
        )*
        #[cfg(not(kani))]
        pub const TABLE: &[(&str, fn())] = &[ $( (stringify!($name), $name as fn()) ),* ];
    };
}

/// Pointer steps without Kani's model of their preconditions (some 300 steps of symbolic
/// execution each). The value is the same; that a pointer is not even formed out of bounds is
/// not checked, that none is dereferenced there is.
pub mod fast {
    pub const unsafe fn add_mut<T>(p: *mut T, n: usize) -> *mut T {
        p.wrapping_add(n)
    }
    pub const unsafe fn add<T>(p: *const T, n: usize) -> *const T {
        p.wrapping_add(n)
    }
    pub const unsafe fn sub_mut<T>(p: *mut T, n: usize) -> *mut T {
        p.wrapping_sub(n)
    }
    pub const unsafe fn sub<T>(p: *const T, n: usize) -> *const T {
        p.wrapping_sub(n)
    }
}
