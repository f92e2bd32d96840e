//! Nondeterminism: the same contract harness runs under two interpreters.
//!
//! * Under Kani (`cfg(kani)`): `any` is a fully symbolic value, `assume` a
//!   precondition, `check!` a proof obligation, `cover!` a reachability
//!   obligation (vacuity guard).
//! * Natively: `any` draws from a biased generator (or from a recorded
//!   counterexample), `assume` skips the case, `check!` fails it.  This is the
//!   replay of a failed obligation against the real code; it decides nothing on
//!   its own when the verifier accepts.

#[cfg(kani)]
mod imp {
    pub trait Nd: kani::Arbitrary {}
    impl<T: kani::Arbitrary> Nd for T {}
    pub fn any<T: Nd>() -> T {
        kani::any()
    }
    pub fn assume(b: bool) {
        kani::assume(b)
    }
    /// for every index below `n`
    pub fn each<F: FnMut(usize)>(n: usize, mut f: F) {
        let j: usize = kani::any();
        if j < n {
            f(j)
        }
    }
}

#[cfg(not(kani))]
mod imp {
    use std::cell::RefCell;
    pub struct Gen {
        pub s: u64,
        pub pool: Vec<i64>,
        pub log: Vec<String>,
        pub vals: Option<std::collections::VecDeque<Vec<u8>>>,
        pub verbose: bool,
    }
    thread_local! {
        pub static GEN: RefCell<Gen> = RefCell::new(Gen { s: 1, pool: vec![], log: vec![], vals: None, verbose: false });
    }
    pub struct Skip;
    thread_local! { pub static HITS: RefCell<std::collections::BTreeMap<&'static str, u64>> = RefCell::new(Default::default()); }
    pub fn hit(l: &'static str) {
        HITS.with(|h| *h.borrow_mut().entry(l).or_insert(0) += 1);
    }
    impl Gen {
        pub fn next(&mut self) -> u64 {
            self.s = self.s.wrapping_add(0x9E3779B97F4A7C15);
            let mut z = self.s;
            z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
            z ^ (z >> 31)
        }
        /// `w` random bytes, biased to boundaries and to constants mined from the source
        pub fn int(&mut self, w: usize) -> u64 {
            if let Some(q) = self.vals.as_mut() {
                let mut r = 0u64;
                match q.pop_front() {
                    Some(v) => {
                        for (i, b) in v.iter().enumerate().take(8) {
                            r |= (*b as u64) << (8 * i);
                        }
                        return r;
                    }
                    None => return 0,
                }
            }
            let k = self.next();
            let r = self.next();
            let v = match k % 16 {
                0 => 0,
                1 => 1,
                2 => u64::MAX,
                3 => 1u64 << (r % 64),
                4 => (1u64 << (r % 64)).wrapping_sub(1),
                5 => i64::MIN as u64,
                6 => i64::MAX as u64,
                7 => (r % 8).wrapping_neg(),
                8..=10 => r % 80,
                11 => r % 300,
                12 if !self.pool.is_empty() => self.pool[(r as usize) % self.pool.len()] as u64,
                13 if !self.pool.is_empty() => (self.pool[(r as usize) % self.pool.len()] as u64)
                    .wrapping_add(k >> 8 & 3)
                    .wrapping_sub(1),
                _ => r,
            };
            if w < 8 {
                v & ((1u64 << (8 * w)) - 1)
            } else {
                v
            }
        }
    }
    pub trait Nd: Sized {
        fn nd() -> Self;
    }
    fn raw(w: usize) -> u64 {
        GEN.with(|g| g.borrow_mut().int(w))
    }
    fn log<F: FnOnce() -> String>(s: F) {
        GEN.with(|g| {
            let mut g = g.borrow_mut();
            if g.verbose {
                g.log.push(s())
            }
        })
    }
    macro_rules! ndint {
        ($($t:ty)*) => {$(
            impl Nd for $t {
                fn nd() -> $t { let v = raw(std::mem::size_of::<$t>()) as $t; log(|| format!("{}:{}", v, stringify!($t))); v }
            }
        )*};
    }
    ndint!(u8 u16 u32 u64 usize i8 i16 i32 i64 isize);
    impl Nd for bool {
        fn nd() -> bool {
            let v = raw(1) & 1 == 1;
            log(|| format!("{}", v));
            v
        }
    }
    impl Nd for f64 {
        fn nd() -> f64 {
            let in_replay = GEN.with(|g| g.borrow().vals.is_some());
            let v = if in_replay {
                f64::from_bits(raw(8))
            } else {
                let k = raw(8);
                let r = raw(8);
                match k % 8 {
                    0 => r as i64 as f64,
                    1 => (r as i64 as f64) / 256.0,
                    2 => 0.0,
                    3 => -0.0,
                    4 => f64::NAN,
                    5 => (r as i8) as f64 + 0.5,
                    6 => f64::INFINITY,
                    _ => f64::from_bits(r),
                }
            };
            log(|| format!("{:?}:f64", v));
            v
        }
    }
    impl Nd for char {
        fn nd() -> char {
            let v = char::from_u32(raw(4) as u32 % 0x300).unwrap_or('x');
            log(|| format!("{:?}", v));
            v
        }
    }
    impl<T: Nd + Copy, const N: usize> Nd for [T; N] {
        fn nd() -> [T; N] {
            let mark = GEN.with(|g| g.borrow().log.len());
            let mut a = [T::nd(); N];
            for i in 1..N {
                a[i] = T::nd();
            }
            if N > 80 {
                GEN.with(|g| {
                    let mut g = g.borrow_mut();
                    if !g.verbose {
                        return;
                    }
                    let head: Vec<String> = g.log[mark..mark + 4].to_vec();
                    g.log.truncate(mark);
                    g.log.push(format!("[{}.. x{}]", head.join(","), N));
                });
            }
            a
        }
    }
    impl<T: Nd> Nd for Option<T> {
        fn nd() -> Option<T> {
            if bool::nd() {
                Some(T::nd())
            } else {
                None
            }
        }
    }
    pub fn any<T: Nd>() -> T {
        T::nd()
    }
    pub fn assume(b: bool) {
        if !b {
            std::panic::panic_any(Skip)
        }
    }
    pub fn each<F: FnMut(usize)>(n: usize, mut f: F) {
        if GEN.with(|g| g.borrow().vals.is_some()) {
            let _ = raw(8);
        }
        for j in 0..n {
            f(j)
        }
    }
}
pub use imp::*;

/// A small count, biased so that native replay meets the precondition often.
pub fn depth() -> u8 {
    let n: u8 = any();
    #[cfg(not(kani))]
    {
        if GEN.with(|g| g.borrow().vals.is_none()) && any::<u8>() % 4 != 0 {
            return n % 66;
        }
    }
    n
}

#[macro_export]
macro_rules! check {
    ($c:expr, $l:expr) => {{
        #[cfg(kani)]
        kani::assert($c, concat!("CONTRACT ", $l));
        #[cfg(not(kani))]
        if !($c) {
            std::panic::panic_any(concat!("CONTRACT ", $l, " failed: ", stringify!($c)));
        }
    }};
}
#[macro_export]
macro_rules! cover {
    ($c:expr, $l:expr) => {{
        #[cfg(not(kani))]
        if $c {
            $crate::nd::hit($l);
        }
    }};
}

/// `contracts!{ name [attr..] { body } ... }` makes one Kani proof harness per
/// contract, plus a native table `TABLE` for replay.
#[macro_export]
macro_rules! contracts {
    ($( $(#[$m:meta])* fn $name:ident () $body:block )*) => {
        $(
            #[cfg_attr(kani, kani::proof)]
            #[cfg_attr(kani, kani::stub(page_size::get, crate::vm::page))]
            $(#[cfg_attr(kani, $m)])*
            pub fn $name() { $body }
        )*
        #[cfg(not(kani))]
        pub const TABLE: &[(&str, fn())] = &[ $( (stringify!($name), $name as fn()) ),* ];
    };
}
