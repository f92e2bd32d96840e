//! C23: float literals are accepted exactly if they are numerals, with their value.
use crate::nd::*;
use crate::spec::*;
use crate::vm::*;
use crate::{check, contracts, cover};
use rtforth::core::*;
use rtforth::exception::*;
use rtforth::memory::*;
use rtforth::verif::num::{self, IResult};

const N: usize = 256;
const L: usize = 21;

fn digits(t: &[u8], mut k: usize) -> usize {
    let a = k;
    while k < t.len() && b'0' <= t[k] && t[k] <= b'9' {
        k += 1;
    }
    k - a
}
#[cfg(not(kani))]
fn token_byte() -> u8 {
    let b: u8 = any();
    match any::<u8>() % 12 {
        0 => b & 127,
        1 | 2 => b"+-.eE.Ee"[b as usize % 8],
        _ => b"0123456789"[b as usize % 10],
    }
}
fn text<const M: usize>() -> ([u8; M], usize) {
    #[cfg(kani)]
    let t: [u8; M] = any();
    #[cfg(not(kani))]
    let t: [u8; M] = core::array::from_fn(|_| token_byte());
    let n: usize = any();
    #[cfg(not(kani))]
    let n = n % (M + 1);
    assume(n <= M);
    (t, n)
}
/// `rest` is the part of `t` from `k` to its end
fn tail(t: &[u8], rest: &[u8], k: usize) -> bool {
    rest.len() == t.len() - k && rest.as_ptr() == unsafe { t.as_ptr().add(k) }
}
/// the digits `t[a..a+k]` as a number, if it fits a cell
fn number(t: &[u8], a: usize, k: usize) -> Option<isize> {
    let mut v: u128 = 0;
    let mut i = 0;
    while i < k {
        v = v * 10 + (t[a + i] - b'0') as u128;
        i += 1;
    }
    if v <= isize::MAX as u128 { Some(v as isize) } else { None }
}

// ---- the digit readers by contract: how many digits, and their value
// (`uint`: proved by Verus for every text; `fraction`: below); 10^n uninterpreted
pub static mut INT: (usize, [usize; 2], [Option<isize>; 2]) = (0, [0; 2], [None; 2]);
pub static mut FRAC: (usize, Option<f64>) = (0, None);
pub static mut POW: (i32, f64, usize) = (0, 1.0, 0);
#[cfg(kani)]
pub fn uint_by_contract(input: &[u8]) -> IResult<'_, isize> {
    unsafe {
        let i = INT.0 & 1;
        INT.0 += 1;
        assume(INT.1[i] <= input.len());
        match INT.2[i] {
            Some(v) => IResult::Done(&input[INT.1[i]..], v),
            None => IResult::Err(RESULT_OUT_OF_RANGE),
        }
    }
}
#[cfg(kani)]
pub fn fraction_by_contract(input: &[u8]) -> IResult<'_, f64> {
    if input.len() == 0 || input[0] != b'.' {
        return IResult::Done(input, 0.0);
    }
    unsafe {
        assume(FRAC.0 <= input.len() - 1);
        match FRAC.1 {
            Some(v) => IResult::Done(&input[1 + FRAC.0..], v),
            None => IResult::Err(RESULT_OUT_OF_RANGE),
        }
    }
}
/// how many digits there are: which reader, and where
fn count(t: &[u8], k: usize, which: usize) -> usize {
    #[cfg(kani)]
    unsafe {
        let n = match which { 0 => INT.1[0], 1 => FRAC.0, _ => INT.1[1] };
        assume(n <= t.len() - k);
        n
    }
    #[cfg(not(kani))]
    digits(t, k)
}
#[cfg(kani)]
pub fn pow_by_contract(b: f64, n: i32) -> f64 {
    unsafe {
        POW.2 += 1;
        POW.0 = n;
        check!(b == 10.0, "a power of ten");
        POW.1
    }
}
/// a float with few significant bits, so that products are cheap to compare
#[cfg(kani)]
fn simple() -> f64 {
    match any::<u8>() % 4 { 0 => 0.0, 1 => 1.0, 2 => 0.5, _ => 4.0 }
}
fn evaluate(compiling: bool, exact: bool) {
    let mut v = Nvm::lean();
    v.s.len = any::<u8>() % 60;
    v.f.len = any::<u8>() % 60;
    let (t, n) = text::<N>();
    v.st.is_compiling = compiling;
    v.refs.idx_flit = 7;
    #[cfg(kani)]
    unsafe {
        INT = (0, any(), any());
        FRAC = (any(), if any() { Some(if exact { simple() } else { any() }) } else { None });
        POW = (0, if exact { simple() } else { any() }, 0);
        if let Some(i) = INT.2[0] { assume(0 <= i && (i <= 3 || !exact)) }
        if let Some(i) = INT.2[1] { assume(0 <= i) }
    }
    let a = v.snap();
    let tok = unsafe { std::str::from_utf8_unchecked(&t[..n]) };
    v.evaluate_float(tok);
    let b = v.snap();
    // the grammar
    let t = &t[..n];
    let mut k = 0;
    let neg = n > 0 && t[0] == b'-';
    if n > 0 && (t[0] == b'-' || t[0] == b'+') { k = 1 }
    let (ip, il) = (k, count(t, k, 0));
    k += il;
    let point = k < n && t[k] == b'.';
    let (fp, fl) = (k + 1, if point && il > 0 { count(t, k + 1, 1) } else { 0 });
    if point { k += 1 + fl }
    let e = k < n && (t[k] == b'E' || t[k] == b'e');
    if e { k += 1 }
    let eneg = e && k < n && t[k] == b'-';
    if e && k < n && (t[k] == b'-' || t[k] == b'+') { k += 1 }
    let (ep, el) = (k, if e && il > 0 { count(t, k, 2) } else { 0 });
    k += el;
    let numeral = il > 0 && e && k == n;
    #[cfg(kani)]
    let (i, f, x) = unsafe { (INT.2[0], if point { FRAC.1 } else { Some(0.0) }, INT.2[1]) };
    #[cfg(not(kani))]
    let (i, f, x) = (number(t, ip, il), if point { number(t, fp, fl).map(|d| d as f64 / 10f64.powi(fl as i32)) } else { Some(0.0) }, number(t, ep, el));
    match (i, f, x) {
        (Some(i), Some(f), Some(x)) if numeral => {
            let p = if eneg { -(x as i128) } else { x as i128 };
            let p = if p > i32::MAX as i128 { i32::MAX } else if p < i32::MIN as i128 { i32::MIN } else { p as i32 };
            #[cfg(kani)]
            let pow = unsafe {
                check!(POW.2 == 1 && POW.0 == p, "the exponent");
                POW.1
            };
            #[cfg(not(kani))]
            let pow = 10f64.powi(p);
            let want = (if neg { -1.0 } else { 1.0 }) * (i as f64 + f) * pow;
            cover!(true, "numeral");
            check!(b.err.is_none(), "a numeral is no error");
            if compiling {
                check!(b.rec.execs == 1 && (!exact || feq(f64::from_bits(b.rec.xt as u64), want)), "exactly its value is compiled");
                frame(&a, &Snap { rec: a.rec, ..b }, NONE);
            } else {
                check!(b.rec.execs == 0, "nothing is compiled");
                stack_f(&a, &b, 0, [if exact { want } else { ftop(&b.f, b.fl, 0) }]);
                frame(&a, &b, May { f: true, ..NONE });
            }
        }
        _ => {
            cover!(!numeral, "no numeral");
            check!(b.err.is_some() && b.rec.aborts == 0 && b.rec.execs == 0, "rejected with an error, nothing compiled");
            frame(&a, &b, May { err: true, ..NONE });
        }
    }
    std::mem::forget(v);
}

contracts! {
    #[kani::solver(cadical)]
    #[kani::unwind(12)]
    #[kani::stub(rtforth::verif::num::uint, uint_by_contract)]
    #[kani::stub(rtforth::verif::num::fraction, fraction_by_contract)]
    #[kani::stub(f64::powi, pow_by_contract)]
    fn literal_pushed() { evaluate(false, false) }
    #[kani::solver(cadical)]
    #[kani::unwind(12)]
    #[kani::stub(rtforth::verif::num::uint, uint_by_contract)]
    #[kani::stub(rtforth::verif::num::fraction, fraction_by_contract)]
    #[kani::stub(f64::powi, pow_by_contract)]
    fn literal_compiled() { evaluate(true, false) }
    #[kani::solver(cadical)]
    #[kani::unwind(12)]
    #[kani::stub(rtforth::verif::num::uint, uint_by_contract)]
    #[kani::stub(rtforth::verif::num::fraction, fraction_by_contract)]
    #[kani::stub(f64::powi, pow_by_contract)]
    fn value_pushed_bounded() { evaluate(false, true) }
    #[kani::solver(cadical)]
    #[kani::unwind(12)]
    #[kani::stub(rtforth::verif::num::uint, uint_by_contract)]
    #[kani::stub(rtforth::verif::num::fraction, fraction_by_contract)]
    #[kani::stub(f64::powi, pow_by_contract)]
    fn value_compiled_bounded() { evaluate(true, true) }
    #[kani::solver(cadical)]
    #[kani::unwind(9)]
    #[kani::stub(f64::powi, pow_by_contract)]
    fn fraction_bounded() {
        let (t, n) = text::<6>();
        #[cfg(kani)]
        unsafe { POW = (0, if any() { 1.0 } else { 4.0 }, 0) }
        let point = n > 0 && t[0] == b'.';
        let k = if point { digits(&t[..n], 1) } else { 0 };
        cover!(point, "point");
        match num::fraction(&t[..n]) {
            IResult::Done(rest, v) => {
                check!(tail(&t[..n], rest, point as usize + k), "exactly the fraction is read");
                let d = number(&t, 1, k).unwrap_or(0);
                #[cfg(kani)]
                let p = unsafe {
                    check!(!point || POW.0 == k as i32, "as many places as digits");
                    POW.1
                };
                #[cfg(not(kani))]
                let p = 10f64.powi(k as i32);
                check!(if point { feq(v, d as f64 / p) } else { v == 0.0 }, "the fraction");
            }
            IResult::Err(_) => check!(false, "no error"),
        }
    }
}
crate::closed! {
    /// the native twin of the Verus proof
    fn uint_bounded() {
        for _ in 0..40 {
            let (mut t, n) = text::<L>();
            if any() { for c in t.iter_mut() { *c = b'0' + *c % 10 } }
            if any::<u8>() % 4 == 0 { t[..19].copy_from_slice(b"9223372036854775807"); t[18] = b'5' + any::<u8>() % 5; }
            let k = digits(&t[..n], 0);
            hit("text");
            match (num::uint(&t[..n]), number(&t, 0, k)) {
                (IResult::Done(rest, v), Some(w)) => {
                    check!(tail(&t[..n], rest, k), "exactly the digits are read");
                    check!(v == w, "the number");
                }
                (IResult::Err(_), None) => {}
                _ => check!(false, "an error exactly if the number does not fit a cell"),
            }
        }
    }
    /// texts typed in: pushed, or compiled and run; values against std's parser
    fn literals_bounded() {
        let mut v = crate::bind::dictionary();
        for k in 0..6000 {
            let (t, n) = text::<24>();
            let mut s = String::new();
            if k % 2 == 0 {
                s += ["", "-", "+"][any::<u8>() as usize % 3];
                for _ in 0..1 + any::<u8>() % 12 { s.push((b'0' + any::<u8>() % 10) as char) }
                if any() { s.push('.'); for _ in 0..any::<u8>() % 9 { s.push((b'0' + any::<u8>() % 10) as char) } }
                s.push(if any() { 'e' } else { 'E' });
                s += ["", "-", "+"][any::<u8>() as usize % 3];
                if any() { s += &format!("{}", any::<u8>() % 200) }
            } else {
                s = t[..n].iter().map(|c| if *c < 33 || *c > 126 { '7' } else { *c as char }).collect();
            }
            if s.is_empty() || v.find(&s).is_some() { continue }
            let integer = !s.contains('e') && !s.contains('E') && !s.contains('.');
            if integer || s.starts_with('$') || s.starts_with('%') || s.starts_with('#') || s.starts_with('\'') { continue }
            let b = s.as_bytes();
            let mut i = (b[0] == b'-' || b[0] == b'+') as usize;
            let d = digits(b, i);
            i += d;
            let mut fl = 0;
            if i < b.len() && b[i] == b'.' { fl = digits(b, i + 1); i += 1 + fl }
            let e = i < b.len() && (b[i] == b'e' || b[i] == b'E');
            let m = i;
            i += e as usize;
            if e && i < b.len() && (b[i] == b'-' || b[i] == b'+') { i += 1 }
            let x = digits(b, i);
            if d > 18 || fl > 18 || x > 18 { continue }
            let numeral = d > 0 && e && i + x == b.len();
            hit("typed");
            v.s.len = 0; v.f.len = 0; v.r.len = 0; v.last_error = None; v.handler = usize::MAX;
            v.set_last_token(s.clone());
            v.st.is_compiling = false;
            v.interpret_token();
            if !numeral {
                assert!(v.last_error == Some(UNDEFINED_WORD) && v.f.len == 0 && v.s.len == 0, "CONTRACT {} is no number: {:?} {} {}", s, v.last_error, v.f.len, v.s.len);
                continue;
            }
            assert!(v.last_error.is_none() && v.f.len == 1 && v.s.len == 0, "CONTRACT {} is one float", s);
            let r = v.f.inner[0];
            let exp = &s[m + 1..];
            let exp = if exp.is_empty() || exp == "-" || exp == "+" { "0" } else { exp };
            let want: f64 = format!("{}e{}", s[..m].trim_end_matches('.'), exp).parse().unwrap();
            let ten: i64 = exp.parse().unwrap();
            if want.abs() < 1e290 && (want == 0.0 || want.abs() > 1e-290) && ten.abs() < 290 {
                assert!((r - want).abs() <= want.abs() * 1e-12, "CONTRACT {} is {:?}, not {:?}", s, want, r);
            }
            // compiled
            v.f.len = 0;
            v.ds.align();
            let here = v.ds.here();
            v.st.is_compiling = true;
            v.set_last_token(s.clone());
            v.compile_token();
            v.st.is_compiling = false;
            let exit = v.references().idx_exit;
            v.compile_word(exit);
            v.r.push(0);
            v.st.instruction_pointer = here;
            v.run();
            assert!(v.last_error.is_none() && v.f.len == 1 && feq(v.f.inner[0], r), "CONTRACT {} compiled is {:?}, not {:?}", s, v.f.inner[0], r);
            let _ = v.ds.set_here(here);
        }
    }
}
