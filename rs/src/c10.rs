//! C10: integer literals have the value of their numeral in the base they name.
use crate::nd::*;
use crate::spec::*;
use crate::vm::*;
use crate::{check, contracts, cover};
use rtforth::core::*;
use rtforth::exception::*;
use rtforth::memory::*;
use rtforth::verif::num::{self, IResult};

const MAX: usize = 40;

// ---- specification
fn dig(c: u8) -> isize {
    match c {
        b'0'..=b'9' => (c - b'0') as isize,
        b'a'..=b'f' => (c - b'a') as isize + 10,
        b'A'..=b'F' => (c - b'A') as isize + 10,
        _ => isize::MAX,
    }
}
/// the value of a numeral modulo the cell size; None: not a numeral in this base
fn val(s: &[u8], base: isize) -> Option<isize> {
    if s.len() == 0 {
        return None;
    }
    let mut v = 0isize;
    let mut i = 0;
    while i < s.len() {
        let d = dig(s[i]);
        if d >= base {
            return None;
        }
        v = v.wrapping_mul(base).wrapping_add(d);
        i += 1;
    }
    Some(v)
}
/// bytes that are likely in numbers
#[cfg(not(kani))]
fn token_byte() -> u8 {
    let b: u8 = any();
    match any::<u8>() % 8 {
        0 => b,
        1 => b"+-%#$'.eE /:@GgZz`"[b as usize % 18],
        2 | 3 => b"0123456789abcdefABCDEF"[b as usize % 22],
        _ => b"0123456789"[b as usize % 10],
    }
}
#[cfg(kani)]
fn token_byte() -> u8 {
    any()
}
/// an arbitrary text of at most MAX bytes
fn text(max: usize) -> ([u8; MAX], usize) {
    #[cfg(kani)]
    let t: [u8; MAX] = any();
    #[cfg(not(kani))]
    let t: [u8; MAX] = {
        let mut t = [0; MAX];
        for b in t.iter_mut() { *b = token_byte() }
        t
    };
    let mut n: usize = any();
    #[cfg(not(kani))]
    {
        n %= max + 1;
        if any::<u8>() % 2 == 0 { n %= 6 }
    }
    assume(n <= max);
    (t, n)
}
fn any_base() -> isize {
    let b: isize = any();
    #[cfg(not(kani))]
    let b = match any::<u8>() % 4 { 0 => b, 1 => 10, 2 => 16, _ => b.wrapping_rem(20).abs() };
    b
}
/// `rest` is the part of `t` from `k` to its end
fn tail(t: &[u8], rest: &[u8], k: usize) -> bool {
    rest.len() == t.len() - k && rest.as_ptr() == unsafe { t.as_ptr().add(k) }
}

// ---- `uint_in_base` by contract (proved by Verus for every length)
static mut NUM: (usize, usize, isize, usize) = (0, 0, 0, 0);
static mut RES: Option<isize> = None;
#[cfg(kani)]
fn uint_by_contract(input: &[u8], base: isize) -> IResult<'_, isize> {
    unsafe {
        NUM = (input.as_ptr() as usize, input.len(), base, NUM.3 + 1);
        let ok: bool = any();
        RES = if ok && input.len() > 0 { Some(any()) } else { None };
        match RES {
            Some(v) => IResult::Done(&input[input.len()..], v),
            None => IResult::Err(RESULT_OUT_OF_RANGE),
        }
    }
}
/// the value the numeral `t[k..n]` has in `base`
fn numeral(t: &[u8], k: usize, n: usize, base: isize) -> Option<isize> {
    #[cfg(kani)]
    {
        let (p, l, b, c) = unsafe { NUM };
        check!(c == 1, "the numeral is read once");
        check!(p == t.as_ptr() as usize + k && l == n - k, "the numeral is what follows prefix and sign");
        check!(b == base, "the base is the prefix's or the current one");
        return unsafe { RES };
    }
    #[cfg(not(kani))]
    val(&t[k..n], base)
}

fn evaluate(compiling: bool) {
    let mut v = Nvm::lean();
    v.s = any_stack();
    let (t, n) = text(MAX);
    let mut mem = [0u8; 8];
    let base = any_base();
    let at = v.ds.start() + 8;
    unsafe { v.ds.put_isize(base, at) };
    v.st.is_compiling = compiling;
    let a = v.snap();
    let tok = unsafe { std::str::from_utf8_unchecked(&t[..n]) };
    v.evaluate_integer(tok);
    let b = v.snap();
    let quoted = n == 3 && t[0] == b'\'' && t[2] == b'\'';
    let want = if quoted {
        cover!(true, "character");
        Some(t[1] as isize)
    } else {
        let mut k = 0;
        let mut bs = base;
        if n > 0 {
            match t[0] {
                b'%' => { bs = 2; k = 1 }
                b'#' => { bs = 10; k = 1 }
                b'$' => { bs = 16; k = 1 }
                _ => {}
            }
        }
        let mut neg = false;
        if n > k && (t[k] == b'+' || t[k] == b'-') {
            neg = t[k] == b'-';
            k += 1;
        }
        numeral(&t, k, n, bs).map(|x| if neg { 0isize.wrapping_sub(x) } else { x })
    };
    match want {
        Some(x) => {
            check!(b.err.is_none(), "a numeral is no error");
            if compiling {
                cover!(true, "compiled");
                check!(b.rec.execs == 1 && b.rec.xt == x as usize, "exactly its value is compiled");
                frame(&a, &Snap { rec: a.rec, ..b }, NONE);
            } else {
                cover!(true, "pushed");
                check!(b.rec.execs == 0 && b.sl == a.sl.wrapping_add(1), "exactly one item is pushed");
                if legal(a.sl, 0, 1) { stack_s(&a, &b, 0, [x]); }
                frame(&a, &b, May { s: true, ..NONE });
            }
        }
        None => {
            cover!(true, "rejected");
            check!(b.err.is_some() && b.rec.aborts == 0 && b.rec.execs == 0, "rejected with an error, nothing compiled");
            frame(&a, &b, May { err: true, ..NONE });
        }
    }
    std::mem::forget(v);
}

contracts! {
    fn sign() {
        let (t, n) = text(MAX);
        let k = (n > 0 && (t[0] == b'+' || t[0] == b'-')) as usize;
        cover!(k == 1, "sign");
        cover!(k == 0, "none");
        match num::sign(&t[..n]) {
            IResult::Done(rest, s) => {
                check!(tail(&t[..n], rest, k), "exactly the sign is read");
                check!(s == if k == 1 && t[0] == b'-' { -1 } else { 1 }, "the sign");
            }
            IResult::Err(_) => check!(false, "no error"),
        }
    }
    fn base() {
        let (t, n) = text(MAX);
        let d = any_base();
        let (k, w) = if n == 0 { (0, d) } else { match t[0] { b'%' => (1, 2), b'#' => (1, 10), b'$' => (1, 16), _ => (0, d) } };
        cover!(k == 1, "prefix");
        cover!(k == 0, "none");
        match num::base(&t[..n], d) {
            IResult::Done(rest, s) => {
                check!(tail(&t[..n], rest, k), "exactly the prefix is read");
                check!(s == w, "the base");
            }
            IResult::Err(_) => check!(false, "no error"),
        }
    }
    fn quoted_char() {
        let (mut t, n) = text(MAX);
        #[cfg(not(kani))]
        if any() { t[0] = b'\''; t[2] = b'\''; }
        let q = n == 3 && t[0] == b'\'' && t[2] == b'\'';
        cover!(q, "quoted");
        cover!(!q, "none");
        match num::quoted_char(&t[..n]) {
            IResult::Done(rest, c) => check!(q && c == t[1] as isize && rest.len() == 0, "the character between the quotes"),
            IResult::Err(_) => check!(!q, "a quoted character is accepted"),
        }
    }
    fn ascii() {
        let (t, n) = text(MAX);
        let c = token_byte();
        let k = n > 0 && t[0] == c;
        cover!(k, "there");
        cover!(!k, "not there");
        match num::ascii(&t[..n], c) {
            IResult::Done(rest, f) => check!(f == k && tail(&t[..n], rest, k as usize), "exactly that character is read"),
            IResult::Err(_) => check!(false, "no error"),
        }
    }
    /// interpretation state
    #[kani::solver(cadical)]
    #[kani::stub(rtforth::verif::num::uint_in_base, uint_by_contract)]
    fn literal_pushed() {
        evaluate(false);
    }
    /// compilation state
    #[kani::solver(cadical)]
    #[kani::stub(rtforth::verif::num::uint_in_base, uint_by_contract)]
    fn literal_compiled() {
        evaluate(true);
    }
    /// BASE is the cell the literals are read with, 10 after start
    #[kani::solver(z3)]
    fn base_word() {
        let mut v = Kvm::any();
        let x = any_base();
        let a = v.snap();
        let at = v.ds.start() + 8;
        check!(unsafe { v.ds.get_isize(at) } == 10, "decimal at the start");
        v.base();
        let b = v.snap();
        cover!(true, "pre");
        if legal(a.sl, 0, 1) { stack_s(&a, &b, 0, [at as isize]); }
        frame(&a, &b, May { s: true, ..NONE });
        std::mem::forget(v);
    }
}
crate::closed! {
    /// the native twin of the Verus proof
    fn number_value_bounded() {
        let (t, n) = text(MAX);
        let base = any_base();
        let r = num::uint_in_base(&t[..n], base);
        let w = val(&t[..n], base);
        cover!(w.is_some(), "numeral");
        cover!(w.is_none(), "no numeral");
        match r {
            IResult::Done(rest, v) => {
                check!(w == Some(v), "the value of the numeral");
                check!(rest.len() == 0, "all of it is read");
            }
            IResult::Err(_) => check!(w.is_none(), "only what is no numeral is rejected"),
        }
    }
    fn bindings() {
        crate::bind::check_bindings(&[("base", Kvm::base, 0)]);
    }
    /// texts typed in: pushed, or compiled and run
    fn literals_bounded() {
        let mut v = crate::bind::dictionary();
        v.st.is_compiling = false;
        for k in 0..6000 {
            let (t, n) = text(if k % 2 == 0 { 8 } else { 24 });
            let t: Vec<u8> = t[..n].iter().map(|c| if *c < 33 || *c > 126 { b'7' } else { *c }).collect();
            let s = String::from_utf8(t.clone()).unwrap();
            if n == 0 || v.find(&s.to_ascii_lowercase()).is_some() || s.contains('e') && val(&t, 16).is_none() { continue; }
            let base = [10, 16, 2, 8][k % 4];
            let at = v.ds.start() + 8;
            unsafe { v.ds.put_isize(base, at) };
            let q = n == 3 && t[0] == b'\'' && t[2] == b'\'';
            let (b, r) = match t[0] { b'%' => (2, 1), b'#' => (10, 1), b'$' => (16, 1), _ => (base, 0) };
            let sg = n > r && (t[r] == b'-' || t[r] == b'+');
            let want = if q { Some(t[1] as isize) } else {
                val(&t[r + sg as usize..], b).map(|x| if sg && t[r] == b'-' { x.wrapping_neg() } else { x })
            };
            hit("typed");
            v.s.len = 0; v.f.len = 0; v.last_error = None;
            v.set_last_token(s.clone());
            v.st.is_compiling = false;
            v.interpret_token();
            match want {
                Some(x) => {
                    assert!(v.last_error.is_none() && v.s.len == 1 && v.s.inner[0] == x, "CONTRACT {} in base {} is {}", s, base, x);
                    // compiled
                    v.s.len = 0;
                    v.ds.align();
                    let here = v.ds.here();
                    v.st.is_compiling = true;
                    v.compile_token();
                    v.st.is_compiling = false;
                    let exit = v.references().idx_exit;
                    v.compile_word(exit);
                    v.st.instruction_pointer = 0;
                    v.r.len = 0;
                    v.r.push(0);
                    v.st.instruction_pointer = here;
                    v.run();
                    assert!(v.last_error.is_none() && v.s.len == 1 && v.s.inner[0] == x, "CONTRACT {} in base {} compiles {}", s, base, x);
                    let _ = v.ds.set_here(here);
                }
                None => if !s.contains('e') && !s.contains('E') {
                    assert!(v.last_error == Some(UNDEFINED_WORD) && v.s.len == 0, "CONTRACT {} in base {} is no number", s, base);
                }
            }
        }
    }
}
