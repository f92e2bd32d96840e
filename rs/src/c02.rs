//! C02: integer arithmetic, comparison, bit and address-unit words.
use crate::nd::*;
use crate::spec::*;
use crate::vm::*;
use crate::{check, contracts, cover};
use rtforth::core::Core;
use rtforth::env::Environment;
use rtforth::float::Float;

/// std's multiplication and division as uninterpreted functions: `R*` is the
/// result for the operands (A, B), which are the two operands of the word.
/// (The verifier cannot relate two 64-bit multipliers or dividers.)
pub mod uf {
    pub static mut A: isize = 0;
    pub static mut B: isize = 0;
    pub static mut MUL: isize = 0;
    pub static mut DIV: isize = 0;
    pub static mut REM: isize = 0;
    #[cfg(kani)]
    pub fn mul(a: isize, b: isize) -> isize {
        unsafe { if (a == A && b == B) || (a == B && b == A) { MUL } else { kani::any() } }
    }
    #[cfg(kani)]
    pub fn div(a: isize, b: isize) -> isize {
        assert!(b != 0);
        unsafe { if a == A && b == B { DIV } else { kani::any() } }
    }
    #[cfg(kani)]
    pub fn rem(a: isize, b: isize) -> isize {
        assert!(b != 0);
        unsafe { if a == A && b == B { REM } else { kani::any() } }
    }
    pub fn set(a: isize, b: isize) {
        use crate::nd::*;
        unsafe {
            A = a;
            B = b;
            #[cfg(kani)]
            {
                MUL = any();
                DIV = any();
                REM = any();
            }
            #[cfg(not(kani))]
            {
                MUL = a.wrapping_mul(b);
                if b != 0 {
                    DIV = a.wrapping_div(b);
                    REM = a.wrapping_rem(b);
                }
            }
        }
    }
}

/// division family: divisor zero raises DIVISION_BY_ZERO and nothing else
fn div<const Q: usize>(w: fn(&mut Kvm), spec: fn() -> [isize; Q]) {
    let mut v = Kvm::any();
    let a = v.snap();
    let (n, t) = (top(&a.s, a.sl, 1), top(&a.s, a.sl, 0));
    uf::set(n, t);
    w(&mut v);
    let b = v.snap();
    if a.sl >= 2 && a.sl <= 64 {
        if t == 0 {
            cover!(true, "division by zero");
            check!(b.rec.aborts == 1 && b.err == Some(rtforth::exception::DIVISION_BY_ZERO), "division by zero is reported");
            check!(b.sl == 0 && b.fl == 0 && b.cl == 0, "nothing is pushed after the error");
            frame(&a, &b, May { s: true, f: true, cl: true, err: true, ..NONE });
        } else {
            cover!(true, "pre");
            stack_s(&a, &b, 2, spec());
            frame(&a, &b, May { s: true, ..NONE });
        }
    }
    std::mem::forget(v);
}
fn shift(w: fn(&mut Kvm), spec: fn(isize, u32) -> isize) {
    let mut v = Kvm::any();
    let a = v.snap();
    w(&mut v);
    let b = v.snap();
    check!(b.sl == a.sl.wrapping_sub(1), "net stack effect");
    if a.sl >= 2 && a.sl <= 64 {
        let u = top(&a.s, a.sl, 0);
        if 0 <= u && u < 64 {
            cover!(true, "pre");
            stack_s(&a, &b, 2, [spec(top(&a.s, a.sl, 1), u as u32)]);
        }
        each(a.sl as usize - 2, |j| check!(a.s[j] == b.s[j], "data stack cells below the operands"));
    }
    frame(&a, &b, May { s: true, ..NONE });
    std::mem::forget(v);
}
fn add(a: isize, b: isize) -> isize {
    a.wrapping_add(b)
}

contracts! {
    #[kani::solver(z3)]
    fn plus() { op(Kvm::plus, |[a, b]| [add(a, b)]) }
    #[kani::solver(z3)]
    fn minus() { op(Kvm::minus, |[a, b]| [a.wrapping_sub(b)]) }
    #[kani::solver(z3)]
    #[kani::stub(isize::wrapping_mul, uf::mul)]
    fn star() {
        let mut v = Kvm::any();
        let a = v.snap();
        uf::set(top(&a.s, a.sl, 1), top(&a.s, a.sl, 0));
        v.star();
        let b = v.snap();
        check!(b.sl == a.sl.wrapping_sub(1), "net stack effect");
        if legal(a.sl, 2, 1) {
            cover!(true, "pre");
            stack_s(&a, &b, 2, [unsafe { uf::MUL }]);
        }
        frame(&a, &b, May { s: true, ..NONE });
        std::mem::forget(v);
    }
    #[kani::solver(z3)]
    #[kani::stub(isize::wrapping_div, uf::div)]
    #[kani::stub(isize::wrapping_rem, uf::rem)]
    fn slash() { div(Kvm::slash, || [unsafe { uf::DIV }]) }
    #[kani::solver(z3)]
    #[kani::stub(isize::wrapping_div, uf::div)]
    #[kani::stub(isize::wrapping_rem, uf::rem)]
    fn p_mod() { div(Kvm::p_mod, || [unsafe { uf::REM }]) }
    #[kani::solver(z3)]
    #[kani::stub(isize::wrapping_div, uf::div)]
    #[kani::stub(isize::wrapping_rem, uf::rem)]
    fn slash_mod() { div(Kvm::slash_mod, || unsafe { [uf::REM, uf::DIV] }) }
    #[kani::solver(z3)]
    fn one_plus() { op(Kvm::one_plus, |[a]| [add(a, 1)]) }
    #[kani::solver(z3)]
    fn one_minus() { op(Kvm::one_minus, |[a]| [add(a, -1)]) }
    #[kani::solver(z3)]
    fn negate() { op(Kvm::negate, |[a]| [0isize.wrapping_sub(a)]) }
    #[kani::solver(z3)]
    fn abs() { op(Kvm::abs, |[a]| [if a < 0 { 0isize.wrapping_sub(a) } else { a }]) }
    #[kani::solver(z3)]
    fn invert() { op(Kvm::invert, |[a]| [a ^ -1]) }
    #[kani::solver(z3)]
    fn and() { op(Kvm::and, |[a, b]| [a & b]) }
    #[kani::solver(z3)]
    fn or() { op(Kvm::or, |[a, b]| [a | b]) }
    #[kani::solver(z3)]
    fn xor() { op(Kvm::xor, |[a, b]| [a ^ b]) }
    #[kani::solver(z3)]
    fn lshift() { shift(Kvm::lshift, |a, u| a.wrapping_shl(u)) }
    #[kani::solver(z3)]
    fn rshift() { shift(Kvm::rshift, |a, u| (a as usize).wrapping_shr(u) as isize) }
    #[kani::solver(z3)]
    fn zero_less() { op(Kvm::zero_less, |[a]| [flag(a < 0)]) }
    #[kani::solver(z3)]
    fn zero_equals() { op(Kvm::zero_equals, |[a]| [flag(a == 0)]) }
    #[kani::solver(z3)]
    fn zero_greater() { op(Kvm::zero_greater, |[a]| [flag(a > 0)]) }
    #[kani::solver(z3)]
    fn zero_not_equals() { op(Kvm::zero_not_equals, |[a]| [flag(a != 0)]) }
    #[kani::solver(z3)]
    fn equals() { op(Kvm::equals, |[a, b]| [flag(a == b)]) }
    #[kani::solver(z3)]
    fn not_equals() { op(Kvm::not_equals, |[a, b]| [flag(a != b)]) }
    #[kani::solver(z3)]
    fn less_than() { op(Kvm::less_than, |[a, b]| [flag(a < b)]) }
    #[kani::solver(z3)]
    fn greater_than() { op(Kvm::greater_than, |[a, b]| [flag(a > b)]) }
    #[kani::solver(z3)]
    fn within() { op(Kvm::within, |[x, lo, hi]| [flag(lo <= x && x < hi)]) }
    #[kani::solver(z3)]
    fn p_true() { op(Kvm::p_true, |[]| [-1]) }
    #[kani::solver(z3)]
    fn p_false() { op(Kvm::p_false, |[]| [0]) }
    #[kani::solver(z3)]
    fn cell_plus() { op(Kvm::cell_plus, |[a]| [add(a, 8)]) }
    #[kani::solver(z3)]
    fn cells() { op(Kvm::cells, |[a]| [a.wrapping_mul(8)]) }
    #[kani::solver(z3)]
    fn char_plus() { op(Kvm::char_plus, |[a]| [add(a, 1)]) }
    #[kani::solver(z3)]
    fn float_plus() { op(Kvm::float_plus, |[a]| [add(a, 8)]) }
    #[kani::solver(z3)]
    fn floats() { op(Kvm::floats, |[a]| [a.wrapping_mul(8)]) }
    #[kani::solver(z3)]
    fn aligned() { op(Kvm::aligned, |[a]| [add(a, 7) & !7]) }
    #[kani::solver(z3)]
    fn faligned() { op(Kvm::faligned, |[a]| [add(a, 7) & !7]) }
    #[kani::solver(z3)]
    fn max_n() { op(Kvm::max_n, |[]| [0x7fff_ffff_ffff_ffff]) }
    #[kani::solver(z3)]
    fn max_u() { op(Kvm::max_u, |[]| [-1]) }
    #[kani::solver(z3)]
    fn noop() { op(Kvm::noop, |[]| []) }
}
crate::closed! {
    fn bindings() {
        use crate::bind::*;
        check_bindings(&[
            ("+", Kvm::plus, 0), ("-", Kvm::minus, 0), ("*", Kvm::star, 0), ("/", Kvm::slash, 0), ("mod", Kvm::p_mod, 0),
            ("/mod", Kvm::slash_mod, 0), ("1+", Kvm::one_plus, 0), ("1-", Kvm::one_minus, 0), ("negate", Kvm::negate, 0),
            ("abs", Kvm::abs, 0), ("invert", Kvm::invert, 0), ("and", Kvm::and, 0), ("or", Kvm::or, 0), ("xor", Kvm::xor, 0),
            ("lshift", Kvm::lshift, 0), ("rshift", Kvm::rshift, 0), ("0<", Kvm::zero_less, 0), ("0=", Kvm::zero_equals, 0),
            ("not", Kvm::zero_equals, 0), ("0>", Kvm::zero_greater, 0), ("0<>", Kvm::zero_not_equals, 0), ("=", Kvm::equals, 0),
            ("<>", Kvm::not_equals, 0), ("<", Kvm::less_than, 0), (">", Kvm::greater_than, 0), ("within", Kvm::within, 0),
            ("true", Kvm::p_true, 0), ("false", Kvm::p_false, 0), ("cell+", Kvm::cell_plus, 0), ("cells", Kvm::cells, 0),
            ("char+", Kvm::char_plus, 0), ("float+", Kvm::float_plus, 0), ("floats", Kvm::floats, 0),
            ("aligned", Kvm::aligned, 0), ("faligned", Kvm::faligned, 0), ("max-n", Kvm::max_n, 0), ("max-u", Kvm::max_u, 0),
            ("noop", Kvm::noop, 0),
        ]);
    }
}
