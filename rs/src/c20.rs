//! C20: floating-point arithmetic, comparison and conversion words.
use crate::nd::*;
use crate::spec::*;
use crate::vm::*;
use crate::{check, contracts, cover};
use rtforth::float::Float;

/// std's functions of one or two floats as uninterpreted functions: `R` is the
/// value at the operands (A, B) of the word.  Natively it is the std function.
pub mod uf {
    pub static mut A: f64 = 0.0;
    pub static mut B: f64 = 0.0;
    pub static mut R: f64 = 0.0;
    pub static mut S: f64 = 0.0;
    #[cfg(kani)]
    fn same(a: f64, b: f64) -> bool {
        a.to_bits() == b.to_bits()
    }
    #[cfg(kani)]
    pub fn f1(a: f64) -> f64 {
        unsafe { if same(a, A) { R } else { kani::any() } }
    }
    #[cfg(kani)]
    pub fn f11(a: f64) -> (f64, f64) {
        unsafe { if same(a, A) { (R, S) } else { (kani::any(), kani::any()) } }
    }
    #[cfg(kani)]
    pub fn f2(a: f64, b: f64) -> f64 {
        unsafe { if same(a, A) && same(b, B) { R } else { kani::any() } }
    }
}
/// ( F: r1 -- r2 ) with r2 the function's value at r1
fn fn1(w: fn(&mut Kvm), f: fn(f64) -> f64) {
    let mut v = Kvm::any();
    let a = v.snap();
    let x = ftop(&a.f, a.fl, 0);
    unsafe {
        uf::A = x;
        #[cfg(kani)]
        { uf::R = any(); }
        #[cfg(not(kani))]
        { uf::R = f(x); }
    }
    w(&mut v);
    let b = v.snap();
    check!(b.fl == a.fl, "net stack effect");
    if legal(a.fl, 1, 1) {
        cover!(true, "pre");
        stack_f(&a, &b, 1, [unsafe { uf::R }]);
    }
    frame(&a, &b, May { f: true, ..NONE });
    std::mem::forget(v);
}
/// ( F: r1 r2 -- r3 ) with r3 the function's value at (r1, r2)
fn fn2(w: fn(&mut Kvm), f: fn(f64, f64) -> f64) {
    let mut v = Kvm::any();
    let a = v.snap();
    let (x, y) = (ftop(&a.f, a.fl, 1), ftop(&a.f, a.fl, 0));
    unsafe {
        uf::A = x;
        uf::B = y;
        #[cfg(kani)]
        { uf::R = any(); }
        #[cfg(not(kani))]
        { uf::R = f(x, y); }
    }
    w(&mut v);
    let b = v.snap();
    check!(b.fl == a.fl.wrapping_sub(1), "net stack effect");
    if legal(a.fl, 2, 1) {
        cover!(true, "pre");
        stack_f(&a, &b, 2, [unsafe { uf::R }]);
    }
    frame(&a, &b, May { f: true, ..NONE });
    std::mem::forget(v);
}
/// ( F: P floats -- ) ( -- flag )
fn fcmp<const P: usize>(w: fn(&mut Kvm), spec: fn([f64; P]) -> isize) {
    let mut v = Kvm::any();
    #[cfg(not(kani))]
    if P > 1 && any::<u8>() % 4 == 0 {
        // equal operands are rare otherwise
        let l = v.f.len;
        v.f.inner[l.wrapping_sub(1) as usize] = v.f.inner[l.wrapping_sub(2) as usize];
        if P == 3 {
            v.f.inner[l.wrapping_sub(3) as usize] = v.f.inner[l.wrapping_sub(2) as usize];
            v.f.inner[l.wrapping_sub(1) as usize] = any::<u8>() as f64 - 1.0;
        }
    }
    let a = v.snap();
    w(&mut v);
    let b = v.snap();
    check!(b.fl == a.fl.wrapping_sub(P as u8) && b.sl == a.sl.wrapping_add(1), "net stack effect");
    if legal(a.fl, P, 0) && legal(a.sl, 0, 1) {
        cover!(true, "pre");
        let mut xs = [0f64; P];
        let mut i = 0;
        while i < P {
            xs[i] = a.f[a.fl.wrapping_sub((P - i) as u8) as usize];
            i += 1;
        }
        stack_s(&a, &b, 0, [spec(xs)]);
        stack_f(&a, &b, P, []);
    }
    frame(&a, &b, May { s: true, f: true, ..NONE });
    std::mem::forget(v);
}
fn extreme(w: fn(&mut Kvm), less: bool) {
    let mut v = Kvm::any();
    let a = v.snap();
    w(&mut v);
    let b = v.snap();
    check!(b.fl == a.fl.wrapping_sub(1), "net stack effect");
    if legal(a.fl, 2, 1) {
        let (x, y, r) = (ftop(&a.f, a.fl, 1), ftop(&a.f, a.fl, 0), ftop(&b.f, b.fl, 0));
        cover!(true, "pre");
        check!(feq(r, x) || feq(r, y), "the result is one of the operands");
        if !x.is_nan() && !y.is_nan() {
            check!(if less { r <= x && r <= y } else { r >= x && r >= y }, "the result is the extreme one");
        }
        let _ = stack_f(&a, &b, 2, [r]);
    }
    frame(&a, &b, May { f: true, ..NONE });
    std::mem::forget(v);
}

/// value of an operation on the top floats, operands with `prec` fraction bits
/// (nothing else changes: `fframe`, `cframe`)
fn value<const P: usize>(w: fn(&mut Kvm), spec: fn([f64; P]) -> f64, prec: u32) {
    let mut v = Kvm::any();
    v.f.len = P as u8;
    let xs = operands::<P>(&mut v, prec);
    cover!(true, "pre");
    w(&mut v);
    check!(v.f.len == 1, "one result");
    check!(feq(v.f.inner[0], spec(xs)), "float stack result");
    std::mem::forget(v);
}
fn operands<const P: usize>(v: &mut Kvm, prec: u32) -> [f64; P] {
    let mut xs = [0f64; P];
    let mut i = 0;
    while i < P {
        #[cfg(kani)]
        { xs[i] = f64::from_bits(any::<u64>() & !((1u64 << (52 - prec)) - 1)); }
        #[cfg(not(kani))]
        { xs[i] = if i > 0 && any::<u8>() % 4 == 0 { xs[i - 1] } else { any() }; }
        v.f.inner[i] = xs[i];
        i += 1;
    }
    xs
}
/// two floats are replaced by one; everything else is as before
fn fframe(w: fn(&mut Kvm)) {
    let mut v = Kvm::any();
    let a = v.snap();
    w(&mut v);
    let b = v.snap();
    check!(b.fl == a.fl.wrapping_sub(1), "net stack effect");
    if legal(a.fl, 2, 1) {
        cover!(true, "pre");
        each(a.fl as usize - 2, |j| check!(a.f[j].to_bits() == b.f[j].to_bits(), "float stack cells below the operands"));
        check!(a.f[64].to_bits() == b.f[64].to_bits() && a.f[255].to_bits() == b.f[255].to_bits(), "float stack guard cells");
    }
    frame(&a, &b, May { f: true, ..NONE });
    std::mem::forget(v);
}
fn near(a: f64, b: f64, t: f64) -> isize {
    flag(if t > 0.0 { (a - b).abs() < t }
         else if t == 0.0 { a == b }
         else { (a - b).abs() < t.abs() * (a.abs() + b.abs()) })
}

contracts! {
    #[kani::solver(cadical)]
    fn fplus_value() { value(Kvm::fplus, |[a, b]| a + b, 52) }
    #[kani::solver(cadical)]
    fn fminus_value() { value(Kvm::fminus, |[a, b]| a - b, 52) }
    #[kani::solver(cadical)]
    fn fstar_value_bounded() { value(Kvm::fstar, |[a, b]| a * b, 8) }
    #[kani::solver(cadical)]
    fn fslash_value_bounded() { value(Kvm::fslash, |[a, b]| a / b, 4) }
    #[kani::solver(z3)]
    fn fplus() { fframe(Kvm::fplus) }
    #[kani::solver(z3)]
    fn fminus() { fframe(Kvm::fminus) }
    #[kani::solver(z3)]
    fn fstar() { fframe(Kvm::fstar) }
    #[kani::solver(z3)]
    fn fslash() { fframe(Kvm::fslash) }
    #[kani::solver(cadical)]
    fn fproximate_value_bounded() {
        let mut v = Kvm::any();
        v.f.len = 3;
        v.s.len = 0;
        let [a, b, t] = operands::<3>(&mut v, 3);
        #[cfg(not(kani))]
        let t = if any::<bool>() { (any::<u8>() as f64 - 100.0) / 16.0 } else { t };
        v.f.inner[2] = t;
        cover!(true, "pre");
        v.fproximate();
        check!(v.f.len == 0 && v.s.len == 1, "one flag");
        check!(v.s.inner[0] == near(a, b, t), "data stack result");
        std::mem::forget(v);
    }
    #[kani::solver(cadical)]
    fn fproximate() {
        let mut v = Kvm::any();
        let a = v.snap();
        v.fproximate();
        let b = v.snap();
        check!(b.fl == a.fl.wrapping_sub(3) && b.sl == a.sl.wrapping_add(1), "net stack effect");
        if legal(a.fl, 3, 0) && legal(a.sl, 0, 1) {
            cover!(true, "pre");
            let r = top(&b.s, b.sl, 0);
            check!(r == 0 || r == -1, "a flag");
            stack_s(&a, &b, 0, [r]);
            stack_f(&a, &b, 3, []);
        }
        frame(&a, &b, May { s: true, f: true, ..NONE });
        std::mem::forget(v);
    }
    #[kani::solver(z3)]
    fn fnegate() { fop(Kvm::fnegate, |[a]| [-a]) }
    #[kani::solver(z3)]
    fn fabs() { fop(Kvm::fabs, |[a]| [if a.is_sign_negative() { -a } else { a }]) }
    #[kani::solver(z3)]
    fn pi() { fop(Kvm::pi, |[]| [3.141592653589793]) }
    #[kani::solver(z3)]
    fn fmin() { extreme(Kvm::fmin, true) }
    #[kani::solver(z3)]
    fn fmax() { extreme(Kvm::fmax, false) }
    #[kani::solver(z3)]
    fn f_zero_less_than() { fcmp(Kvm::f_zero_less_than, |[a]| flag(a < 0.0)) }
    #[kani::solver(z3)]
    fn f_zero_equals() { fcmp(Kvm::f_zero_equals, |[a]| flag(a == 0.0)) }
    #[kani::solver(z3)]
    fn f_less_than() { fcmp(Kvm::f_less_than, |[a, b]| flag(a < b)) }
    #[kani::solver(z3)]
    fn s_to_f() {
        let mut v = Kvm::any();
        let a = v.snap();
        v.s_to_f();
        let b = v.snap();
        check!(b.fl == a.fl.wrapping_add(1) && b.sl == a.sl.wrapping_sub(1), "net stack effect");
        if legal(a.fl, 0, 1) && legal(a.sl, 1, 0) {
            cover!(true, "pre");
            stack_f(&a, &b, 0, [top(&a.s, a.sl, 0) as f64]);
            stack_s(&a, &b, 1, []);
        }
        frame(&a, &b, May { s: true, f: true, ..NONE });
        std::mem::forget(v);
    }
    #[kani::solver(z3)]
    fn f_to_s() {
        let mut v = Kvm::any();
        let a = v.snap();
        v.f_to_s();
        let b = v.snap();
        check!(b.fl == a.fl.wrapping_sub(1) && b.sl == a.sl.wrapping_add(1), "net stack effect");
        if legal(a.fl, 1, 0) && legal(a.sl, 0, 1) {
            let x = ftop(&a.f, a.fl, 0);
            let n = top(&b.s, b.sl, 0);
            if x > -9.2e18 && x < 9.2e18 {
                cover!(true, "pre");
                check!(n == x as i64 as isize, "the integer part");
            }
            stack_s(&a, &b, 0, [n]);
            stack_f(&a, &b, 1, []);
        }
        frame(&a, &b, May { s: true, f: true, ..NONE });
        std::mem::forget(v);
    }
    #[kani::solver(z3)]
    #[kani::stub(f64::floor, uf::f1)]
    fn floor() { fn1(Kvm::floor, f64::floor) }
    #[kani::solver(z3)]
    #[kani::stub(f64::round, uf::f1)]
    fn fround() { fn1(Kvm::fround, f64::round) }
    #[kani::solver(z3)]
    #[kani::stub(f64::ceil, uf::f1)]
    fn fceil() { fn1(Kvm::fceil, f64::ceil) }
    #[kani::solver(z3)]
    #[kani::stub(f64::sqrt, uf::f1)]
    fn fsqrt() { fn1(Kvm::fsqrt, f64::sqrt) }
    #[kani::solver(z3)]
    #[kani::stub(f64::sin, uf::f1)]
    fn fsin() { fn1(Kvm::fsin, f64::sin) }
    #[kani::solver(z3)]
    #[kani::stub(f64::cos, uf::f1)]
    fn fcos() { fn1(Kvm::fcos, f64::cos) }
    #[kani::solver(z3)]
    #[kani::stub(f64::tan, uf::f1)]
    fn ftan() { fn1(Kvm::ftan, f64::tan) }
    #[kani::solver(z3)]
    #[kani::stub(f64::asin, uf::f1)]
    fn fasin() { fn1(Kvm::fasin, f64::asin) }
    #[kani::solver(z3)]
    #[kani::stub(f64::acos, uf::f1)]
    fn facos() { fn1(Kvm::facos, f64::acos) }
    #[kani::solver(z3)]
    #[kani::stub(f64::atan, uf::f1)]
    fn fatan() { fn1(Kvm::fatan, f64::atan) }
    #[kani::solver(z3)]
    #[kani::stub(f64::atan2, uf::f2)]
    fn fatan2() { fn2(Kvm::fatan2, f64::atan2) }
    #[kani::solver(z3)]
    #[kani::stub(f64::powf, uf::f2)]
    fn fpowf() { fn2(Kvm::fpowf, f64::powf) }
    #[kani::solver(z3)]
    #[kani::stub(f64::sin_cos, uf::f11)]
    fn fsincos() {
        let mut v = Kvm::any();
        let a = v.snap();
        let x = ftop(&a.f, a.fl, 0);
        unsafe {
            uf::A = x;
            #[cfg(kani)]
            { uf::R = any(); uf::S = any(); }
            #[cfg(not(kani))]
            { uf::R = x.sin(); uf::S = x.cos(); }
        }
        v.fsincos();
        let b = v.snap();
        check!(b.fl == a.fl.wrapping_add(1), "net stack effect");
        if legal(a.fl, 1, 2) {
            cover!(true, "pre");
            stack_f(&a, &b, 1, unsafe { [uf::R, uf::S] });
        }
        frame(&a, &b, May { f: true, ..NONE });
        std::mem::forget(v);
    }
}
crate::closed! {
    fn bindings() {
        use crate::bind::*;
        check_bindings(&[
            ("f+", Kvm::fplus, 0), ("f-", Kvm::fminus, 0), ("f*", Kvm::fstar, 0), ("f/", Kvm::fslash, 0),
            ("fnegate", Kvm::fnegate, 0), ("fabs", Kvm::fabs, 0), ("pi", Kvm::pi, 0), ("fmin", Kvm::fmin, 0),
            ("fmax", Kvm::fmax, 0), ("f0<", Kvm::f_zero_less_than, 0), ("f0=", Kvm::f_zero_equals, 0),
            ("f<", Kvm::f_less_than, 0), ("f~", Kvm::fproximate, 0), ("s>f", Kvm::s_to_f, 0), ("f>s", Kvm::f_to_s, 0),
            ("floor", Kvm::floor, 0), ("fround", Kvm::fround, 0), ("fceil", Kvm::fceil, 0), ("fsqrt", Kvm::fsqrt, 0),
            ("fsin", Kvm::fsin, 0), ("fcos", Kvm::fcos, 0), ("ftan", Kvm::ftan, 0), ("fasin", Kvm::fasin, 0),
            ("facos", Kvm::facos, 0), ("fatan", Kvm::fatan, 0), ("fatan2", Kvm::fatan2, 0), ("f**", Kvm::fpowf, 0),
            ("fsincos", Kvm::fsincos, 0),
        ]);
    }
}
