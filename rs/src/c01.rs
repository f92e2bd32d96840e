//! C01: stack-shuffle words.
use crate::nd::*;
use crate::spec::*;
use crate::vm::*;
use crate::{check, contracts, cover};
use rtforth::core::Core;
use rtforth::float::Float;

contracts! {
    #[kani::solver(z3)]
    fn swap() { op(Kvm::swap, |[a, b]| [b, a]) }
    #[kani::solver(z3)]
    fn dup() { op(Kvm::dup, |[a]| [a, a]) }
    #[kani::solver(z3)]
    fn drop() { op(Kvm::p_drop, |[_a]| []) }
    #[kani::solver(z3)]
    fn over() { op(Kvm::over, |[a, b]| [a, b, a]) }
    #[kani::solver(z3)]
    fn nip() { op(Kvm::nip, |[_a, b]| [b]) }
    #[kani::solver(z3)]
    fn rot() { op(Kvm::rot, |[a, b, c]| [b, c, a]) }
    #[kani::solver(z3)]
    fn minus_rot() { op(Kvm::minus_rot, |[a, b, c]| [c, a, b]) }
    #[kani::solver(z3)]
    fn two_drop() { op(Kvm::two_drop, |[_a, _b]| []) }
    #[kani::solver(z3)]
    fn two_dup() { op(Kvm::two_dup, |[a, b]| [a, b, a, b]) }
    #[kani::solver(z3)]
    fn two_swap() { op(Kvm::two_swap, |[a, b, c, d]| [c, d, a, b]) }
    #[kani::solver(z3)]
    fn two_over() { op(Kvm::two_over, |[a, b, c, d]| [a, b, c, d, a, b]) }
    #[kani::solver(z3)]
    fn depth_word() {
        let mut v = Kvm::any();
        let a = v.snap();
        v.depth();
        let b = v.snap();
        check!(b.sl == a.sl.wrapping_add(1), "net stack effect");
        if legal(a.sl, 0, 1) {
            cover!(true, "pre");
            stack_s(&a, &b, 0, [a.sl as isize]);
        }
        frame(&a, &b, May { s: true, ..NONE });
        std::mem::forget(v);
    }
    #[kani::solver(z3)]
    fn pick() {
        let mut v = Kvm::any();
        let a = v.snap();
        v.pick();
        let b = v.snap();
        check!(b.sl == a.sl, "net stack effect");
        if a.sl >= 1 && a.sl <= 64 {
            let u = top(&a.s, a.sl, 0);
            if 0 <= u && u <= a.sl as isize - 2 {
                cover!(true, "pre");
                stack_s(&a, &b, 1, [top(&a.s, a.sl, u as u8 + 1)]);
            }
            each(a.sl as usize - 1, |j| check!(a.s[j] == b.s[j], "data stack cells below the operands"));
            check!(a.s[64] == b.s[64] && a.s[255] == b.s[255], "data stack guard cells");
        }
        frame(&a, &b, May { s: true, ..NONE });
        std::mem::forget(v);
    }
    #[kani::solver(z3)]
    fn to_r() { rop(Kvm::p_to_r, |[a], []| ([], [a])) }
    #[kani::solver(z3)]
    fn r_from() { rop(Kvm::r_from, |[], [a]| ([a], [])) }
    #[kani::solver(z3)]
    fn r_fetch() { rop(Kvm::r_fetch, |[], [a]| ([a], [a])) }
    #[kani::solver(z3)]
    fn two_to_r() { rop(Kvm::two_to_r, |[a, b], []| ([], [a, b])) }
    #[kani::solver(z3)]
    fn two_r_from() { rop(Kvm::two_r_from, |[], [a, b]| ([a, b], [])) }
    #[kani::solver(z3)]
    fn two_r_fetch() { rop(Kvm::two_r_fetch, |[], [a, b]| ([a, b], [a, b])) }
    #[kani::solver(z3)]
    fn fdup() { fop(Kvm::fdup, |[a]| [a, a]) }
    #[kani::solver(z3)]
    fn fdrop() { fop(Kvm::fdrop, |[_a]| []) }
    #[kani::solver(z3)]
    fn fswap() { fop(Kvm::fswap, |[a, b]| [b, a]) }
    #[kani::solver(z3)]
    fn fnip() { fop(Kvm::fnip, |[_a, b]| [b]) }
    #[kani::solver(z3)]
    fn fover() { fop(Kvm::fover, |[a, b]| [a, b, a]) }
    #[kani::solver(z3)]
    fn frot() { fop(Kvm::frot, |[a, b, c]| [b, c, a]) }
    #[kani::solver(z3)]
    fn fpick() {
        let mut v = Kvm::any();
        let a = v.snap();
        v.fpick();
        let b = v.snap();
        check!(b.sl == a.sl.wrapping_sub(1) && b.fl == a.fl.wrapping_add(1), "net stack effect");
        if legal(a.sl, 1, 0) && legal(a.fl, 0, 1) {
            let u = top(&a.s, a.sl, 0);
            stack_s(&a, &b, 1, []);
            if 0 <= u && u <= a.fl as isize - 1 {
                cover!(true, "pre");
                stack_f(&a, &b, 0, [ftop(&a.f, a.fl, u as u8)]);
            }
        }
        frame(&a, &b, May { s: true, f: true, ..NONE });
        std::mem::forget(v);
    }
}
crate::closed! {
    fn bindings() {
        use crate::bind::*;
        check_bindings(&[
            ("swap", Kvm::swap, 0), ("dup", Kvm::dup, 0), ("drop", Kvm::p_drop, 0), ("over", Kvm::over, 0),
            ("nip", Kvm::nip, 0), ("rot", Kvm::rot, 0), ("-rot", Kvm::minus_rot, 0), ("2drop", Kvm::two_drop, 0),
            ("2dup", Kvm::two_dup, 0), ("2swap", Kvm::two_swap, 0), ("2over", Kvm::two_over, 0),
            ("depth", Kvm::depth, 0), ("pick", Kvm::pick, 0),
            (">r", Kvm::p_to_r, CO), ("r>", Kvm::r_from, CO), ("r@", Kvm::r_fetch, CO),
            ("2>r", Kvm::two_to_r, CO), ("2r>", Kvm::two_r_from, CO), ("2r@", Kvm::two_r_fetch, CO),
            ("fdup", Kvm::fdup, 0), ("fdrop", Kvm::fdrop, 0), ("fswap", Kvm::fswap, 0), ("fnip", Kvm::fnip, 0),
            ("fover", Kvm::fover, 0), ("frot", Kvm::frot, 0), ("fpick", Kvm::fpick, 0),
        ]);
    }
}
