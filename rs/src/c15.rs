//! C15: an error stops the program in a defined state and is reported once.
use crate::nd::*;
use crate::spec::*;
use crate::vm::*;
use crate::{check, contracts, cover};
use rtforth::core::*;
use rtforth::exception::*;
use rtforth::memory::*;

static mut RAN: usize = 0;
static mut SEEN: (Option<Exception>, u8, u8, u8, u8, usize) = (None, 0, 0, 0, 0, 0);
fn handler<V: Core>(v: &mut V) {
    unsafe {
        RAN += 1;
        SEEN = (v.last_error(), v.s_stack().len, v.f_stack().len, v.c_stack().len, v.r_stack().len, v.state().aborted_word_pointer);
    }
}
/// all the exceptions of the standard numbering
fn any_exception() -> Exception {
    let k: u8 = any();
    match k % 12 {
        0 => ABORT, 1 => STACK_OVERFLOW, 2 => STACK_UNDERFLOW, 3 => RETURN_STACK_UNDERFLOW, 4 => INVALID_MEMORY_ADDRESS,
        5 => DIVISION_BY_ZERO, 6 => UNDEFINED_WORD, 7 => UNSUPPORTED_OPERATION, 8 => CONTROL_STRUCTURE_MISMATCH,
        9 => INVALID_NUMERIC_ARGUMENT, 10 => FILE_IO_EXCEPTION, _ => UNEXPECTED_END_OF_FILE,
    }
}
/// `n` words, all of them `action`
fn words(v: &mut Avm, n: usize, action: fn(&mut Avm)) {
    let mut i = 0;
    while i < n {
        v.add_primitive("", action);
        v.wl[i] = Word::new(action, Avm::compile_word, any(), any());
        i += 1;
    }
}
fn abort_from(v: &mut Avm, run: fn(&mut Avm, Exception), expect: Exception) {
    let h: usize = any();
    #[cfg(not(kani))]
    let h = h % 4;
    v.handler = h;
    v.c.len = any();
    unsafe { RAN = 0 };
    let a = v.snap();
    run(v, expect);
    let b = v.snap();
    check!(b.err == Some(expect), "the error is recorded");
    check!(b.sl == 0 && b.fl == 0 && b.cl == 0, "data, float and control stacks are empty");
    check!(b.awp == a.wp, "the word that failed is recorded");
    if h < 2 {
        cover!(true, "handled");
        check!(unsafe { RAN } == 1, "the handler runs exactly once");
        check!(unsafe { SEEN } == (Some(expect), 0, 0, 0, a.rl, a.wp), "the handler sees the error and empty stacks");
        check!(b.wp == h, "the handler runs as the word it is");
    } else {
        cover!(true, "no handler");
        check!(unsafe { RAN } == 0, "nothing runs");
        check!(b.wp == a.wp, "the word pointer stays");
    }
    check!(b.rec.aborts == 0, "the real abort");
    frame(&a, &Snap { awp: a.awp, wp: a.wp, rec: a.rec, ..b }, May { s: true, f: true, cl: true, err: true, wp: true, ..NONE });
}

contracts! {
    #[kani::unwind(8)]
    fn abort_with() {
        let mut v = Avm::any();
        words(&mut v, 2, handler::<Avm>);
        v.last_error = if any() { Some(any_exception()) } else { None };
        let e = any_exception();
        abort_from(&mut v, |v, e| v.abort_with(e), e);
        std::mem::forget(v);
    }
    #[kani::unwind(8)]
    fn abort() {
        let mut v = Avm::any();
        words(&mut v, 2, handler::<Avm>);
        abort_from(&mut v, |v, _| v.abort(), ABORT);
        std::mem::forget(v);
    }
    /// a token that is no word: same as any other error, and with the token as
    /// the failing word
    #[kani::unwind(8)]
    fn invalid_token() {
        let mut v = Avm::any();
        words(&mut v, 2, handler::<Avm>);
        let h: usize = any();
        #[cfg(not(kani))]
        let h = h % 4;
        v.handler = h;
        let t: usize = any();
        assume(t >= 2);
        unsafe { RAN = 0 };
        v.execute_word(t);
        cover!(h < 2, "handled");
        cover!(h >= 2, "no handler");
        check!(v.last_error == Some(UNSUPPORTED_OPERATION), "the error is recorded");
        check!(v.s.len == 0 && v.f.len == 0, "the stacks are empty");
        check!(v.st.aborted_word_pointer == t, "the word that failed is recorded");
        check!(unsafe { RAN } == (h < 2) as usize, "the handler runs once if there is one");
        std::mem::forget(v);
    }
    /// RESET: a new beginning that keeps data, float and control stacks
    #[kani::solver(z3)]
    #[kani::unwind(258)]
    fn reset() {
        let mut v = Raw::any();
        v.c.len = any();
        let e = any_exception();
        v.last_error = if any() { Some(e) } else { None };
        let a = v.snap();
        v.reset();
        let b = v.snap();
        cover!(a.err.is_some(), "pre");
        check!(b.err.is_none(), "no error");
        check!(b.rl == 0 && b.sidx == 0 && b.sid == 0 && !b.compiling && b.awp == 0, "input, return stack and state are reset");
        check!(!v.r.overflow() && !v.r.underflow(), "the return stack is usable again");
        frame(&a, &Snap { rc: a.rc, ..b }, May { r: true, input: true, compiling: true, wp: true, ..NONE });
        check!(b.wp == a.wp, "word pointer");
        check!(v.r.canary == a.rc, "canary");
        std::mem::forget(v);
    }
    /// RESET forgets the rest of the input line
    #[kani::unwind(258)]
    fn reset_input() {
        let mut v = Raw::lean();
        v.inbuf = Some(String::from("ab"));
        v.reset();
        cover!(true, "pre");
        check!(v.inbuf.as_ref().map(|s| s.len()) == Some(0), "the input buffer is kept and empty");
        std::mem::forget(v);
    }
    #[kani::solver(z3)]
    fn clear_stacks() {
        let mut v = Kvm::any();
        v.c.len = any();
        assume(!v.f.canary.is_nan());
        let a = v.snap();
        v.clear_stacks();
        let b = v.snap();
        cover!(true, "pre");
        check!(b.sl == 0 && b.fl == 0 && b.cl == 0, "data, float and control stacks are empty");
        check!(!v.s.overflow() && !v.s.underflow() && !v.f.overflow() && !v.f.underflow() && !v.c.overflow() && !v.c.underflow(), "and usable");
        frame(&a, &b, May { s: true, f: true, cl: true, ..NONE });
        std::mem::forget(v);
    }
    /// ERROR reports the standard code, 0 without error, and keeps the error
    #[kani::solver(z3)]
    fn error() {
        let mut v = Kvm::any();
        let e = any_exception();
        v.last_error = if any() { Some(e) } else { None };
        let a = v.snap();
        v.error();
        let b = v.snap();
        let n = match a.err { Some(e) => isize::from(e), None => 0 };
        cover!(n == -9, "error");
        cover!(n == 0, "none");
        check!(b.sl == a.sl.wrapping_add(1), "net stack effect");
        if legal(a.sl, 0, 1) { stack_s(&a, &b, 0, [n]); }
        check!(b.err == a.err, "the error is kept");
        frame(&a, &Snap { err: None, ..b }, May { s: true, ..NONE });
        std::mem::forget(v);
    }
    #[kani::solver(z3)]
    fn clear_error() {
        let mut v = Kvm::any();
        let e = any_exception();
        v.last_error = if any() { Some(e) } else { None };
        let a = v.snap();
        v.clear_error();
        let b = v.snap();
        cover!(a.err.is_some(), "pre");
        frame(&a, &b, NONE);
        std::mem::forget(v);
    }
    #[kani::solver(z3)]
    fn handler_store() {
        let mut v = Kvm::any();
        let a = v.snap();
        v.handler_store();
        let b = v.snap();
        check!(b.sl == a.sl.wrapping_sub(1), "net stack effect");
        check!(b.handler == top(&a.s, a.sl, 0) as usize, "the handler is set");
        if legal(a.sl, 1, 0) { cover!(true, "pre"); stack_s(&a, &b, 1, []); }
        frame(&a, &b, May { s: true, handler: true, ..NONE });
        std::mem::forget(v);
    }
    /// the codes are those of the standard
    fn codes() {
        cover!(true, "pre");
        let t = [(ABORT, -1), (ABORT_QUOTE, -2), (STACK_OVERFLOW, -3), (STACK_UNDERFLOW, -4), (RETURN_STACK_OVERFLOW, -5),
            (RETURN_STACK_UNDERFLOW, -6), (INVALID_MEMORY_ADDRESS, -9), (DIVISION_BY_ZERO, -10), (RESULT_OUT_OF_RANGE, -11),
            (UNDEFINED_WORD, -13), (INTERPRETING_A_COMPILE_ONLY_WORD, -14), (UNSUPPORTED_OPERATION, -21),
            (CONTROL_STRUCTURE_MISMATCH, -22), (INVALID_NUMERIC_ARGUMENT, -24), (FILE_IO_EXCEPTION, -37),
            (NON_EXISTENT_FILE, -38), (UNEXPECTED_END_OF_FILE, -39), (FLOATING_POINT_DIVIDED_BY_ZERO, -42),
            (FLOATING_POINT_STACK_OVERFLOW, -44), (FLOATING_POINT_STACK_UNDERFLOW, -45), (QUIT, -56)];
        let k: usize = any();
        #[cfg(not(kani))]
        let k = k % 21;
        assume(k < 21);
        check!(isize::from(t[k].0) == t[k].1, "the code of the standard");
    }
}
crate::closed! {
    fn bindings() {
        crate::bind::check_bindings(&[
            ("abort", Kvm::abort, 0), ("reset", Kvm::reset, 0), ("0stacks", Kvm::clear_stacks, 0), ("error", Kvm::error, 0),
            ("0error", Kvm::clear_error, 0), (".error", Kvm::dot_error, 0), ("handler!", Kvm::handler_store, 0), ("?stacks", Kvm::check_stacks, 0),
        ]);
    }
    /// .error prints the description of the pending error and nothing without one
    fn dot_error() {
        hit("pre");
        let mut seen = std::collections::BTreeSet::new();
        for e in [ABORT, STACK_OVERFLOW, STACK_UNDERFLOW, RETURN_STACK_OVERFLOW, RETURN_STACK_UNDERFLOW, INVALID_MEMORY_ADDRESS,
            DIVISION_BY_ZERO, UNDEFINED_WORD, INTERPRETING_A_COMPILE_ONLY_WORD, UNSUPPORTED_OPERATION, CONTROL_STRUCTURE_MISMATCH,
            INVALID_NUMERIC_ARGUMENT, FILE_IO_EXCEPTION, NON_EXISTENT_FILE, UNEXPECTED_END_OF_FILE, FLOATING_POINT_STACK_OVERFLOW,
            FLOATING_POINT_STACK_UNDERFLOW] {
            let mut v = Kvm::lean();
            v.out = Some(String::from("x"));
            v.dot_error();
            assert_eq!(v.out.as_ref().unwrap(), "x", "CONTRACT nothing is printed without an error");
            v.last_error = Some(e);
            v.dot_error();
            let o = v.out.as_ref().unwrap().clone();
            assert!(o.len() > 1 && o[1..] == *description(e), "CONTRACT the description is printed");
            assert!(seen.insert(o), "CONTRACT each error has its own description");
            assert!(v.last_error == Some(e) && v.s.len == 0, "CONTRACT nothing else changes");
        }
    }
}
