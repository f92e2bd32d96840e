//! C03: stacks are total and overflow/underflow is detected.
use crate::nd::*;
use crate::spec::*;
use crate::vm::*;
use crate::{check, contracts, cover};
use rtforth::core::*;
use rtforth::exception::*;

pub fn any_control() -> Control {
    let (x, y): (usize, usize) = (any(), any());
    match any::<u8>() % 10 {
        0 => Control::Default,
        1 => Control::Canary,
        2 => Control::If(x),
        3 => Control::Else(x),
        4 => Control::Begin(x),
        5 => Control::While(x),
        6 => Control::Do(x, y),
        7 => Control::Case,
        8 => Control::Of(x),
        _ => Control::Endof(x),
    }
}
fn two() -> Control {
    if any() { Control::Begin(any()) } else { Control::Canary }
}
/// how a stack cell is compared and produced
pub trait Cell: Default + Copy + PartialEq + std::fmt::Display {
    fn same(self, o: Self) -> bool;
    const WIDE: bool = false;
    fn make() -> Self;
    fn mk_stack() -> Stack<Self>;
}
impl Cell for isize {
    fn same(self, o: isize) -> bool { self == o }
    fn make() -> isize { any() }
    fn mk_stack() -> Stack<isize> { any_stack() }
}
impl Cell for f64 {
    fn same(self, o: f64) -> bool { self.to_bits() == o.to_bits() }
    fn make() -> f64 { any() }
    fn mk_stack() -> Stack<f64> { any_stack() }
}
impl Cell for Control {
    fn same(self, o: Control) -> bool { self == o }
    const WIDE: bool = true;
    fn make() -> Control { two() }
    fn mk_stack() -> Stack<Control> {
        let mut st = Stack { inner: [Control::Canary; 256], len: depth(), canary: Control::Canary };
        st.inner[64] = two();
        st.inner[255] = two();
        let mut k = 3u8;
        while k > 0 {
            st.inner[st.len.wrapping_sub(k) as usize] = two();
            k -= 1;
        }
        st
    }
}
fn at<T: Cell>(s: &Stack<T>, back: u8) -> T {
    s.inner[s.len.wrapping_sub(back) as usize]
}
/// the other cells: all of them, or (wide cells, where the generic code is the
/// same) the guard cells and the bottom
fn others<F: FnMut(usize)>(wide: bool, mut f: F) {
    if wide {
        f(64);
        f(255);
        f(0);
    } else {
        each(256, f);
    }
}
/// `push`, `push2`, `push3` write exactly the cells above the top
fn pushes<T: Cell>(n: u8, f: fn(&mut Stack<T>, T, T, T)) {
    let mut s = T::mk_stack();
    let (a, old, l, can) = ([T::make(), T::make(), T::make()], s.inner, s.len, s.canary);
    f(&mut s, a[0], a[1], a[2]);
    cover!(true, "pre");
    check!(s.len == l.wrapping_add(n), "push: depth");
    let mut k = 0u8;
    while k < n {
        check!(s.inner[l.wrapping_add(k) as usize].same(a[k as usize]), "push: pushed item");
        k += 1;
    }
    others(T::WIDE, |j| {
        if (j as u8).wrapping_sub(l) >= n {
            check!(s.inner[j].same(old[j]), "push: other cells");
        }
    });
    check!(s.canary.same(can), "push: guard value");
}
fn pops<T: Cell>(n: u8, f: fn(&mut Stack<T>) -> (T, T, T)) {
    let mut s = T::mk_stack();
    let (old, l, can) = (s.inner, s.len, s.canary);
    let r = f(&mut s);
    cover!(true, "pre");
    check!(s.len == l.wrapping_sub(n), "pop: depth");
    let out = [r.0, r.1, r.2];
    let mut k = 0u8;
    while k < n {
        check!(out[k as usize].same(old[l.wrapping_sub(n - k) as usize]), "pop: popped item");
        k += 1;
    }
    others(T::WIDE, |j| check!(s.inner[j].same(old[j]), "pop: cells unchanged"));
    check!(s.canary.same(can), "pop: guard value");
}
fn queries<T: Cell>() {
    let s = T::mk_stack();
    let l = s.len as usize;
    cover!(true, "pre");
    check!(s.len() as usize == l && s.is_empty() == (l == 0), "depth queries");
    if !T::WIDE {
        check!(s.last().map_or(false, |x| x.same(at(&s, 1))), "last is the top of the stack");
    }
    let p: u8 = if T::WIDE { 64 } else { any() };
    check!(s.get(p).map_or(false, |x| x.same(s.inner[p as usize])), "get reads the cell");
    check!(s.as_slice().len() == l, "as_slice covers the stack");
    check!(s.as_slice().as_ptr() == s.inner.as_ptr(), "as_slice contents");
    check!(s.underflow() == (l > 128 || s.inner[255] != s.canary), "underflow is detected exactly");
    check!(s.overflow() == ((l > 64 && l <= 128) || s.inner[64] != s.canary), "overflow is detected exactly");
}
fn resets<T: Cell>() {
    let mut s = T::mk_stack();
    let can = s.canary;
    assume(can.same(can) && can == can);
    s.reset();
    cover!(true, "pre");
    check!(s.len == 0 && !s.underflow() && !s.overflow(), "reset stack is empty and clean");
    each(256, |j| check!(s.inner[j].same(can), "reset: guard value everywhere"));
}
/// From a clean stack of legal depth, any `k <= 64` pushes (each a wrapping
/// store above the top) followed by `m <= 64` pops leave the stack clean or
/// detected: a depth outside 0..=64 is always reported, and reported as the
/// right kind; a pushed guard overwrite stays reported.
fn detection<T: Cell>() {
    let mut s = T::mk_stack();
    assume(s.len <= 64 && s.inner[64] == s.canary && s.inner[255] == s.canary);
    check!(!s.overflow() && !s.underflow(), "a clean legal stack is silent");
    let l = s.len;
    if any() {
        let k: u8 = any();
        assume(k <= 64);
        s.len = l.wrapping_add(k); // k pushes
        if l as usize + k as usize > 64 {
            cover!(true, "overflow");
            let v = T::make();
            s.inner[64] = v;
            check!(s.overflow(), "more than 64 items is an overflow");
            if v != s.canary {
                s.len = l; // popped again
                check!(s.overflow(), "an overwritten guard stays an overflow");
            }
        }
    } else {
        let k: u8 = any();
        assume(k <= 64);
        s.len = l.wrapping_sub(k); // k pops
        if k > l {
            cover!(true, "underflow");
            check!(s.underflow() && !s.overflow(), "fewer than 0 items is an underflow");
        } else {
            check!(!s.overflow() && !s.underflow(), "popping legal items is silent");
        }
    }
}

contracts! {
    #[kani::solver(z3)]
    fn push_isize() { pushes::<isize>(1, |s, a, _, _| s.push(a)) }
    #[kani::solver(z3)]
    fn push2_isize() { pushes::<isize>(2, |s, a, b, _| s.push2(a, b)) }
    #[kani::solver(z3)]
    fn push3_isize() { pushes::<isize>(3, |s, a, b, c| s.push3(a, b, c)) }
    #[kani::solver(z3)]
    fn pop_isize() { pops::<isize>(1, |s| { let a = s.pop(); (a, a, a) }) }
    #[kani::solver(z3)]
    fn pop2_isize() { pops::<isize>(2, |s| { let (a, b) = s.pop2(); (a, b, b) }) }
    #[kani::solver(z3)]
    fn pop3_isize() { pops::<isize>(3, |s| s.pop3()) }
    #[kani::solver(cadical)]
    fn queries_isize() { queries::<isize>() }
    #[kani::solver(cadical)]
    fn reset_isize() { resets::<isize>() }
    #[kani::solver(z3)]
    fn detection_isize() { detection::<isize>() }
    #[kani::solver(z3)]
    fn push_f64() { pushes::<f64>(1, |s, a, _, _| s.push(a)) }
    #[kani::solver(z3)]
    fn push2_f64() { pushes::<f64>(2, |s, a, b, _| s.push2(a, b)) }
    #[kani::solver(z3)]
    fn push3_f64() { pushes::<f64>(3, |s, a, b, c| s.push3(a, b, c)) }
    #[kani::solver(z3)]
    fn pop_f64() { pops::<f64>(1, |s| { let a = s.pop(); (a, a, a) }) }
    #[kani::solver(z3)]
    fn pop2_f64() { pops::<f64>(2, |s| { let (a, b) = s.pop2(); (a, b, b) }) }
    #[kani::solver(z3)]
    fn pop3_f64() { pops::<f64>(3, |s| s.pop3()) }
    #[kani::solver(cadical)]
    fn queries_f64() { queries::<f64>() }
    #[kani::solver(cadical)]
    fn reset_f64() { resets::<f64>() }
    #[kani::solver(z3)]
    fn detection_f64() { detection::<f64>() }
    #[kani::solver(cadical)]
    fn push_control() { pushes::<Control>(1, |s, a, _, _| s.push(a)) }
    #[kani::solver(z3)]
    fn pop_control() { pops::<Control>(1, |s| { let a = s.pop(); (a, a, a) }) }
    #[kani::solver(z3)]
    fn pop2_control() { pops::<Control>(2, |s| { let (a, b) = s.pop2(); (a, b, b) }) }
    #[kani::solver(cadical)]
    fn queries_control() { queries::<Control>() }
    #[kani::solver(cadical)]
    fn reset_control() { resets::<Control>() }
    #[kani::solver(z3)]
    fn detection_control() { detection::<Control>() }
    /// `?stacks`: the first violated stack, in priority order, is reported
    #[kani::solver(z3)]
    fn check_stacks() {
        let mut v = Kvm::any();
        v.c = Control::mk_stack();
        let e0: bool = any();
        let a = v.snap();
        let (c64, c255) = (v.c.inner[64], v.c.inner[255]);
        v.check_stacks();
        let b = v.snap();
        let over = |l: u8, g: bool| g || (l > 64 && l <= 128);
        let under = |l: u8, g: bool| g || l > 128;
        let want = if over(a.sl, a.s[64] != a.sc) { Some(STACK_OVERFLOW) }
            else if under(a.sl, a.s[255] != a.sc) { Some(STACK_UNDERFLOW) }
            else if over(a.rl, a.r[64] != a.rc) { Some(RETURN_STACK_OVERFLOW) }
            else if under(a.rl, a.r[255] != a.rc) { Some(RETURN_STACK_UNDERFLOW) }
            else if over(a.cl, c64 != Control::Canary) || under(a.cl, c255 != Control::Canary) { Some(CONTROL_STRUCTURE_MISMATCH) }
            else if over(a.fl, a.f[64] != a.fc) { Some(FLOATING_POINT_STACK_OVERFLOW) }
            else if under(a.fl, a.f[255] != a.fc) { Some(FLOATING_POINT_STACK_UNDERFLOW) }
            else { None };
        cover!(want.is_some(), "a stack fault");
        cover!(want.is_none(), "no stack fault");
        check!(b.err == want, "the error is the first stack fault");
        check!(b.rec.aborts == if want.is_some() { 1 } else { 0 }, "one abort per fault, none otherwise");
        let hit = want.is_some();
        frame(&a, &b, May { s: hit, f: hit, cl: hit, err: true, ..NONE });
        std::mem::forget(v);
    }
    /// after `0stacks` (and `reset` for the return stack) `?stacks` is silent
    #[kani::solver(cadical)]
    fn cleared_stacks_are_silent() {
        let mut v = Kvm::any();
        v.c = Control::mk_stack();
        assume(v.s.canary == v.s.canary && v.f.canary == v.f.canary);
        v.clear_stacks();
        let a = v.snap();
        check!(a.sl == 0 && a.fl == 0 && a.cl == 0, "0stacks empties the stacks");
        v.r.reset();
        v.check_stacks();
        let b = v.snap();
        cover!(true, "pre");
        check!(b.rec.aborts == 0 && b.err.is_none(), "no fault after clearing");
        std::mem::forget(v);
    }
    #[kani::solver(z3)]
    fn clear_stacks_frame() {
        let mut v = Kvm::any();
        v.c = Control::mk_stack();
        let a = v.snap();
        v.clear_stacks();
        let b = v.snap();
        cover!(true, "pre");
        check!(b.sl == 0 && b.fl == 0 && b.cl == 0, "0stacks empties the data, float and control stacks");
        frame(&a, &b, May { s: true, f: true, cl: true, ..NONE });
        std::mem::forget(v);
    }
}
crate::closed! {
    fn bindings() {
        crate::bind::check_bindings(&[("?stacks", Kvm::check_stacks, 0), ("0stacks", Kvm::clear_stacks, 0)]);
    }
    fn fresh_stacks_are_clean() {
        hit("pre");
        let s: Stack<isize> = Stack::new(0x12345678);
        let f: Stack<f64> = Stack::new(1.234567890);
        let c: Stack<Control> = Stack::new(Control::Canary);
        if s.overflow() || s.underflow() || f.overflow() || f.underflow() || c.overflow() || c.underflow() || s.len() != 0 || f.len() != 0 || c.len() != 0 {
            panic!("CONTRACT a new stack is clean");
        }
    }
    fn error_codes() {
        hit("pre");
        let n = |e: Exception| -> isize { e.into() };
        let got = [n(STACK_OVERFLOW), n(STACK_UNDERFLOW), n(RETURN_STACK_OVERFLOW), n(RETURN_STACK_UNDERFLOW),
            n(CONTROL_STRUCTURE_MISMATCH), n(FLOATING_POINT_STACK_OVERFLOW), n(FLOATING_POINT_STACK_UNDERFLOW),
            n(DIVISION_BY_ZERO), n(INVALID_MEMORY_ADDRESS), n(UNDEFINED_WORD), n(INTERPRETING_A_COMPILE_ONLY_WORD),
            n(UNSUPPORTED_OPERATION), n(INVALID_NUMERIC_ARGUMENT), n(UNEXPECTED_END_OF_FILE), n(ABORT)];
        let want = [-3, -4, -5, -6, -22, -44, -45, -10, -9, -13, -14, -21, -24, -39, -1];
        if got != want { panic!("CONTRACT standard THROW codes: {:?}", got); }
    }
}
