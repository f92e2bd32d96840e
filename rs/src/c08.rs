//! C08: control structures compile branches to the right places.
//! Each structure is a contract over the words that make it up: the code
//! cells it emits and resolves, with arbitrary compiled code in between (a
//! "body" only moves the data-space pointer and leaves the control stack as
//! it found it, which is what every structure's own contract guarantees).
use crate::nd::*;
use crate::spec::*;
use crate::vm::*;
use crate::{check, contracts, cover};
use rtforth::core::*;
use rtforth::exception::*;
use rtforth::memory::*;

/// an arbitrary compile-time state with one enclosing structure (what the words
/// do to the other stacks is the subject of the `*_frame` contracts)
fn start() -> (Kvm, Mem, Snap) {
    let mut v = Kvm::lean();
    let m = any_mem(&mut v.ds);
    v.refs.idx_zero_branch = any();
    v.refs.idx_branch = any();
    v.refs.idx_do = any();
    v.refs.idx_qdo = any();
    v.refs.idx_loop = any();
    v.refs.idx_plus_loop = any();
    v.refs.idx_over = any();
    v.refs.idx_equal = any();
    v.refs.idx_drop = any();
    // control-stack operations are the same at every depth (C03): one enclosing structure
    v.c.inner[0] = Control::Begin(77);
    v.c.len = 1;
    let a = v.snap();
    (v, m, a)
}
/// the code compiled so far: arbitrary.  `n` bytes fit after it
fn go(v: &mut Kvm, n: usize) -> usize {
    let mut off: usize = any();
    #[cfg(not(kani))]
    { off %= CAP - n + 1; }
    assume(off <= CAP - n);
    let p = v.ds.start() + off;
    let _ = v.ds.set_here(p);
    off
}
fn apart(x: usize, n: usize, y: usize, k: usize) {
    assume(x + n <= y || y + k <= x);
}
fn addr(v: &Kvm, off: usize) -> isize {
    (v.ds.start() + off) as isize
}
fn cell(v: &Kvm, off: usize, x: isize) -> bool {
    cell_now(&v.ds, off) == x
}
fn here_is(v: &Kvm, off: usize) -> bool {
    v.ds.here() == v.ds.start() + off
}
/// the structure is closed again; only the given code ranges were written
fn closed(mut v: Kvm, m: &Mem, a: &Snap, r: [(usize, usize); 3]) {
    let b = v.snap();
    check!(b.cl == a.cl, "the control stack is as before the structure");
    check!(v.c.inner[a.cl.wrapping_sub(1) as usize] == Control::Begin(77), "the enclosing structure is untouched");
    each(CAP, |j| {
        if !(r[0].0 <= j && j < r[0].1) && !(r[1].0 <= j && j < r[1].1) && !(r[2].0 <= j && j < r[2].1) {
            check!(byte(&v.ds, j) == m[j], "other code is untouched");
        }
    });
    check!(b.rec.aborts == 0 && b.err.is_none(), "no error");
    std::mem::forget(v);
}
/// the words of a structure touch no stack but the control stack, nor any
/// other machine state
fn same_state(words: &[fn(&mut Kvm)]) {
    let mut v = Kvm::any();
    let p = v.ds.start() + 0;
    let _ = v.ds.set_here(p);
    let a = v.snap();
    let mut i = 0;
    while i < words.len() {
        words[i](&mut v);
        i += 1;
    }
    let b = v.snap();
    cover!(true, "pre");
    frame(&a, &b, May { here: true, ..NONE });
    std::mem::forget(v);
}
fn until_again(w: fn(&mut Kvm), cond: bool) {
    let (mut v, m, a) = start();
    let h0 = go(&mut v, 0);
    v.imm_begin();
    check!(here_is(&v, h0), "BEGIN compiles nothing");
    let h1 = go(&mut v, 16);
    w(&mut v);
    cover!(true, "pre");
    let t = if cond { v.refs.idx_zero_branch } else { v.refs.idx_branch };
    check!(cell(&v, h1, t as isize) && cell(&v, h1 + 8, addr(&v, h0)), "branches back to BEGIN");
    check!(here_is(&v, h1 + 16), "continues after the branch");
    closed(v, &m, &a, [(h1, h1 + 16), (0, 0), (0, 0)]);
}
fn counted(open: fn(&mut Kvm), close: fn(&mut Kvm), q: bool, plus: bool) {
    let (mut v, m, a) = start();
    let h0 = go(&mut v, 16);
    open(&mut v);
    check!(here_is(&v, h0 + 16), "DO compiles two cells");
    let h1 = go(&mut v, 16);
    apart(h0, 16, h1, 16);
    close(&mut v);
    cover!(true, "pre");
    let (d, l) = (if q { v.refs.idx_qdo } else { v.refs.idx_do }, if plus { v.refs.idx_plus_loop } else { v.refs.idx_loop });
    check!(cell(&v, h0, d as isize) && cell(&v, h1, l as isize), "the run-time words of the loop");
    check!(cell(&v, h1 + 8, addr(&v, h0 + 16)), "LOOP goes back to the body");
    check!(cell(&v, h0 + 8, addr(&v, h1 + 16)), "leaving the loop continues after it");
    check!(here_is(&v, h1 + 16), "continues after the loop");
    closed(v, &m, &a, [(h0, h0 + 16), (h1, h1 + 16), (0, 0)]);
}
/// a closing word that does not match the open structure: -22, and nothing
/// compiled before is altered
fn mismatch(w: fn(&mut Kvm), ok: fn(Control) -> bool) {
    let mut v = Kvm::lean();
    let m = any_mem(&mut v.ds);
    let (ip, n) = (v.st.instruction_pointer, v.wl.len());
    let mut k = 0;
    while k < 11 {
        // k = 10: nothing is open
        let c = if k < 10 { control(k) } else { Control::Canary };
        if k == 10 || !ok(c) {
            v.c.inner[0] = Control::Begin(77);
            v.c.inner[1] = c;
            v.c.len = if k < 10 { 2 } else { 0 };
            v.last_error = None;
            v.rec.aborts = 0;
            let p = v.ds.start() + 16;
            let _ = v.ds.set_here(p);
            w(&mut v);
            cover!(true, "wrong structure");
            check!(v.rec.aborts >= 1 && v.last_error == Some(CONTROL_STRUCTURE_MISMATCH), "control structure mismatch");
        }
        k += 1;
    }
    each(16, |j| check!(byte(&v.ds, j) == m[j], "code compiled before is untouched"));
    check!(v.st.instruction_pointer == ip && v.wl.len() == n && v.r.len == 0, "other state is untouched");
    std::mem::forget(v);
}
/// any kind of open structure; code addresses it must not be asked for
pub fn control(k: u8) -> Control {
    let (x, y) = (1000, 2000);
    match k {
        0 => Control::Default,
        1 => Control::Canary,
        2 => Control::If(x),
        3 => Control::Else(x),
        4 => Control::Begin(x),
        5 => Control::While(x),
        6 => Control::Do(x, y),
        7 => Control::Case,
        8 => Control::Of(x),
        _ => Control::Endof(x),
    }
}

contracts! {
    #[kani::solver(z3)]
    fn if_frame() { same_state(&[Kvm::imm_if, Kvm::imm_else, Kvm::imm_then]) }
    #[kani::solver(z3)]
    fn begin_frame() { same_state(&[Kvm::imm_begin, Kvm::imm_while, Kvm::imm_repeat]) }
    #[kani::solver(z3)]
    fn until_frame() { same_state(&[Kvm::imm_begin, Kvm::imm_until]) }
    #[kani::solver(z3)]
    fn again_frame() { same_state(&[Kvm::imm_begin, Kvm::imm_again]) }
    #[kani::solver(z3)]
    fn do_frame() { same_state(&[Kvm::imm_do, Kvm::imm_loop]) }
    #[kani::solver(z3)]
    fn qdo_frame() { same_state(&[Kvm::imm_qdo, Kvm::imm_plus_loop]) }
    #[kani::solver(minisat)]
    fn if_then() {
        let (mut v, m, a) = start();
        let h0 = go(&mut v, 16);
        v.imm_if();
        check!(here_is(&v, h0 + 16), "IF compiles a branch");
        let h1 = go(&mut v, 0);
        v.imm_then();
        cover!(true, "pre");
        check!(cell(&v, h0, v.refs.idx_zero_branch as isize), "IF is a conditional branch");
        check!(cell(&v, h0 + 8, addr(&v, h1)), "a false flag continues at THEN");
        check!(here_is(&v, h1), "THEN compiles nothing");
        closed(v, &m, &a, [(h0, h0 + 16), (0, 0), (0, 0)]);
    }
    #[kani::solver(minisat)]
    fn if_else_then() {
        let (mut v, m, a) = start();
        let h0 = go(&mut v, 16);
        v.imm_if();
        let h1 = go(&mut v, 16);
        apart(h0, 16, h1, 16);
        v.imm_else();
        check!(here_is(&v, h1 + 16), "ELSE compiles a branch");
        let h2 = go(&mut v, 0);
        v.imm_then();
        cover!(true, "pre");
        check!(cell(&v, h0, v.refs.idx_zero_branch as isize) && cell(&v, h1, v.refs.idx_branch as isize), "branch words");
        check!(cell(&v, h0 + 8, addr(&v, h1 + 16)), "a false flag continues after ELSE");
        check!(cell(&v, h1 + 8, addr(&v, h2)), "the true part continues at THEN");
        closed(v, &m, &a, [(h0, h0 + 16), (h1, h1 + 16), (0, 0)]);
    }
    #[kani::solver(minisat)]
    fn begin_until() { until_again(Kvm::imm_until, true) }
    #[kani::solver(minisat)]
    fn begin_again() { until_again(Kvm::imm_again, false) }
    #[kani::solver(minisat)]
    fn begin_while_repeat() {
        let (mut v, m, a) = start();
        let h0 = go(&mut v, 0);
        v.imm_begin();
        let h1 = go(&mut v, 16);
        v.imm_while();
        check!(here_is(&v, h1 + 16), "WHILE compiles a branch");
        let h2 = go(&mut v, 16);
        apart(h1, 16, h2, 16);
        v.imm_repeat();
        cover!(true, "pre");
        check!(cell(&v, h1, v.refs.idx_zero_branch as isize) && cell(&v, h2, v.refs.idx_branch as isize), "branch words");
        check!(cell(&v, h2 + 8, addr(&v, h0)), "REPEAT goes back to BEGIN");
        check!(cell(&v, h1 + 8, addr(&v, h2 + 16)), "a false flag continues after REPEAT");
        closed(v, &m, &a, [(h1, h1 + 16), (h2, h2 + 16), (0, 0)]);
    }
    #[kani::solver(minisat)]
    fn do_loop() { counted(Kvm::imm_do, Kvm::imm_loop, false, false) }
    #[kani::solver(minisat)]
    fn do_plus_loop() { counted(Kvm::imm_do, Kvm::imm_plus_loop, false, true) }
    #[kani::solver(minisat)]
    fn qdo_loop() { counted(Kvm::imm_qdo, Kvm::imm_loop, true, false) }
    #[kani::solver(minisat)]
    fn qdo_plus_loop() { counted(Kvm::imm_qdo, Kvm::imm_plus_loop, true, true) }
    /// one OF ... ENDOF clause after CASE or after another clause
    #[kani::solver(minisat)]
    #[kani::unwind(3)]
    fn of_endof() {
        let (mut v, m, a) = start();
        v.imm_case();
        let h0 = go(&mut v, 40);
        v.imm_of();
        check!(here_is(&v, h0 + 40), "OF compiles five cells");
        let h1 = go(&mut v, 16);
        apart(h0, 40, h1, 16);
        v.imm_endof();
        let h2 = go(&mut v, 8);
        apart(h0, 40, h2, 8);
        apart(h1, 16, h2, 8);
        check!(here_is(&v, h2), "ENDOF compiles a branch");
        v.imm_endcase();
        cover!(true, "pre");
        let r = &v.refs;
        check!(cell(&v, h0, r.idx_over as isize) && cell(&v, h0 + 8, r.idx_equal as isize)
            && cell(&v, h0 + 16, r.idx_zero_branch as isize) && cell(&v, h0 + 32, r.idx_drop as isize), "OF compares the selector and drops it on a match");
        check!(cell(&v, h0 + 24, addr(&v, h1 + 16)), "a failed match continues after ENDOF");
        check!(cell(&v, h1, r.idx_branch as isize) && cell(&v, h1 + 8, addr(&v, h2 + 8)), "a matched clause continues after ENDCASE");
        check!(cell(&v, h2, r.idx_drop as isize) && here_is(&v, h2 + 8), "ENDCASE drops the selector");
        closed(v, &m, &a, [(h0, h0 + 40), (h1, h1 + 16), (h2, h2 + 8)]);
    }
    /// CASE with no clause
    #[kani::solver(minisat)]
    #[kani::unwind(3)]
    fn case_endcase() {
        let (mut v, m, a) = start();
        v.imm_case();
        let h2 = go(&mut v, 8);
        v.imm_endcase();
        cover!(true, "pre");
        check!(cell(&v, h2, v.refs.idx_drop as isize) && here_is(&v, h2 + 8), "ENDCASE drops the selector");
        closed(v, &m, &a, [(h2, h2 + 8), (0, 0), (0, 0)]);
    }
    #[kani::solver(minisat)]
    fn then_mismatch() { mismatch(Kvm::imm_then, |c| matches!(c, Control::If(_) | Control::Else(_))) }
    #[kani::solver(minisat)]
    fn else_mismatch() { mismatch(Kvm::imm_else, |c| matches!(c, Control::If(_))) }
    #[kani::solver(minisat)]
    fn until_mismatch() { mismatch(Kvm::imm_until, |c| matches!(c, Control::Begin(_))) }
    #[kani::solver(minisat)]
    fn again_mismatch() { mismatch(Kvm::imm_again, |c| matches!(c, Control::Begin(_))) }
    /// REPEAT needs WHILE on top of BEGIN
    #[kani::solver(minisat)]
    fn repeat_mismatch() { mismatch(Kvm::imm_repeat, |c| matches!(c, Control::While(_))) }
    #[kani::solver(minisat)]
    fn repeat_mismatch_below() {
        mismatch(|v| { v.c.push(Control::While(1)); v.imm_repeat(); }, |c| matches!(c, Control::Begin(_)))
    }
    #[kani::solver(minisat)]
    fn loop_mismatch() { mismatch(Kvm::imm_loop, |c| matches!(c, Control::Do(_, _))) }
    #[kani::solver(minisat)]
    fn plus_loop_mismatch() { mismatch(Kvm::imm_plus_loop, |c| matches!(c, Control::Do(_, _))) }
    #[kani::solver(minisat)]
    fn of_mismatch() { mismatch(Kvm::imm_of, |c| matches!(c, Control::Case | Control::Endof(_))) }
    #[kani::solver(minisat)]
    fn endof_mismatch() { mismatch(Kvm::imm_endof, |c| matches!(c, Control::Of(_))) }
    #[kani::solver(minisat)]
    #[kani::unwind(12)]
    fn endcase_mismatch() { mismatch(Kvm::imm_endcase, |c| matches!(c, Control::Case | Control::Endof(_))) }
    /// LEAVE is compiled inside a counted loop only (control stacks up to four deep)
    #[kani::solver(minisat)]
    #[kani::unwind(8)]
    fn leave_in_loop_bounded() {
        let mut v = Kvm::lean();
        let m = any_mem(&mut v.ds);
        let h = go(&mut v, 8);
        let d: u8 = any();
        #[cfg(not(kani))]
        let d = d % 5;
        assume(d <= 4);
        let mut has = false;
        let mut k = 0u8;
        while k < 4 {
            let c = control(any::<u8>() % 10);
            v.c.inner[k as usize] = c;
            if k < d && matches!(c, Control::Do(_, _)) { has = true; }
            k += 1;
        }
        v.c.len = d;
        let w: usize = any();
        let a = v.snap();
        v.compile_leave(w);
        let b = v.snap();
        if has {
            cover!(true, "inside a loop");
            check!(b.rec.aborts == 0 && b.cl == a.cl, "accepted");
            check!(cell(&v, h, w as isize) && here_is(&v, h + 8), "the word is compiled");
            mem_frame(&m, &v.ds, h, h + 8);
            frame(&a, &b, May { here: true, ..NONE });
        } else {
            cover!(true, "outside a loop");
            aborted(&a, &b, CONTROL_STRUCTURE_MISMATCH, NONE);
            mem_frame(&m, &v.ds, 0, 0);
        }
        std::mem::forget(v);
    }
    /// `;` with an open structure
    #[kani::solver(minisat)]
    fn semicolon_open() {
        let mut v = Kvm::any();
        let m = any_mem(&mut v.ds);
        go(&mut v, 8);
        assume(v.r.len <= 64);
        v.c.len = any();
        assume(v.c.len != 0);
        let a = v.snap();
        v.semicolon();
        let b = v.snap();
        cover!(true, "pre");
        check!(b.rec.aborts == 1 && b.err == Some(CONTROL_STRUCTURE_MISMATCH), "an unfinished structure is a mismatch");
        check!(!b.compiling, "the compile state is left");
        mem_frame(&m, &v.ds, 0, 0);
        frame(&a, &b, May { s: true, f: true, cl: true, err: true, compiling: true, ..NONE });
        std::mem::forget(v);
    }
}

// ---------------------------------------------------------------- programs
/// random structured programs, compiled and run by the real system and by a
/// direct evaluation of their structure
mod prog {
    use super::*;
    use rtforth::output::Output;
    pub enum S {
        Tr(i64),
        If(i64, Vec<S>, Option<Vec<S>>),
        Until(i64, Vec<S>),
        While(i64, Vec<S>, Vec<S>),
        Again(Vec<S>),
        Do(bool, i64, i64, i64, Vec<S>),
        I,
        J,
        LeaveIf(i64),
        ExitIf(i64),
        Case(i64, Vec<(i64, Vec<S>)>, Vec<S>),
        Call(usize),
    }
    pub struct G { pub x: u64, pub words: usize }
    impl G {
        pub fn r(&mut self, n: u64) -> u64 {
            self.x = self.x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            (self.x >> 33) % n
        }
        pub fn block(&mut self, d: u32, loops: u32, inloop: u32) -> Vec<S> {
            let n = 1 + self.r(3);
            (0..n).map(|_| self.stmt(d, loops, inloop)).collect()
        }
        fn stmt(&mut self, d: u32, nest: u32, doloops: u32) -> S {
            let k = if d == 0 { self.r(6) } else { self.r(16) };
            let t = |g: &mut G| g.r(200) as i64;
            match k {
                0 | 1 => S::Tr(t(self)),
                2 if doloops > 0 => S::I,
                3 if doloops > 1 => S::J,
                4 if doloops > 0 => S::LeaveIf(self.r(4) as i64),
                5 if nest == 0 => S::ExitIf(self.r(5) as i64),
                6 | 7 => { let c = self.r(3) as i64; let a = self.block(d - 1, nest, doloops); let b = if self.r(2) == 0 { None } else { Some(self.block(d - 1, nest, doloops)) }; S::If(c, a, b) }
                8 => S::Until(1 + self.r(3) as i64, self.block(d - 1, nest + 1, doloops)),
                9 => { let a = self.block(d - 1, nest + 1, doloops); let b = self.block(d - 1, nest + 1, doloops); S::While(self.r(4) as i64, a, b) }
                10 | 11 => {
                    let q = self.r(2) == 0;
                    let (l, i) = (self.r(7) as i64 - 3, self.r(7) as i64 - 3);
                    let step = [1i64, 1, 2, -1, 3, -2][self.r(6) as usize];
                    let (l, i) = if !q && step == 1 && l <= i { (i + 2, i) } else { (l, i) };
                    let (l, i) = if step > 1 && l <= i { (i + 5, i) } else if step < 0 && l >= i { (i - 4, i) } else { (l, i) };
                    let (l, i) = if q && step == 1 && l < i { (i, i) } else { (l, i) };
                    S::Do(q, l, i, step, self.block(d - 1, nest + 1, doloops + 1))
                }
                12 | 13 => {
                    let n = self.r(4);
                    let cl = (0..n).map(|_| (self.r(4) as i64, self.block(d - 1, nest + 1, doloops))).collect();
                    let def = if self.r(2) == 0 { self.block(d - 1, nest + 1, doloops) } else { vec![] };
                    S::Case(self.r(4) as i64, cl, def)
                }
                14 if self.words > 0 => S::Call(self.r(self.words as u64) as usize),
                15 if nest == 0 => S::Again(self.block(d - 1, 99, doloops)),
                _ => S::Tr(t(self)),
            }
        }
    }
    /// conditions: a global counter c is advanced; flag = c mod (k+2) != 0
    pub fn text(b: &[S], o: &mut String) {
        use std::fmt::Write;
        for s in b {
            match s {
                S::Tr(n) => write!(o, "{} tr ", n).unwrap(),
                S::I => o.push_str("i tr "),
                S::J => o.push_str("j tr "),
                S::LeaveIf(k) => write!(o, "{} fl if leave then ", k).unwrap(),
                S::ExitIf(k) => write!(o, "{} fl if exit then ", k).unwrap(),
                S::If(k, a, e) => {
                    write!(o, "{} fl if ", k).unwrap();
                    text(a, o);
                    if let Some(e) = e { o.push_str("else "); text(e, o); }
                    o.push_str("then ");
                }
                S::Until(k, a) => { o.push_str("begin "); text(a, o); write!(o, "{} fl until ", k).unwrap(); }
                S::While(k, a, b) => { o.push_str("begin "); text(a, o); write!(o, "{} fl 0= while ", k).unwrap(); text(b, o); o.push_str("repeat "); }
                S::Again(a) => { o.push_str("begin "); text(a, o); o.push_str("3 fl if exit then again "); }
                S::Do(q, l, i, st, a) => {
                    write!(o, "{} {} {} ", l, i, if *q { "?do" } else { "do" }).unwrap();
                    text(a, o);
                    if *st == 1 { o.push_str("loop "); } else { write!(o, "{} +loop ", st).unwrap(); }
                }
                S::Case(x, cl, def) => {
                    write!(o, "{} case ", x).unwrap();
                    for (n, a) in cl { write!(o, "{} of ", n).unwrap(); text(a, o); o.push_str("endof "); }
                    text(def, o);
                    o.push_str("endcase ");
                }
                S::Call(w) => write!(o, "w{} ", w).unwrap(),
            }
        }
    }
    pub struct M<'a> { pub h: i64, pub c: i64, pub fuel: i64, pub words: &'a [Vec<S>] }
    #[derive(PartialEq)]
    pub enum Flow { Next, Leave, Exit, Stop }
    impl<'a> M<'a> {
        fn fl(&mut self, k: i64) -> bool { self.c = self.c.wrapping_add(1); self.c % (k + 2) != 0 }
        fn tr(&mut self, n: i64) { self.h = self.h.wrapping_mul(31).wrapping_add(n); }
        pub fn run(&mut self, b: &[S], idx: &mut Vec<i64>) -> Flow {
            for s in b {
                self.fuel -= 1;
                if self.fuel < 0 { return Flow::Stop; }
                macro_rules! sub { ($b:expr) => { match self.run($b, idx) { Flow::Next => {} f => return f } } }
                match s {
                    S::Tr(n) => self.tr(*n),
                    S::I => { let x = idx[idx.len() - 1]; self.tr(x) }
                    S::J => { let x = idx[idx.len() - 2]; self.tr(x) }
                    S::LeaveIf(k) => if self.fl(*k) { return Flow::Leave },
                    S::ExitIf(k) => if self.fl(*k) { return Flow::Exit },
                    S::If(k, a, e) => if self.fl(*k) { sub!(a) } else if let Some(e) = e { sub!(e) },
                    S::Until(k, a) => loop { sub!(a); if self.fl(*k) { break } self.fuel -= 1; if self.fuel < 0 { return Flow::Stop } },
                    S::While(k, a, b) => loop { sub!(a); if !self.fl(*k) { sub!(b) } else { break } self.fuel -= 1; if self.fuel < 0 { return Flow::Stop } },
                    S::Again(a) => loop { sub!(a); if self.fl(3) { return Flow::Exit } self.fuel -= 1; if self.fuel < 0 { return Flow::Stop } },
                    S::Do(q, l, i, st, a) => {
                        if *q && l == i { continue; }
                        let mut x = *i;
                        loop {
                            idx.push(x);
                            let f = self.run(a, idx);
                            idx.pop();
                            match f { Flow::Next => {} Flow::Leave => break, f => return f }
                            self.fuel -= 1;
                            if self.fuel < 0 { return Flow::Stop }
                            let cross = if *st > 0 { x < *l && x + st >= *l } else { x >= *l && x + st < *l };
                            x += st;
                            if cross { break }
                        }
                    }
                    S::Case(x, cl, def) => match cl.iter().find(|c| c.0 == *x) {
                        Some(c) => sub!(&c.1),
                        None => sub!(def),
                    },
                    S::Call(w) => { let words = self.words; let mut ix = vec![]; match self.run(&words[*w], &mut ix) { Flow::Next | Flow::Exit => {} f => return f } }
                }
            }
            Flow::Next
        }
    }
    fn has_leave(b: &[S]) -> bool {
        // LEAVE or EXIT below CASE would leave the selector on the stack: text is still
        // well formed, so only programs whose flow never does that are compared
        b.iter().any(|s| match s {
            S::LeaveIf(_) | S::ExitIf(_) | S::Again(_) => true,
            S::If(_, a, e) => has_leave(a) || e.as_ref().map_or(false, |e| has_leave(e)),
            S::Until(_, a) => has_leave(a),
            S::While(_, a, b) => has_leave(a) || has_leave(b),
            S::Case(_, cl, d) => cl.iter().any(|c| has_leave(&c.1)) || has_leave(d),
            _ => false,
        })
    }
    fn bad(b: &[S]) -> bool {
        b.iter().any(|s| match s {
            // the selector of a matched clause is already dropped; only the default part keeps it
            S::Case(_, cl, d) => has_leave(d) || bad(d) || cl.iter().any(|c| bad(&c.1)),
            S::If(_, a, e) => bad(a) || e.as_ref().map_or(false, |e| bad(e)),
            S::Until(_, a) | S::Again(a) => bad(a),
            S::While(_, a, b) => bad(a) || bad(b),
            S::Do(_, _, _, _, a) => bad(a),
            _ => false,
        })
    }
    #[cfg(not(kani))]
    pub fn go(n: u64) {
        let mut v = crate::bind::dictionary();
        v.inbuf = Some(String::new());
        v.tkn = Some(String::new());
        v.out = Some(String::new());
        v.labels = Vec::with_capacity(16);
        v.st = State::new();
        v.handler = 0;
        v.last_error = None;
        let pre = ": 0= 0 = ; create h 0 , create cc 0 , : tr h @ 31 * + h ! ; : fl 2 + cc @ 1+ dup cc ! swap /mod drop 0= invert ; ";
        let ev = |v: &mut Kvm, s: &str| {
            v.st.instruction_pointer = 0;
            v.set_source(s);
            v.evaluate_input();
            v.last_error
        };
        // `mod` of the C counter: c stays positive
        if let Some(e) = ev(&mut v, pre) { panic!("CONTRACT prelude fails: {}", isize::from(e)); }
        if let Some(e) = ev(&mut v, "marker -m ") { panic!("CONTRACT marker fails: {}", isize::from(e)); }
        for k in 0..n {
            let mut g = G { x: k.wrapping_mul(0x9E3779B97F4A7C15) ^ 0x1234567, words: 0 };
            let mut words: Vec<Vec<S>> = vec![];
            let mut src = String::new();
            for w in 0..3 {
                g.words = w;
                let mut b = g.block(3, 0, 0);
                while bad(&b) { b = g.block(3, 0, 0); }
                src.push_str(&format!(": w{} ", w));
                text(&b, &mut src);
                src.push_str("; ");
                words.push(b);
            }
            let mut m = M { h: 7, c: (k % 13) as i64, fuel: 3000, words: &words };
            let f = m.run(&words[2], &mut vec![]);
            if f == Flow::Stop { continue; }
            hit("program");
            v.st.is_compiling = false;
            v.s.reset(); v.r.reset(); v.c.reset();
            v.last_error = None;
            let _ = ev(&mut v, "-m marker -m ");
            let all = format!("7 h ! {} cc ! {} 555 w2 h @ cc @ ", k % 13, src);
            let e = ev(&mut v, &all);
            let got: Vec<isize> = v.s.inner[..(v.s.len as usize).min(64)].to_vec();
            if e.is_some() || got != [555, m.h as isize, m.c as isize] || v.r.len != 0 || v.c.len != 0 {
                panic!("CONTRACT program runs as its structure says: {} -> {:?} error {:?}, expected {:?}", all, got, e.map(|e| isize::from(e)), [555, m.h, m.c]);
            }
        }
        std::mem::forget(v);
    }
}
crate::closed! {
    fn programs_bounded() { prog::go(3000) }
    fn bindings() {
        use crate::bind::*;
        check_bindings(&[
            ("if", Kvm::imm_if, IMM | CO), ("else", Kvm::imm_else, IMM | CO), ("then", Kvm::imm_then, IMM | CO),
            ("begin", Kvm::imm_begin, IMM | CO), ("while", Kvm::imm_while, IMM | CO), ("repeat", Kvm::imm_repeat, IMM | CO),
            ("until", Kvm::imm_until, IMM | CO), ("again", Kvm::imm_again, IMM | CO),
            ("do", Kvm::imm_do, IMM | CO), ("?do", Kvm::imm_qdo, IMM | CO), ("loop", Kvm::imm_loop, IMM | CO), ("+loop", Kvm::imm_plus_loop, IMM | CO),
            ("case", Kvm::imm_case, IMM | CO), ("of", Kvm::imm_of, IMM | CO), ("endof", Kvm::imm_endof, IMM | CO), ("endcase", Kvm::imm_endcase, IMM | CO),
            (";", Kvm::semicolon, IMM | CO), ("recurse", Kvm::imm_recurse, IMM | CO),
        ]);
    }
}
