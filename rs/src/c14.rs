//! C14: tasks are switched fairly and do not disturb each other.
use crate::nd::*;
use crate::spec::*;
use crate::vm::*;
use crate::{check, contracts, cover};
use rtforth::core::*;
use rtforth::env::Environment;
use rtforth::exception::*;
use rtforth::facility::Facility;
use rtforth::float::Float;
use rtforth::hibitset::BitSet;
use rtforth::loader::Source;
use rtforth::memory::*;
use std::fs::File;

/// what a task owns (the data, float and control stacks are the concern of C01;
/// here all tasks may share them)
pub struct Task {
    pub st: State,
    pub r: Stack<isize>,
    pub inbuf: Option<String>,
}
/// A VM whose per-task accessors select the current task, as the trait asks:
/// the caller, the task it activates, and all the others as one.
pub struct Tvm {
    pub cur: usize,
    pub awake: [bool; NT],
    pub me: usize,
    pub it: usize,
    pub caller: Box<Task>,
    pub started: Box<Task>,
    pub others: Box<Task>,
    pub k: Kvm,
    pub wl: Wordlist<Tvm>,
    pub aborts: usize,
    /// who popped the operand
    pub popper: usize,
}
impl Tvm {
    fn task(&mut self) -> &mut Task {
        if self.cur == self.me { &mut self.caller } else if self.cur == self.it { &mut self.started } else { &mut self.others }
    }
}
impl Core for Tvm {
    fn last_error(&self) -> Option<Exception> { self.k.last_error }
    fn set_error(&mut self, e: Option<Exception>) { self.k.last_error = e }
    fn handler(&self) -> usize { self.k.handler }
    fn set_handler(&mut self, h: usize) { self.k.handler = h }
    fn data_space(&mut self) -> &mut DataSpace { &mut self.k.ds }
    fn data_space_const(&self) -> &DataSpace { &self.k.ds }
    fn hold_buffer(&mut self) -> &mut String { &mut self.k.hold }
    fn output_buffer(&mut self) -> &mut Option<String> { &mut self.k.out }
    fn set_output_buffer(&mut self, b: String) { self.k.out = Some(b) }
    fn source_id(&self) -> isize { if self.cur == self.me { self.caller.st.source_id } else if self.cur == self.it { self.started.st.source_id } else { self.others.st.source_id } }
    fn input_buffer(&mut self) -> &mut Option<String> { &mut self.task().inbuf }
    fn set_input_buffer(&mut self, b: String) { self.task().inbuf = Some(b) }
    fn files(&self) -> &Vec<Option<File>> { &self.k.files }
    fn files_mut(&mut self) -> &mut Vec<Option<File>> { &mut self.k.files }
    fn sources(&self) -> &Vec<Option<Source>> { &self.k.sources }
    fn sources_mut(&mut self) -> &mut Vec<Option<Source>> { &mut self.k.sources }
    fn lines(&self) -> &Vec<Option<String>> { &self.k.lines }
    fn lines_mut(&mut self) -> &mut Vec<Option<String>> { &mut self.k.lines }
    fn last_token(&mut self) -> &mut Option<String> { &mut self.k.tkn }
    fn set_last_token(&mut self, b: String) { self.k.tkn = Some(b) }
    fn s_stack(&mut self) -> &mut Stack<isize> { self.popper = self.cur; &mut self.k.s }
    fn r_stack(&mut self) -> &mut Stack<isize> { &mut self.task().r }
    fn c_stack(&mut self) -> &mut Stack<Control> { &mut self.k.c }
    fn f_stack(&mut self) -> &mut Stack<f64> { &mut self.k.f }
    fn wordlist_mut(&mut self) -> &mut Wordlist<Self> { &mut self.wl }
    fn wordlist(&self) -> &Wordlist<Self> { &self.wl }
    fn state(&mut self) -> &mut State { &mut self.task().st }
    fn references(&mut self) -> &mut ForwardReferences { &mut self.k.refs }
    fn system_time_ns(&self) -> u64 { self.k.now }
    fn current_task(&self) -> usize { self.cur }
    fn set_current_task(&mut self, i: usize) { if i < NT { self.cur = i } }
    fn awake(&self, i: usize) -> bool { i < NT && self.awake[i] }
    fn set_awake(&mut self, i: usize, v: bool) { if i < NT { self.awake[i] = v } }
    fn forward_bitset(&self) -> &BitSet { &self.k.fwd }
    fn forward_bitset_mut(&mut self) -> &mut BitSet { &mut self.k.fwd }
    fn resolved_bitset(&self) -> &BitSet { &self.k.res }
    fn resolved_bitset_mut(&mut self) -> &mut BitSet { &mut self.k.res }
    fn labels(&self) -> &Vec<usize> { &self.k.labels }
    fn labels_mut(&mut self) -> &mut Vec<usize> { &mut self.k.labels }
    /// by contract (verified in C15)
    fn reset(&mut self) {
        let t = self.task();
        t.r.len = 0;
        t.st.source_id = 0;
        t.st.source_index = 0;
        t.st.aborted_word_pointer = 0;
        t.st.is_compiling = false;
        self.k.last_error = None;
    }
    fn abort_with(&mut self, e: Exception) {
        self.aborts += 1;
        self.s_stack().len = 0;
        self.f_stack().len = 0;
        self.c_stack().len = 0;
        self.k.last_error = Some(e);
    }
}
impl rtforth::output::Output for Tvm {}
impl rtforth::tools::Tools for Tvm {}
impl Environment for Tvm {}
impl Facility for Tvm {}
impl Float for Tvm {}
impl rtforth::units::Units for Tvm {}
impl rtforth::file_access::FileAccess for Tvm {}
impl rtforth::loader::HasLoader for Tvm {}

fn any_task() -> Task {
    let mut st = State::new();
    st.is_compiling = any();
    st.instruction_pointer = any();
    st.aborted_word_pointer = any();
    st.source_index = any();
    st.source_id = any();
    let mut r = Stack { inner: [0x12345678; 256], len: 4, canary: 0x12345678 };
    r.inner[3] = any();
    r.inner[2] = any();
    Task { st, r, inbuf: None }
}
type Ts = (bool, usize, usize, usize, usize, isize, u8, isize, isize);
/// the observable state of a task
fn task(t: &Task) -> Ts {
    (t.st.is_compiling, t.st.instruction_pointer, t.st.word_pointer(), t.st.aborted_word_pointer, t.st.source_index, t.st.source_id,
     t.r.len, t.r.inner[3], t.r.inner[2])
}
/// the task after `cur` that is awake
fn next(cur: usize, awake: &[bool; NT]) -> usize {
    let mut i = 1;
    while i <= NT {
        let j = (cur + i) % NT;
        if awake[j] { return j }
        i += 1;
    }
    cur
}
fn any_kvm_task() -> Kvm {
    let mut v = Kvm::any();
    v.awake = any();
    v.cur = any();
    #[cfg(not(kani))]
    { v.cur %= NT; }
    assume(v.cur < NT);
    v
}
/// SUSPEND and RESUME: task `n` (from 1) and no other
fn switch(w: fn(&mut Kvm), to: bool) {
    let mut v = any_kvm_task();
    let n: isize = any();
    poke(&mut v, 0, n);
    let a = v.snap();
    w(&mut v);
    let b = v.snap();
    if n >= 1 && n <= NT as isize {
        cover!(a.awake[n as usize - 1] != to, "task");
        check!(b.sl == a.sl.wrapping_sub(1), "net stack effect");
        if legal(a.sl, 1, 0) { stack_s(&a, &b, 1, []); }
        each(NT, |j| check!(b.awake[j] == (if j + 1 == n as usize { to } else { a.awake[j] }), "exactly this task"));
        check!(b.cur == a.cur, "no switch");
        frame(&a, &b, May { s: true, tasks: true, ..NONE });
    } else {
        cover!(true, "no task");
        aborted(&a, &b, INVALID_NUMERIC_ARGUMENT, NONE);
    }
    std::mem::forget(v);
}

contracts! {
    /// PAUSE gives control to the next awake task in cyclic order
    #[kani::solver(z3)]
    #[kani::unwind(8)]
    fn pause() {
        let mut v = any_kvm_task();
        let a = v.snap();
        assume(a.awake[0] || a.awake[1] || a.awake[2] || a.awake[3] || a.awake[4]);
        v.pause();
        let b = v.snap();
        cover!(b.cur < a.cur, "wraps");
        cover!(b.cur == a.cur, "alone");
        check!(b.cur == next(a.cur, &a.awake), "the next awake task");
        check!(b.awake == a.awake, "who is awake does not change");
        frame(&a, &b, May { tasks: true, ..NONE });
        std::mem::forget(v);
    }
    /// fairness: within as many pauses as there are tasks every awake task runs
    #[kani::unwind(8)]
    fn fair() {
        let mut v = Kvm::lean();
        v.awake = any();
        v.cur = any();
        let t: usize = any();
        #[cfg(not(kani))]
        let t = t % NT;
        #[cfg(not(kani))]
        { v.cur %= NT; }
        assume(v.cur < NT && t < NT && v.awake[t]);
        let mut ran = false;
        let mut i = 0;
        while i < NT {
            v.pause();
            check!(v.awake[v.cur], "only awake tasks run");
            ran = ran || v.cur == t;
            i += 1;
        }
        cover!(true, "pre");
        check!(ran, "every awake task gets its turn");
        std::mem::forget(v);
    }
    #[kani::solver(z3)]
    #[kani::unwind(8)]
    fn suspend() { switch(Kvm::suspend, false) }
    #[kani::solver(z3)]
    #[kani::unwind(8)]
    fn resume() { switch(Kvm::resume, true) }
    #[kani::solver(z3)]
    #[kani::unwind(8)]
    fn me() {
        let mut v = any_kvm_task();
        let a = v.snap();
        v.me();
        let b = v.snap();
        check!(b.sl == a.sl.wrapping_add(1), "net stack effect");
        if legal(a.sl, 0, 1) { cover!(true, "pre"); stack_s(&a, &b, 0, [a.cur as isize + 1]); }
        frame(&a, &b, May { s: true, ..NONE });
        std::mem::forget(v);
    }
    /// ACTIVATE by any task of any other: that task starts at the code after
    /// ACTIVATE with an empty return stack, the caller returns, all other tasks
    /// are untouched.  (Stack words behave the same at every depth: C01.)
    #[kani::unwind(8)]
    fn activate() {
        let (cur, n): (usize, usize) = (any(), any());
        #[cfg(not(kani))]
        let (cur, n) = (cur % NT, n % NT);
        assume(cur < NT && n < NT && cur != n);
        let mut v = Tvm {
            cur, me: cur, it: n, awake: any(), caller: Box::new(any_task()), started: Box::new(any_task()), others: Box::new(any_task()),
            k: Kvm::lean(), wl: Wordlist::with_capacity(0), aborts: 0, popper: 99,
        };
        v.k.s.push2(77, n as isize + 1);
        v.k.c.len = 1;
        v.k.f.len = 1;
        let (caller, other) = (task(&v.caller), task(&v.others));
        let awake = v.awake;
        v.activate();
        cover!(!awake[n], "task");
        check!(v.cur == cur, "control stays with the caller");
        check!(v.caller.st.instruction_pointer == caller.7 as usize && v.caller.r.len == 3, "the caller returns");
        let now = task(&v.caller);
        check!(now.0 == caller.0 && now.2 == caller.2 && now.3 == caller.3 && now.4 == caller.4 && now.5 == caller.5 && now.8 == caller.8, "and is otherwise as before");
        check!(v.popper == cur && v.k.s.len == 1 && v.k.s.inner[0] == 77, "the operand is consumed");
        check!(task(&v.others) == other, "other tasks are untouched");
        let mut i = 0;
        while i < NT {
            check!(v.awake[i] == (awake[i] || i == n), "the task is awake; who else is awake does not change");
            i += 1;
        }
        let w = &v.started;
        check!(w.st.instruction_pointer == caller.1, "it starts after ACTIVATE");
        check!(w.r.len == 0 && !w.st.is_compiling && w.st.source_id == 0 && w.st.source_index == 0, "with a fresh return stack and input");
        check!(v.k.f.len == 1 && v.k.c.len == 1, "other stacks are kept");
        check!(v.aborts == 0 && v.k.last_error.is_none(), "no error");
        std::mem::forget(v);
    }
    /// ACTIVATE of no task is an error of the caller
    #[kani::unwind(8)]
    fn activate_frame() {
        let mut v = any_kvm_task();
        let n: isize = any();
        assume(n < 1 || n > NT as isize);
        poke(&mut v, 0, n);
        let a = v.snap();
        v.activate();
        let b = v.snap();
        cover!(true, "pre");
        check!(b.rl == a.rl.wrapping_sub(1) && b.ip == top(&a.r, a.rl, 0) as usize, "the caller returns");
        aborted(&a, &b, INVALID_NUMERIC_ARGUMENT, May { r: true, ip: true, ..NONE });
        std::mem::forget(v);
    }
}
crate::closed! {
    fn bindings() {
        crate::bind::check_bindings(&[
            ("pause", Kvm::pause, crate::bind::CO), ("activate", Kvm::activate, crate::bind::CO), ("suspend", Kvm::suspend, 0), ("resume", Kvm::resume, 0), ("me", Kvm::me, 0),
        ]);
    }
}
