//! C09: token-threaded execution: each step executes exactly the token at the
//! instruction pointer, calls return to the point after the call, and inline
//! operands are consumed exactly once.
use crate::nd::*;
use crate::spec::*;
use crate::vm::*;
use crate::{check, contracts, cover};
use rtforth::core::*;
use rtforth::env::Environment;
use rtforth::exception::*;
use rtforth::float::Float;
use rtforth::memory::*;

/// a word list of `n` words; the word `k` has the given action and data field
fn words<V: Core>(v: &mut V, n: usize, k: usize, action: fn(&mut V), dfa: usize) {
    let mut i = 0;
    while i < n {
        v.add_primitive("", V::noop);
        let (nfa, d): (usize, usize) = (any(), any());
        v.wordlist_mut()[i] = Word::new(if i == k { action } else { V::abort }, V::compile_word, nfa, if i == k { dfa } else { d });
        i += 1;
    }
}
/// arbitrary memory, the instruction pointer with `n` bytes after it; lean stacks
fn at_ip(n: usize) -> (Kvm, Mem, usize) {
    let mut v = Kvm::lean();
    let m = any_mem(&mut v.ds);
    let off = any_ip(&mut v, n);
    (v, m, off)
}
fn ip_is(v: &Kvm, off: usize) -> bool {
    v.st.instruction_pointer == v.ds.start() + off
}
/// wherever it runs, the word changes only what `may` allows
fn only(w: fn(&mut Kvm), n: usize, ds: u8, df: u8, may: May) {
    let mut v = Kvm::any();
    let m = any_mem(&mut v.ds);
    any_ip(&mut v, n);
    assume(v.s.len >= 2 && v.s.len <= 62 && v.f.len <= 62);
    let a = v.snap();
    w(&mut v);
    let b = v.snap();
    cover!(true, "pre");
    check!(b.sl == a.sl.wrapping_add(ds) && b.fl == a.fl.wrapping_add(df), "net stack effect");
    let keep = a.sl.min(b.sl);
    each(keep as usize, |j| check!(a.s[j] == b.s[j], "data stack below the operands"));
    each(a.fl as usize, |j| check!(a.f[j].to_bits() == b.f[j].to_bits(), "float stack below the result"));
    mem_frame(&m, &v.ds, 0, 0);
    frame(&a, &b, May { s: true, f: true, ip: true, ..may });
    std::mem::forget(v);
}
static mut RAN: (usize, usize) = (0, 0);
fn probe_k(v: &mut Kvm) {
    unsafe {
        RAN.0 += 1;
        RAN.1 = v.state().word_pointer();
    }
}

contracts! {
    /// a call pushes the return address and continues at the definition
    #[kani::solver(z3)]
    fn call() {
        let mut v = Kvm::any();
        let dfa: usize = any();
        words(&mut v, 1, 0, Kvm::nest, dfa);
        let a = v.snap();
        v.execute_word(0);
        let b = v.snap();
        check!(b.rl == a.rl.wrapping_add(1), "one return address");
        check!(b.ip == dfa, "execution continues at the definition's code");
        if a.rl < 64 {
            cover!(true, "pre");
            stack_r(&a, &b, 0, [a.ip as isize]);
        }
        frame(&a, &b, May { r: true, ip: true, wp: true, ..NONE });
        std::mem::forget(v);
    }
    /// EXIT takes the return address back
    #[kani::solver(z3)]
    fn exit() {
        let mut v = Kvm::any();
        let a = v.snap();
        v.exit();
        let b = v.snap();
        check!(b.rl == a.rl.wrapping_sub(1), "the return address is consumed");
        check!(b.ip == top(&a.r, a.rl, 0) as usize, "execution continues at the return address");
        if a.rl >= 1 && a.rl <= 64 {
            cover!(true, "pre");
            stack_r(&a, &b, 1, []);
        }
        frame(&a, &b, May { r: true, ip: true, ..NONE });
        std::mem::forget(v);
    }
    /// lemma: a call and its exit cancel, from every state
    #[kani::solver(z3)]
    fn call_then_exit() {
        let mut v = Kvm::any();
        words(&mut v, 1, 0, Kvm::nest, any());
        let a = v.snap();
        v.execute_word(0);
        v.exit();
        let b = v.snap();
        cover!(true, "pre");
        check!(b.ip == a.ip && b.rl == a.rl, "execution is back after the call");
        each(a.rl as usize, |j| check!(a.r[j] == b.r[j], "the return stack is as before"));
        frame(&a, &b, May { r: true, wp: true, ..NONE });
        std::mem::forget(v);
    }
    /// execute_word runs exactly the word of the token, knowing which it is
    #[kani::unwind(8)]
    fn execute_word() {
        let mut v = Kvm::lean();
        let k: usize = any();
        #[cfg(not(kani))]
        let k = k % 3;
        assume(k < 3);
        words(&mut v, 3, k, probe_k, any());
        unsafe { RAN = (0, 77) };
        let a = v.snap();
        v.execute_word(k);
        let b = v.snap();
        cover!(true, "pre");
        check!(unsafe { RAN } == (1, k), "the word of the token ran once and knows itself");
        frame(&a, &b, May { wp: true, ..NONE });
        std::mem::forget(v);
    }
    /// a token that is no word is an error and runs nothing
    #[kani::unwind(8)]
    fn execute_word_invalid() {
        let mut v = Kvm::lean();
        let k: usize = any();
        assume(k >= 3);
        words(&mut v, 3, 0, probe_k, any());
        unsafe { RAN = (0, 77) };
        let a = v.snap();
        v.execute_word(k);
        let b = v.snap();
        cover!(true, "pre");
        check!(unsafe { RAN.0 } == 0, "nothing runs");
        aborted(&a, &b, UNSUPPORTED_OPERATION, May { wp: true, ..NONE });
        std::mem::forget(v);
    }
    /// EXECUTE executes the token on the stack, once
    #[kani::solver(z3)]
    fn execute() {
        let mut v = Xvm::any();
        let a = v.snap();
        v.execute();
        let b = v.snap();
        check!(b.sl == a.sl.wrapping_sub(1), "net stack effect");
        check!(b.rec.execs == 1 && b.rec.xt == top(&a.s, a.sl, 0) as usize && b.rec.ips[0] == a.ip, "the token is executed once");
        if legal(a.sl, 1, 0) {
            cover!(true, "pre");
            stack_s(&a, &b, 1, []);
        }
        let c = Snap { rec: a.rec, ..b };
        frame(&a, &c, May { s: true, ..NONE });
        std::mem::forget(v);
    }
    /// one step: the token at the instruction pointer, or nothing outside the data space
    fn step() {
        let mut v = Xvm::lean();
        let m = any_mem(&mut v.ds);
        let off = any_ip(&mut v, 8);
        let a = v.snap();
        let more = v.forth();
        let b = v.snap();
        cover!(true, "pre");
        check!(more, "there are more steps");
        check!(b.rec.execs == 1 && b.rec.xt == cell_at(&m, off) as usize, "the token at the instruction pointer");
        check!(b.rec.ips[0] == a.ip + 8 && b.ip == a.ip + 8, "the instruction pointer is after the token when it runs");
        mem_frame(&m, &v.ds, 0, 0);
        frame(&a, &Snap { rec: a.rec, ..b }, May { ip: true, ..NONE });
        std::mem::forget(v);
    }
    fn step_outside() {
        let mut v = Xvm::lean();
        let ip = any_addr(&v.ds);
        assume(!inside(&v.ds, ip, 8));
        v.st.instruction_pointer = ip;
        let a = v.snap();
        let more = v.forth();
        let b = v.snap();
        cover!(true, "pre");
        check!(!more, "no more steps");
        check!(b.rec.execs == 0, "nothing is executed");
        frame(&a, &b, NONE);
        std::mem::forget(v);
    }
    /// run: token after token until the instruction pointer leaves the data
    /// space; each executed token decides where to go (three tokens)
    #[kani::unwind(5)]
    fn run_bounded() {
        let mut v = Xvm::lean();
        let m = any_mem(&mut v.ds);
        let off = any_ip(&mut v, 8);
        v.rec.hop = true;
        let (o1, o2): (usize, usize) = (any(), any());
        #[cfg(not(kani))]
        let (o1, o2) = (o1 % 57, o2 % 57);
        assume(o1 <= CAP - 8 && o2 <= CAP - 8);
        let stop = any_addr(&v.ds);
        assume(!inside(&v.ds, stop, 8));
        let n = any::<u8>() % 3;
        let st = v.ds.start();
        v.rec.next = [st + o1, st + o2, stop];
        if n < 2 { v.rec.next[n as usize] = stop; }
        let a = v.snap();
        v.run();
        let b = v.snap();
        cover!(n == 0, "one");
        cover!(n == 2, "three");
        check!(b.rec.execs == n as usize + 1, "runs until the instruction pointer leaves the data space");
        check!(b.rec.xts[0] == cell_at(&m, off) as usize && b.rec.ips[0] == a.ip + 8, "first token");
        if n >= 1 {
            check!(b.rec.xts[1] == cell_at(&m, o1) as usize && b.rec.ips[1] == st + o1 + 8, "second token");
        }
        if n >= 2 {
            check!(b.rec.xts[2] == cell_at(&m, o2) as usize && b.rec.ips[2] == st + o2 + 8, "third token");
        }
        check!(b.ip == stop, "the instruction pointer stays where the last token put it");
        mem_frame(&m, &v.ds, 0, 0);
        std::mem::forget(v);
    }
    #[kani::unwind(8)]
    #[kani::solver(cadical)]
    fn run_outside() {
        let mut v = Xvm::lean();
        let ip = any_addr(&v.ds);
        assume(!inside(&v.ds, ip, 8));
        v.st.instruction_pointer = ip;
        let a = v.snap();
        v.run();
        let b = v.snap();
        cover!(true, "pre");
        check!(b.rec.execs == 0, "nothing is executed");
        frame(&a, &b, NONE);
        std::mem::forget(v);
    }
    fn branch() {
        let (mut v, m, off) = at_ip(8);
        v.branch();
        cover!(true, "pre");
        check!(v.st.instruction_pointer == cell_at(&m, off) as usize, "execution continues at the address in the code");
        mem_frame(&m, &v.ds, 0, 0);
        std::mem::forget(v);
    }
    fn zero_branch() {
        let (mut v, m, off) = at_ip(8);
        let x: isize = any();
        v.s.push(x);
        v.zero_branch();
        if x == 0 {
            cover!(true, "taken");
            check!(v.st.instruction_pointer == cell_at(&m, off) as usize, "execution continues at the address in the code");
        } else {
            cover!(true, "not taken");
            check!(ip_is(&v, off + 8), "execution continues after the address");
        }
        check!(v.s.len == 0, "the flag is consumed");
        std::mem::forget(v);
    }
    fn lit() {
        let (mut v, m, off) = at_ip(8);
        v.lit();
        cover!(true, "pre");
        check!(v.s.len == 1 && v.s.inner[0] == cell_at(&m, off), "the cell in the code");
        check!(ip_is(&v, off + 8), "execution continues after the cell");
        std::mem::forget(v);
    }
    fn flit() {
        let (mut v, m, off) = at_ip(15);
        v.flit();
        let al = (off + 7) & !7;
        cover!(off != al, "unaligned");
        cover!(off == al, "aligned");
        check!(v.f.len == 1 && v.f.inner[0].to_bits() == cell_at(&m, al) as u64, "the float at the next aligned address");
        check!(ip_is(&v, al + 8), "execution continues after the float");
        std::mem::forget(v);
    }
    /// S" at run time: address and length of the counted string in the code
    fn string() {
        let (mut v, mut m, off) = at_ip(16);
        let n: usize = any();
        #[cfg(not(kani))]
        let n = n % (CAP - 8 - off + 1);
        assume(n <= CAP - 8 - off);
        let p = v.ds.start() + off;
        unsafe { v.ds.put_isize(n as isize, p) };
        v.p_s_quote();
        cover!(n > 0, "pre");
        cover!(n == 0, "empty");
        check!(v.s.len == 2 && v.s.inner[1] == n as isize, "the length");
        check!(v.s.inner[0] as usize == p + 8, "the address of the first character");
        check!(v.st.instruction_pointer == (p + 8 + n + 7) & !7, "execution continues at the cell after the string");
        std::mem::forget(v);
    }
    #[kani::solver(z3)]
    fn branch_frame() { only(Kvm::branch, 8, 0, 0, NONE) }
    #[kani::solver(z3)]
    fn zero_branch_frame() { only(Kvm::zero_branch, 8, 255, 0, NONE) }
    #[kani::solver(z3)]
    fn lit_frame() { only(Kvm::lit, 8, 1, 0, NONE) }
    #[kani::solver(z3)]
    fn flit_frame() { only(Kvm::flit, 15, 0, 1, NONE) }
    /// BYE leaves the inner interpreter
    #[kani::solver(z3)]
    fn bye() {
        let mut v = Kvm::any();
        let a = v.snap();
        v.bye();
        let b = v.snap();
        cover!(true, "pre");
        check!(!inside(&v.ds, b.ip, 8), "the instruction pointer is outside the data space");
        frame(&a, &b, May { ip: true, ..NONE });
        check!(!v.forth(), "no more steps");
        std::mem::forget(v);
    }
    /// what compiling a literal appends is what running it pushes
    fn literal_round_trip() {
        let mut v = Kvm::lean();
        let m = any_mem(&mut v.ds);
        v.refs.idx_lit = any();
        let off = any_here(&mut v.ds);
        assume(off <= CAP - 16);
        let x: isize = any();
        v.compile_integer(x);
        cover!(true, "pre");
        check!(cell_now(&v.ds, off) as usize == v.refs.idx_lit, "the token of LIT");
        check!(v.ds.here() == v.ds.start() + off + 16, "two cells");
        v.st.instruction_pointer = v.ds.start() + off + 8;
        v.lit();
        check!(v.s.len == 1 && v.s.inner[0] == x, "the literal");
        check!(v.st.instruction_pointer == v.ds.here(), "all that was compiled is consumed");
        mem_frame(&m, &v.ds, off, off + 16);
        std::mem::forget(v);
    }
    fn float_literal_round_trip() {
        let mut v = Kvm::lean();
        let m = any_mem(&mut v.ds);
        v.refs.idx_flit = any();
        let off = any_here(&mut v.ds);
        assume(off <= CAP - 23);
        let x: f64 = any();
        v.compile_float(x);
        cover!(off % 8 == 0, "aligned");
        cover!(off % 8 != 0, "unaligned");
        check!(cell_now(&v.ds, off) as usize == v.refs.idx_flit, "the token of FLIT");
        v.st.instruction_pointer = v.ds.start() + off + 8;
        v.flit();
        check!(v.f.len == 1 && feq(v.f.inner[0], x), "the literal");
        check!(v.st.instruction_pointer == v.ds.here(), "all that was compiled is consumed");
        mem_frame(&m, &v.ds, off, off + 23);
        std::mem::forget(v);
    }
    /// compiling a branch, then running it, goes to the destination
    fn branch_round_trip() {
        let mut v = Kvm::lean();
        let m = any_mem(&mut v.ds);
        v.refs.idx_branch = any();
        v.refs.idx_zero_branch = any();
        let off = any_here(&mut v.ds);
        assume(off <= CAP - 16);
        let (d, z, x): (usize, bool, isize) = (any(), any(), any());
        let h = if z { v.compile_zero_branch(d) } else { v.compile_branch(d) };
        cover!(z, "0branch");
        cover!(!z, "branch");
        check!(h == v.ds.here() && h == v.ds.start() + off + 16, "the address after the branch");
        check!(cell_now(&v.ds, off) as usize == (if z { v.refs.idx_zero_branch } else { v.refs.idx_branch }), "the token of the branch");
        v.st.instruction_pointer = v.ds.start() + off + 8;
        if z { v.s.push(x); v.zero_branch(); } else { v.branch(); }
        let to = if z && x != 0 { h } else { d };
        check!(v.st.instruction_pointer == to, "execution continues at the destination");
        mem_frame(&m, &v.ds, off, off + 16);
        std::mem::forget(v);
    }
    /// the default compilation semantics of every kind of word: append its token
    fn append_token() {
        let mut v = Kvm::lean();
        let m = any_mem(&mut v.ds);
        let off = any_here(&mut v.ds);
        assume(off <= CAP - 8);
        let (x, k): (usize, u8) = (any(), any());
        match k % 8 {
            0 => v.compile_word(x),
            1 => v.compile_nest(x),
            2 => v.compile_var(x),
            3 => v.compile_const(x),
            4 => v.compile_unmark(x),
            5 => v.compile_fconst(x),
            6 => { v.s.push(x as isize); v.compile_comma() }
            _ => { v.s.push(x as isize); v.comma() }
        }
        cover!(k % 8 == 0, "pre");
        check!(cell_now(&v.ds, off) as usize == x, "the token is appended");
        check!(v.ds.here() == v.ds.start() + off + 8, "one cell");
        check!(v.s.len == 0 && v.last_error.is_none(), "nothing else");
        mem_frame(&m, &v.ds, off, off + 8);
        std::mem::forget(v);
    }
    #[kani::solver(z3)]
    fn append_frame() {
        let mut v = Kvm::any();
        let a = v.snap();
        let k: u8 = any();
        match k % 6 {
            0 => v.compile_word(7),
            1 => v.compile_integer(7),
            2 => v.compile_float(7.0),
            3 => { v.compile_branch(7); }
            4 => { v.compile_zero_branch(7); }
            _ => v.compile_nest_code(7),
        }
        let b = v.snap();
        cover!(true, "pre");
        frame(&a, &b, May { here: true, ..NONE });
        std::mem::forget(v);
    }
    /// >BODY: the data field of the word, an error for no word
    #[kani::unwind(8)]
    fn to_body() {
        let mut v = Kvm::lean();
        let (k, dfa): (isize, usize) = (any(), any());
        words(&mut v, 3, k as usize, Kvm::noop, dfa);
        v.s.push(k);
        let a = v.snap();
        v.to_body();
        let b = v.snap();
        if k >= 0 && k < 3 {
            cover!(true, "word");
            check!(b.sl == 1 && b.s[0] as usize == dfa, "the data field");
            frame(&a, &b, May { s: true, ..NONE });
        } else {
            cover!(true, "no word");
            aborted(&a, &b, INVALID_NUMERIC_ARGUMENT, NONE);
        }
        std::mem::forget(v);
    }
    #[kani::unwind(8)]
    fn to_name() {
        let mut v = Kvm::lean();
        let (k, nfa): (isize, usize) = (any(), any());
        words(&mut v, 3, 9, Kvm::noop, 0);
        if k >= 0 && k < 3 { v.wl[k as usize] = Word::new(Kvm::noop, Kvm::compile_word, nfa, any()); }
        v.s.push(k);
        let a = v.snap();
        v.to_name();
        let b = v.snap();
        if k >= 0 && k < 3 {
            cover!(true, "word");
            check!(b.sl == 1 && b.s[0] as usize == nfa, "the name field");
            frame(&a, &b, May { s: true, ..NONE });
        } else {
            cover!(true, "no word");
            aborted(&a, &b, INVALID_NUMERIC_ARGUMENT, NONE);
        }
        std::mem::forget(v);
    }
}
crate::closed! {
    fn bindings() {
        crate::bind::check_bindings(&[
            ("exit", Kvm::exit, crate::bind::CO), ("bye", Kvm::bye, 0), ("execute", Kvm::execute, 0),
            (">body", Kvm::to_body, 0), (">name", Kvm::to_name, 0), ("compile,", Kvm::compile_comma, crate::bind::CO),
        ]);
    }
}
