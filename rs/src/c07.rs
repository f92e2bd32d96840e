//! C07: counted loops.  Nothing is assumed about how the loop parameters are
//! represented: they are produced by `_do` itself.
use crate::nd::*;
use crate::spec::*;
use crate::vm::*;
use crate::{check, contracts, cover};
use rtforth::core::{Core, Stack};
use rtforth::memory::*;

/// Distance of the index above the limit, on the number circle; adding `n`
/// crosses the boundary between limit-1 and limit exactly if it leaves the circle.
fn crosses(limit: isize, index: isize, n: isize) -> bool {
    let u = index.wrapping_sub(limit) as u64;
    if n >= 0 { u.checked_add(n as u64).is_none() } else { u < n.unsigned_abs() as u64 }
}
/// A VM just before `do`, with room on both stacks, and the memory
fn before(need: u8) -> (Kvm, Mem, usize, isize, isize) {
    let mut v = Kvm::any();
    let m = any_mem(&mut v.ds);
    let off = any_ip(&mut v, 8);
    assume(v.s.len >= need && v.s.len <= 60 && v.r.len <= 54);
    let (l, i) = (top(&v.s.inner, v.s.len, 1), top(&v.s.inner, v.s.len, 0));
    (v, m, off, l, i)
}
/// the same as a signed overflow (lemma `crossing`)
fn crosses_(limit: isize, index: isize, n: isize) -> bool {
    isize::MIN.wrapping_add(index).wrapping_sub(limit).checked_add(n).is_none()
}
/// the return stack below `n` is as in `a`
fn below(a: &Snap, b: &Snap, n: u8) {
    each(n as usize, |j| check!(a.r[j] == b.r[j], "return stack below the loop parameters"));
    check!(a.r[64] == b.r[64] && a.r[255] == b.r[255], "return stack guard cells");
}
/// The loop parameters `_do` produces for (exit cell address, limit, index), on
/// a machine of fixed depths; `do_uniform` shows they are the same at any depth.
fn params(ip: usize, l: isize, i: isize) -> (u8, [isize; 3]) {
    let mut w = Kvm::fixed();
    w.s.push2(l, i);
    w.st.instruction_pointer = ip;
    w._do();
    let n = w.r.len.wrapping_sub(4);
    let k = [w.r.inner[4], w.r.inner[5], w.r.inner[6]];
    std::mem::forget(w);
    (n, k)
}
impl Kvm {
    /// empty data stack, four cells on the return stack, everything concrete
    fn fixed() -> Kvm {
        let mut w = Kvm::any();
        w.s = Stack { inner: [0x12345678; 256], len: 0, canary: 0x12345678 };
        w.r = Stack { inner: [0x12345678; 256], len: 4, canary: 0x12345678 };
        w
    }
}
/// a VM inside a loop with the given limit and index
fn inside_loop(ip: usize, l: isize, i: isize) -> (Kvm, u8) {
    enter(Kvm::any(), ip, l, i, false)
}
/// the same, the exit address being at `off` in the data space
fn inside_loop_in(off: usize, l: isize, i: isize) -> (Kvm, u8) {
    let v = Kvm::any();
    let ip = v.ds.start() + off;
    enter(v, ip, l, i, true)
}
fn enter(mut v: Kvm, ip: usize, l: isize, i: isize, write: bool) -> (Kvm, u8) {
    let (n, k) = params(ip, l, i);
    assume(n <= 3);
    assume(v.s.len >= 1 && v.s.len <= 60 && v.r.len >= n && v.r.len <= 60);
    let mut j = 0;
    while j < n {
        let x = v.r.len.wrapping_sub(n).wrapping_add(j) as usize;
        // (the verifier needs an address to come from the object it points to)
        if cfg!(not(kani)) || write { v.r.inner[x] = k[j as usize]; }
        assume(v.r.inner[x] == k[j as usize]);
        j += 1;
    }
    (v, n)
}
/// DO's parameters for limit `l`, index `i` and the exit cell at `a.ip` were pushed
fn made(a: &Snap, b: &Snap, l: isize, i: isize) {
    let (n, k) = params(a.ip, l, i);
    check!(n <= 3, "at most three loop parameters");
    check!(b.rl == a.rl.wrapping_add(n), "the loop parameters are pushed");
    let mut j = 0;
    while j < n {
        check!(b.r[a.rl.wrapping_add(j) as usize] == k[j as usize], "with the same parameters at any depth");
        j += 1;
    }
}
/// one step of the loop: (limit, index) + n
fn step(w: fn(&mut Kvm), pops: u8) {
    let (ip, l, i): (usize, isize, isize) = (any(), any(), any());
    assume(ip <= usize::MAX - 8);
    let (mut v, k) = inside_loop(ip, l, i);
    let m = any_mem(&mut v.ds);
    // the loop body ran: an arbitrary place in the code
    let off = any_ip(&mut v, 8);
    let a = v.snap();
    let n = if pops == 1 { top(&a.s, a.sl, 0) } else { 1 };
    w(&mut v);
    let b = v.snap();
    check!(b.sl == a.sl - pops, "the step is consumed");
    if crosses_(l, i, n) {
        cover!(true, "terminates");
        check!(b.rl == a.rl - k, "the loop parameters are discarded");
        check!(b.ip == a.ip + 8, "execution continues after the loop");
    } else {
        cover!(true, "continues");
        check!(b.rl == a.rl, "the loop parameters stay");
        check!(b.ip == cell_at(&m, off) as usize, "execution continues at the beginning of the loop");
        // the state of the loop is the one DO makes of index + n
        let (k2, p) = params(ip, l, i.wrapping_add(n));
        check!(k2 == k, "as many loop parameters");
        let mut j = 0;
        while j < k {
            check!(b.r[b.rl.wrapping_sub(k).wrapping_add(j) as usize] == p[j as usize], "the loop is where DO with index+n would be");
            j += 1;
        }
    }
    std::mem::forget(v);
}
/// what a loop step leaves alone, wherever the loop ends up
fn step_frame(w: fn(&mut Kvm), pops: u8) {
    let mut v = Kvm::any();
    let m = any_mem(&mut v.ds);
    any_ip(&mut v, 8);
    let (k, _) = params(0, 0, 0);
    assume(v.s.len >= 1 && v.s.len <= 60 && v.r.len >= k && v.r.len <= 60);
    let a = v.snap();
    w(&mut v);
    let b = v.snap();
    cover!(true, "pre");
    check!(b.sl == a.sl - pops, "the step is consumed");
    below(&a, &b, a.rl - k);
    each(a.sl as usize - pops as usize, |j| check!(a.s[j] == b.s[j], "data stack below the operands"));
    mem_frame(&m, &v.ds, 0, 0);
    frame(&a, &b, May { s: true, r: true, ip: true, ..NONE });
    std::mem::forget(v);
}

contracts! {
    /// lemma: the two forms of the crossing rule are the same
    #[kani::solver(cadical)]
    fn crossing() {
        let (l, i, n): (isize, isize, isize) = (any(), any(), any());
        cover!(crosses(l, i, n), "crosses");
        cover!(!crosses(l, i, n), "stays");
        check!(crosses(l, i, n) == crosses_(l, i, n), "the crossing rule");
    }
    /// DO consumes limit and index and makes the loop parameters, the same at any depth
    #[kani::solver(z3)]
    fn do_uniform() {
        let (mut v, m, off, l, i) = before(2);
        let a = v.snap();
        v._do();
        let b = v.snap();
        cover!(true, "pre");
        check!(b.sl == a.sl - 2, "limit and index are consumed");
        check!(b.ip == a.ip + 8, "the body follows the exit address");
        made(&a, &b, l, i);
        below(&a, &b, a.rl);
        each(a.sl as usize - 2, |j| check!(a.s[j] == b.s[j], "data stack below the operands"));
        mem_frame(&m, &v.ds, 0, 0);
        frame(&a, &b, May { s: true, r: true, ip: true, ..NONE });
        std::mem::forget(v);
    }
    /// I is the index of the loop
    #[kani::solver(z3)]
    fn index() {
        let (ip, l, i): (usize, isize, isize) = (any(), any(), any());
        assume(ip <= usize::MAX - 8);
        let (mut v, _k) = inside_loop(ip, l, i);
        let a = v.snap();
        v.p_i();
        let b = v.snap();
        cover!(true, "pre");
        stack_s(&a, &b, 0, [i]);
        frame(&a, &b, May { s: true, ..NONE });
        std::mem::forget(v);
    }
    /// J is the index of the enclosing loop, whatever the inner one is
    #[kani::solver(z3)]
    fn outer_index() {
        let (ip, l, i): (usize, isize, isize) = (any(), any(), any());
        let (ip2, l2, i2): (usize, isize, isize) = (any(), any(), any());
        assume(ip <= usize::MAX - 8 && ip2 <= usize::MAX - 8);
        let (mut v, _k) = inside_loop(ip, l, i);
        v.s.push2(l2, i2);
        v.st.instruction_pointer = ip2;
        v._do();
        let a = v.snap();
        v.p_j();
        let b = v.snap();
        cover!(true, "pre");
        stack_s(&a, &b, 0, [i]);
        frame(&a, &b, May { s: true, ..NONE });
        std::mem::forget(v);
    }
    /// UNLOOP discards the innermost loop and nothing else
    #[kani::solver(z3)]
    fn unloop() {
        let (ip, l, i): (usize, isize, isize) = (any(), any(), any());
        assume(ip <= usize::MAX - 8);
        let (mut v, k) = inside_loop(ip, l, i);
        let a = v.snap();
        v.unloop();
        let b = v.snap();
        cover!(true, "pre");
        check!(b.rl == a.rl - k, "UNLOOP discards one loop");
        below(&a, &b, b.rl);
        frame(&a, &b, May { r: true, ..NONE });
        std::mem::forget(v);
    }
    #[kani::solver(z3)]
    fn loop_step() { step(Kvm::_loop, 0) }
    #[kani::solver(z3)]
    fn loop_frame() { step_frame(Kvm::_loop, 0) }
    #[kani::solver(z3)]
    fn plus_loop_frame() { step_frame(Kvm::_plus_loop, 1) }
    #[kani::solver(cadical)]
    fn plus_loop_step() { step(Kvm::_plus_loop, 1) }
    /// ?DO: like DO unless limit = index, which continues after the loop
    #[kani::solver(cadical)]
    fn question_do() {
        let (mut v, m, off, l, i) = before(2);
        let a = v.snap();
        v._qdo();
        let b = v.snap();
        check!(b.sl == a.sl - 2, "limit and index are consumed");
        if l == i {
            cover!(true, "empty range");
            check!(b.rl == a.rl && b.ip == cell_at(&m, off) as usize, "?DO skips an empty range");
        } else {
            cover!(true, "enters");
            check!(b.ip == a.ip + 8, "the body follows the exit address");
            made(&a, &b, l, i);
        }
        std::mem::forget(v);
    }
    #[kani::solver(z3)]
    fn question_do_frame() {
        let (mut v, m, _off, _l, _i) = before(2);
        let a = v.snap();
        v._qdo();
        let b = v.snap();
        cover!(true, "pre");
        below(&a, &b, a.rl);
        each(a.sl as usize - 2, |j| check!(a.s[j] == b.s[j], "data stack below the operands"));
        mem_frame(&m, &v.ds, 0, 0);
        frame(&a, &b, May { s: true, r: true, ip: true, ..NONE });
        std::mem::forget(v);
    }
    /// LEAVE continues at the exit address compiled after DO
    #[kani::solver(cadical)]
    fn leave() {
        let mut off: usize = any();
        #[cfg(not(kani))]
        { off %= CAP - 8; }
        assume(off <= CAP - 8);
        let (l, i): (isize, isize) = (any(), any());
        let (mut v, k) = inside_loop_in(off, l, i);
        let m = any_mem(&mut v.ds);
        assume(v.r.inner[255] == v.r.canary);
        let a = v.snap();
        v.leave();
        let b = v.snap();
        cover!(true, "pre");
        check!(b.rl == a.rl - k, "LEAVE discards the loop parameters");
        check!(b.ip == cell_at(&m, off) as usize, "LEAVE continues after the loop");
        below(&a, &b, b.rl);
        mem_frame(&m, &v.ds, 0, 0);
        frame(&a, &b, May { r: true, ip: true, ..NONE });
        std::mem::forget(v);
    }
    /// LEAVE without loop parameters is a return stack underflow
    #[kani::solver(cadical)]
    fn leave_underflow() {
        let mut v = Kvm::any();
        let m = any_mem(&mut v.ds);
        assume(v.r.len <= 2);
        let a = v.snap();
        v.leave();
        let b = v.snap();
        cover!(true, "pre");
        check!(b.rec.aborts == 1 && b.err == Some(rtforth::exception::RETURN_STACK_UNDERFLOW), "underflow is reported once");
        mem_frame(&m, &v.ds, 0, 0);
        frame(&a, &b, May { s: true, f: true, cl: true, r: true, err: true, ..NONE });
        std::mem::forget(v);
    }
    /// I and J never change anything but the data stack
    #[kani::solver(z3)]
    fn i_total() { reads(Kvm::p_i) }
    #[kani::solver(z3)]
    fn j_total() { reads(Kvm::p_j) }
}
fn reads(w: fn(&mut Kvm)) {
    let mut v = Kvm::any();
    let a = v.snap();
    w(&mut v);
    let b = v.snap();
    cover!(true, "pre");
    check!(b.sl == a.sl.wrapping_add(1), "net stack effect");
    if legal(a.sl, 0, 1) {
        each(a.sl as usize, |j| check!(a.s[j] == b.s[j], "data stack below the operands"));
    }
    frame(&a, &b, May { s: true, ..NONE });
    std::mem::forget(v);
}
crate::closed! {
    fn bindings() {
        use crate::bind::*;
        check_bindings(&[
            ("_do", Kvm::_do, CO), ("_qdo", Kvm::_qdo, CO), ("_loop", Kvm::_loop, CO), ("_+loop", Kvm::_plus_loop, CO),
            ("unloop", Kvm::unloop, CO), ("leave", Kvm::leave, CO), ("i", Kvm::p_i, CO), ("j", Kvm::p_j, CO),
        ]);
    }
}
