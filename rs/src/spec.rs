//! Frame conditions shared by the contracts.
use crate::nd::*;
use crate::vm::*;
use crate::{check, cover};

/// What a contract allows to change.
#[derive(Clone, Copy, Default)]
pub struct May {
    pub s: bool, pub r: bool, pub f: bool,
    pub ip: bool, pub here: bool, pub err: bool, pub compiling: bool,
    pub cl: bool, pub tasks: bool, pub wp: bool, pub input: bool, pub handler: bool, pub words: bool,
}
pub const NONE: May = May { s: false, r: false, f: false, ip: false, here: false, err: false,
    compiling: false, cl: false, tasks: false, wp: false, input: false, handler: false, words: false };

pub fn frame(a: &Snap, b: &Snap, m: May) {
    if !m.s {
        check!(a.sl == b.sl, "frame: data stack depth");
        each(256, |j| check!(a.s[j] == b.s[j], "frame: data stack contents"));
    }
    check!(a.sc == b.sc && a.rc == b.rc && a.fc.to_bits() == b.fc.to_bits(), "frame: canaries");
    if !m.r {
        check!(a.rl == b.rl, "frame: return stack depth");
        each(256, |j| check!(a.r[j] == b.r[j], "frame: return stack contents"));
    }
    if !m.f {
        check!(a.fl == b.fl, "frame: float stack depth");
        each(256, |j| check!(a.f[j].to_bits() == b.f[j].to_bits(), "frame: float stack contents"));
    }
    if !m.cl { check!(a.cl == b.cl, "frame: control stack depth"); }
    if !m.ip { check!(a.ip == b.ip, "frame: instruction pointer"); }
    if !m.here { check!(a.here == b.here, "frame: data-space pointer"); }
    if !m.err { check!(b.err.is_none() && b.rec.aborts == 0, "frame: no error"); }
    if !m.compiling { check!(a.compiling == b.compiling, "frame: compile state"); }
    if !m.tasks { check!(a.cur == b.cur && a.awake == b.awake, "frame: tasks"); }
    if !m.wp { check!(a.wp == b.wp && a.awp == b.awp, "frame: word pointer"); }
    if !m.input { check!(a.sidx == b.sidx && a.sid == b.sid, "frame: input source"); }
    if !m.handler { check!(a.handler == b.handler, "frame: handler"); }
    if !m.words { check!(a.words == b.words, "frame: dictionary"); }
}

/// `n` is a legal depth before and after popping `p` and pushing `q`.
pub fn legal(n: u8, p: usize, q: usize) -> bool {
    let n = n as usize;
    p <= n && n <= 64 && n - p + q <= 64
}

/// The data stack went from `a` to `b` by replacing the top `P` cells by `out`.
pub fn stack_s<const Q: usize>(a: &Snap, b: &Snap, p: usize, out: [isize; Q]) {
    check!(b.sl == a.sl.wrapping_sub(p as u8).wrapping_add(Q as u8), "data stack depth");
    let base = a.sl as usize - p;
    let mut i = 0;
    while i < Q {
        check!(b.s[a.sl.wrapping_sub(p as u8).wrapping_add(i as u8) as usize] == out[i], "data stack result");
        i += 1;
    }
    each(base, |j| check!(a.s[j] == b.s[j], "data stack cells below the operands"));
    check!(a.s[64] == b.s[64] && a.s[255] == b.s[255], "data stack guard cells");
}
pub fn stack_r<const Q: usize>(a: &Snap, b: &Snap, p: usize, out: [isize; Q]) {
    check!(b.rl == a.rl.wrapping_sub(p as u8).wrapping_add(Q as u8), "return stack depth");
    let base = a.rl as usize - p;
    let mut i = 0;
    while i < Q {
        check!(b.r[a.rl.wrapping_sub(p as u8).wrapping_add(i as u8) as usize] == out[i], "return stack result");
        i += 1;
    }
    each(base, |j| check!(a.r[j] == b.r[j], "return stack cells below the operands"));
    check!(a.r[64] == b.r[64] && a.r[255] == b.r[255], "return stack guard cells");
}
pub fn stack_f<const Q: usize>(a: &Snap, b: &Snap, p: usize, out: [f64; Q]) {
    check!(b.fl == a.fl.wrapping_sub(p as u8).wrapping_add(Q as u8), "float stack depth");
    let base = a.fl as usize - p;
    let mut i = 0;
    while i < Q {
        check!(feq(b.f[a.fl.wrapping_sub(p as u8).wrapping_add(i as u8) as usize], out[i]), "float stack result");
        i += 1;
    }
    each(base, |j| check!(a.f[j].to_bits() == b.f[j].to_bits(), "float stack cells below the operands"));
    check!(a.f[64].to_bits() == b.f[64].to_bits() && a.f[255].to_bits() == b.f[255].to_bits(), "float stack guard cells");
}
/// same float: same bits, or both NaN
pub fn feq(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())
}
pub fn top(a: &[isize; 256], len: u8, i: u8) -> isize {
    a[len.wrapping_sub(1).wrapping_sub(i) as usize]
}
pub fn ftop(a: &[f64; 256], len: u8, i: u8) -> f64 {
    a[len.wrapping_sub(1).wrapping_sub(i) as usize]
}
pub fn flag(b: bool) -> isize {
    if b { -1 } else { 0 }
}

/// data-stack word replacing `P` operands by `Q` results
pub fn op<const P: usize, const Q: usize>(w: fn(&mut Kvm), spec: fn([isize; P]) -> [isize; Q]) {
    let mut v = Kvm::any();
    let a = v.snap();
    w(&mut v);
    let b = v.snap();
    check!(b.sl == a.sl.wrapping_sub(P as u8).wrapping_add(Q as u8), "net stack effect");
    if legal(a.sl, P, Q) {
        cover!(true, "pre");
        let mut xs = [0isize; P];
        let mut i = 0;
        while i < P {
            xs[i] = a.s[a.sl.wrapping_sub((P - i) as u8) as usize];
            i += 1;
        }
        stack_s(&a, &b, P, spec(xs));
    }
    frame(&a, &b, May { s: true, ..NONE });
    std::mem::forget(v);
}
pub fn fop<const P: usize, const Q: usize>(w: fn(&mut Kvm), spec: fn([f64; P]) -> [f64; Q]) {
    let mut v = Kvm::any();
    let a = v.snap();
    w(&mut v);
    let b = v.snap();
    check!(b.fl == a.fl.wrapping_sub(P as u8).wrapping_add(Q as u8), "net stack effect");
    if legal(a.fl, P, Q) {
        cover!(true, "pre");
        let mut xs = [0f64; P];
        let mut i = 0;
        while i < P {
            xs[i] = a.f[a.fl.wrapping_sub((P - i) as u8) as usize];
            i += 1;
        }
        stack_f(&a, &b, P, spec(xs));
    }
    frame(&a, &b, May { f: true, ..NONE });
    std::mem::forget(v);
}
/// word moving cells between the data and the return stack
pub fn rop<const P: usize, const Q: usize, const RP: usize, const RQ: usize>(
    w: fn(&mut Kvm),
    spec: fn([isize; P], [isize; RP]) -> ([isize; Q], [isize; RQ]),
) {
    let mut v = Kvm::any();
    let a = v.snap();
    w(&mut v);
    let b = v.snap();
    check!(b.sl == a.sl.wrapping_sub(P as u8).wrapping_add(Q as u8), "net stack effect");
    check!(b.rl == a.rl.wrapping_sub(RP as u8).wrapping_add(RQ as u8), "net return stack effect");
    if legal(a.sl, P, Q) && legal(a.rl, RP, RQ) {
        cover!(true, "pre");
        let mut xs = [0isize; P];
        let mut i = 0;
        while i < P {
            xs[i] = a.s[a.sl.wrapping_sub((P - i) as u8) as usize];
            i += 1;
        }
        let mut rs = [0isize; RP];
        i = 0;
        while i < RP {
            rs[i] = a.r[a.rl.wrapping_sub((RP - i) as u8) as usize];
            i += 1;
        }
        let (o, ro) = spec(xs, rs);
        stack_s(&a, &b, P, o);
        stack_r(&a, &b, RP, ro);
    }
    frame(&a, &b, May { s: true, r: true, ..NONE });
    std::mem::forget(v);
}


// ------------------------------------------------------------ data space
use rtforth::memory::{DataSpace, Memory};
pub type Mem = [u8; CAP];
/// arbitrary contents of the data space; the value is the pre-state copy
pub fn any_mem(ds: &mut DataSpace) -> Mem {
    let m: Mem = any();
    unsafe { std::ptr::copy_nonoverlapping(m.as_ptr(), ds.inner, CAP) };
    m
}
pub fn byte(ds: &DataSpace, off: usize) -> u8 {
    unsafe { *ds.inner.add(off) }
}
/// every byte outside `lo..hi` is as before
pub fn mem_frame(m: &Mem, ds: &DataSpace, lo: usize, hi: usize) {
    each(CAP, |j| {
        if !(lo <= j && j < hi) {
            check!(byte(ds, j) == m[j], "frame: data-space bytes outside the target");
        }
    });
}
pub fn cell_at(m: &Mem, off: usize) -> isize {
    isize::from_ne_bytes([m[off], m[off + 1], m[off + 2], m[off + 3], m[off + 4], m[off + 5], m[off + 6], m[off + 7]])
}
pub fn cell_now(ds: &DataSpace, off: usize) -> isize {
    isize::from_ne_bytes([byte(ds, off), byte(ds, off + 1), byte(ds, off + 2), byte(ds, off + 3),
        byte(ds, off + 4), byte(ds, off + 5), byte(ds, off + 6), byte(ds, off + 7)])
}
/// an arbitrary data-space pointer within the space (at or above the system variables)
pub fn any_here(ds: &mut DataSpace) -> usize {
    let off: usize = any();
    assume(off >= 16 && off <= CAP);
    let p = ds.start() + off;
    let _ = ds.set_here(p);
    off
}
/// natively: often near the data space
pub fn any_addr(ds: &DataSpace) -> usize {
    let a: usize = any();
    #[cfg(not(kani))]
    {
        match any::<u8>() % 4 {
            0 => {}
            1 => return ds.start().wrapping_add(a % (CAP + 20)).wrapping_sub(10),
            2 => return ds.start().wrapping_add(8 * (a % 8)),
            _ => return ds.start().wrapping_add(a % CAP),
        }
    }
    a
}
/// exactly one abort with `e`, which emptied the stacks; memory unchanged
pub fn aborted(a: &Snap, b: &Snap, e: rtforth::exception::Exception, may: May) {
    check!(b.rec.aborts == 1 && b.err == Some(e), "exactly one abort with the documented code");
    check!(b.sl == 0 && b.fl == 0 && b.cl == 0, "nothing is pushed after the abort");
    frame(a, b, May { s: true, f: true, cl: true, err: true, ..may });
}
/// set the cell `k` below the top of the data stack
pub fn poke(v: &mut Kvm, k: u8, x: isize) {
    let i = v.s.len.wrapping_sub(1).wrapping_sub(k) as usize;
    v.s.inner[i] = x;
}
/// `[addr, addr+n)` lies within the data space, in unbounded arithmetic
pub fn inside(ds: &DataSpace, addr: usize, n: usize) -> bool {
    let off = addr.wrapping_sub(ds.start());
    off <= CAP && n <= CAP - off
}
/// the instruction pointer is inside the data space with room for `n` bytes;
/// its offset
pub fn any_ip<V: Vmx>(v: &mut V, n: usize) -> usize {
    let mut off: usize = any();
    #[cfg(not(kani))]
    {
        off %= CAP + 1 - n;
    }
    assume(off <= CAP - n);
    let st = v.data_space().start();
    v.state().instruction_pointer = st + off;
    off
}
