//! C05: what is stored is what is fetched, and nothing else changes.
use crate::nd::*;
use crate::spec::*;
use crate::vm::*;
use crate::{check, contracts, cover};
use rtforth::core::Core;
use rtforth::float::Float;
use rtforth::memory::*;

/// arbitrary VM, memory and a legal address for `n` bytes, `k` below the top
fn setup(k: u8, n: usize, align8: bool) -> (Kvm, Mem, usize) {
    let mut v = Kvm::any();
    let m = any_mem(&mut v.ds);
    let mut off: usize = any();
    #[cfg(not(kani))]
    {
        off %= CAP;
    }
    assume(off >= 1 && off <= CAP - n);
    let addr = v.ds.start() + off;
    if align8 {
        off = (off + 7) & !7;
        assume(off + 8 <= CAP);
    }
    poke(&mut v, k, addr as isize);
    (v, m, off)
}

contracts! {
    #[kani::solver(z3)]
    fn fetch() {
        let (mut v, m, off) = setup(0, 8, false);
        let a = v.snap();
        v.fetch();
        let b = v.snap();
        check!(b.sl == a.sl, "net stack effect");
        if legal(a.sl, 1, 1) {
            cover!(true, "pre");
            stack_s(&a, &b, 1, [cell_at(&m, off)]);
        }
        mem_frame(&m, &v.ds, 0, 0);
        frame(&a, &b, May { s: true, ..NONE });
        std::mem::forget(v);
    }
    #[kani::solver(z3)]
    fn store() {
        let (mut v, m, off) = setup(0, 8, false);
        let a = v.snap();
        v.store();
        let b = v.snap();
        check!(b.sl == a.sl.wrapping_sub(2), "net stack effect");
        if legal(a.sl, 2, 0) {
            cover!(true, "pre");
            stack_s(&a, &b, 2, []);
        }
        check!(cell_now(&v.ds, off) == top(&a.s, a.sl, 1), "the cell is stored");
        mem_frame(&m, &v.ds, off, off + 8);
        frame(&a, &b, May { s: true, ..NONE });
        std::mem::forget(v);
    }
    #[kani::solver(z3)]
    fn c_fetch() {
        let (mut v, m, off) = setup(0, 1, false);
        let a = v.snap();
        v.c_fetch();
        let b = v.snap();
        check!(b.sl == a.sl, "net stack effect");
        if legal(a.sl, 1, 1) {
            cover!(true, "pre");
            stack_s(&a, &b, 1, [m[off] as isize]);
        }
        mem_frame(&m, &v.ds, 0, 0);
        frame(&a, &b, May { s: true, ..NONE });
        std::mem::forget(v);
    }
    #[kani::solver(z3)]
    fn c_store() {
        let (mut v, m, off) = setup(0, 1, false);
        let a = v.snap();
        v.c_store();
        let b = v.snap();
        check!(b.sl == a.sl.wrapping_sub(2), "net stack effect");
        if legal(a.sl, 2, 0) {
            cover!(true, "pre");
            stack_s(&a, &b, 2, []);
        }
        check!(byte(&v.ds, off) == (top(&a.s, a.sl, 1) & 0xff) as u8, "the low byte is stored");
        mem_frame(&m, &v.ds, off, off + 1);
        frame(&a, &b, May { s: true, ..NONE });
        std::mem::forget(v);
    }
    #[kani::solver(z3)]
    fn ffetch() {
        let (mut v, m, off) = setup(0, 1, true);
        let a = v.snap();
        v.ffetch();
        let b = v.snap();
        check!(b.sl == a.sl.wrapping_sub(1) && b.fl == a.fl.wrapping_add(1), "net stack effect");
        if legal(a.sl, 1, 0) && legal(a.fl, 0, 1) {
            cover!(true, "pre");
            stack_s(&a, &b, 1, []);
            stack_f(&a, &b, 0, [f64::from_bits(cell_at(&m, off) as u64)]);
        }
        mem_frame(&m, &v.ds, 0, 0);
        frame(&a, &b, May { s: true, f: true, ..NONE });
        std::mem::forget(v);
    }
    #[kani::solver(z3)]
    fn fstore() {
        let (mut v, m, off) = setup(0, 1, true);
        let a = v.snap();
        v.fstore();
        let b = v.snap();
        check!(b.sl == a.sl.wrapping_sub(1) && b.fl == a.fl.wrapping_sub(1), "net stack effect");
        if legal(a.sl, 1, 0) && legal(a.fl, 1, 0) {
            cover!(true, "pre");
            stack_s(&a, &b, 1, []);
            stack_f(&a, &b, 1, []);
        }
        check!(feq(f64::from_bits(cell_now(&v.ds, off) as u64), ftop(&a.f, a.fl, 0)), "the float is stored");
        mem_frame(&m, &v.ds, off, off + 8);
        frame(&a, &b, May { s: true, f: true, ..NONE });
        std::mem::forget(v);
    }
    /// move within a small window of the data space, every overlap
    #[kani::solver(cadical)]
    #[kani::unwind(7)]
    fn move_inside() {
        let mut v = Kvm::any();
        let m = any_mem(&mut v.ds);
        let st = v.ds.start();
        let (so, to, u): (usize, usize, usize) = (any(), any(), any());
        assume(u >= 1 && u <= 3 && so >= 1 && to >= 1 && so <= CAP - u && to <= CAP - u);
        poke(&mut v, 2, (st + so) as isize);
        poke(&mut v, 1, (st + to) as isize);
        poke(&mut v, 0, u as isize);
        let a = v.snap();
        v.p_move();
        let b = v.snap();
        check!(b.sl == a.sl.wrapping_sub(3), "net stack effect");
        if legal(a.sl, 3, 0) {
            cover!(true, "pre");
            stack_s(&a, &b, 3, []);
        }
        each(u, |j| check!(byte(&v.ds, to + j) == m[so + j], "the bytes are copied as they were"));
        mem_frame(&m, &v.ds, to, to + u);
        frame(&a, &b, May { s: true, ..NONE });
        std::mem::forget(v);
    }
}
crate::closed! {
    fn bindings() {
        use crate::bind::*;
        check_bindings(&[
            ("@", Kvm::fetch, 0), ("!", Kvm::store, 0), ("c@", Kvm::c_fetch, 0), ("c!", Kvm::c_store, 0),
            ("f@", Kvm::ffetch, 0), ("f!", Kvm::fstore, 0), ("move", Kvm::p_move, 0),
        ]);
    }
    /// all overlaps with larger counts, evaluated
    /// every source, target and count in a window, distinct contents: exhaustive
    fn move_window() {
        thread_local! { static DONE: std::cell::Cell<bool> = std::cell::Cell::new(false); }
        if DONE.with(|d| d.replace(true)) { return; }
        hit("pre");
        let mut v = Kvm::any();
        let c: Vec<u8> = (0..CAP).map(|i| i as u8 + 100).collect();
        let st = v.ds.start();
        for so in 1..CAP { for to in 1..CAP { for u in 0..=(CAP - so.max(to)) {
            unsafe { std::ptr::copy_nonoverlapping(c.as_ptr(), v.ds.inner, CAP) };
            v.s.len = 0;
            v.s.push3((st + so) as isize, (st + to) as isize, u as isize);
            v.p_move();
            let mut want = c.clone();
            want.copy_within(so..so + u, to);
            let got = unsafe { std::slice::from_raw_parts(v.ds.inner, CAP) };
            if got != &want[..] || v.rec.aborts != 0 || v.s.len != 0 {
                panic!("CONTRACT move from {} to {} of {} bytes", so, to, u);
            }
        } } }
    }
    fn move_large() {
        let mut v = Kvm::any_cap(4096);
        let st = v.ds.start();
        let c: Vec<u8> = (0..4096).map(|_| any()).collect();
        unsafe { std::ptr::copy_nonoverlapping(c.as_ptr(), v.ds.inner, 4096) };
        let u = any::<usize>() % 1500;
        let so = 1 + any::<usize>() % 1200;
        let to = if any() { 1 + any::<usize>() % 1200 } else { (so + any::<usize>() % 40).max(20) - 19 };
        v.s.reset(); v.r.reset(); v.f.reset();
        v.s.push3((st + so) as isize, (st + to) as isize, u as isize);
        hit("pre");
        v.p_move();
        let mut want = c.clone();
        want.copy_within(so..so + u, to);
        let got = unsafe { std::slice::from_raw_parts(v.ds.inner, 4096) };
        if got != &want[..] || v.rec.aborts != 0 || v.s.len != 0 {
            panic!("CONTRACT move from {} to {} of {} bytes", so, to, u);
        }
    }
}
