//! C06: data-space allocation.
use crate::nd::*;
use crate::spec::*;
use crate::vm::*;
use crate::{check, contracts, cover};
use rtforth::core::Core;
use rtforth::float::Float;
use rtforth::memory::*;

/// compile `n` bytes at here: stored, here advanced, the rest unchanged
fn compiles(n: usize, f: fn(&mut DataSpace, u64), bytes: fn(&DataSpace, usize, u64) -> bool) {
    let mut d = DataSpace::with_capacity(CAP);
    let m = any_mem(&mut d);
    let off = any_here(&mut d);
    assume(off <= CAP - n);
    let x: u64 = any();
    let here = d.here();
    f(&mut d, x);
    cover!(true, "pre");
    check!(d.here() == here + n, "here advances by the size");
    check!(bytes(&d, off, x), "the value is stored at the old here");
    mem_frame(&m, &d, off, off + n);
    std::mem::forget(d);
}
/// what happens when the space is full: here and memory stay put
fn aligns(f: fn(&mut Kvm), n: usize) {
    let mut v = Kvm::any();
    let m = any_mem(&mut v.ds);
    let off = any_here(&mut v.ds);
    let a = v.snap();
    f(&mut v);
    let b = v.snap();
    cover!(true, "pre");
    let want = (a.here + n - 1) / n * n;
    check!(b.here == want, "here is the next aligned address");
    check!(b.here >= a.here && b.here - a.here < n && b.here % n == 0, "aligned");
    mem_frame(&m, &v.ds, 0, 0);
    frame(&a, &b, May { here: true, ..NONE });
    std::mem::forget(v);
}

contracts! {
    #[kani::solver(z3)]
    fn here() {
        let mut v = Kvm::any();
        any_here(&mut v.ds);
        let a = v.snap();
        v.here();
        let b = v.snap();
        check!(b.sl == a.sl.wrapping_add(1), "net stack effect");
        if legal(a.sl, 0, 1) {
            cover!(true, "pre");
            stack_s(&a, &b, 0, [a.here as isize]);
        }
        frame(&a, &b, May { s: true, ..NONE });
        std::mem::forget(v);
    }
    #[kani::solver(z3)]
    fn set_here_exact() {
        let mut d = DataSpace::with_capacity(CAP);
        any_here(&mut d);
        let m = any_mem(&mut d);
        let pos = any_addr(&d);
        let here = d.here();
        let r = d.set_here(pos);
        cover!(r.is_ok(), "accepted");
        cover!(r.is_err(), "rejected");
        check!(r.is_ok() == inside(&d, pos, 0), "accepted exactly within the data space");
        check!(d.here() == if r.is_ok() { pos } else { here }, "here");
        mem_frame(&m, &d, 0, 0);
        std::mem::forget(d);
    }
    /// allot moves here by n exactly when the result stays in the data space
    #[kani::solver(z3)]
    fn allot() {
        let mut v = Kvm::any();
        let m = any_mem(&mut v.ds);
        any_here(&mut v.ds);
        let n: isize = any();
        poke(&mut v, 0, n);
        let a = v.snap();
        let to = a.here.wrapping_add(n as usize);
        v.allot();
        let b = v.snap();
        check!(b.sl == a.sl.wrapping_sub(1), "net stack effect");
        if legal(a.sl, 1, 0) {
            stack_s(&a, &b, 1, []);
        }
        if inside(&v.ds, to, 0) {
            cover!(true, "fits");
            check!(b.here == to, "here moves by n");
        } else {
            cover!(true, "does not fit");
            check!(b.here == a.here, "here never leaves the data space");
        }
        mem_frame(&m, &v.ds, 0, 0);
        frame(&a, &b, May { s: true, here: true, ..NONE });
        std::mem::forget(v);
    }
    #[kani::solver(z3)]
    fn align() { aligns(Kvm::align, 8) }
    #[kani::solver(z3)]
    fn falign() { aligns(Kvm::falign, 8) }
    #[kani::solver(z3)]
    fn align_16bytes() { aligns(|v| v.ds.align_16bytes(), 16) }
    #[kani::solver(z3)]
    fn aligned_functions() {
        let p: usize = any();
        assume(p <= usize::MAX - 15);
        cover!(true, "pre");
        let ok = |r: usize, n: usize| r >= p && r - p < n && r % n == 0;
        check!(ok(<DataSpace as Memory>::aligned(p), 8), "aligned");
        check!(ok(<DataSpace as Memory>::aligned_f64(p), 8), "aligned_f64");
        check!(ok(<DataSpace as Memory>::aligned_16bytes(p), 16), "aligned_16bytes");
    }
    #[kani::solver(cadical)]
    fn comma() {
        let mut v = Kvm::any();
        let m = any_mem(&mut v.ds);
        let off = any_here(&mut v.ds);
        assume(off + 8 <= CAP);
        let a = v.snap();
        v.comma();
        let b = v.snap();
        check!(b.sl == a.sl.wrapping_sub(1), "net stack effect");
        if legal(a.sl, 1, 0) {
            cover!(true, "pre");
            stack_s(&a, &b, 1, []);
        }
        check!(b.here == a.here + 8, "one cell is reserved");
        check!(cell_now(&v.ds, off) == top(&a.s, a.sl, 0), "the cell holds x");
        mem_frame(&m, &v.ds, off, off + 8);
        frame(&a, &b, May { s: true, here: true, ..NONE });
        std::mem::forget(v);
    }
    #[kani::solver(cadical)]
    fn compile_u8() { compiles(1, |d, x| d.compile_u8(x as u8), |d, o, x| byte(d, o) == x as u8) }
    #[kani::solver(cadical)]
    fn compile_usize() { compiles(8, |d, x| d.compile_usize(x as usize), |d, o, x| cell_now(d, o) == x as isize) }
    #[kani::solver(cadical)]
    fn compile_isize() { compiles(8, |d, x| d.compile_isize(x as isize), |d, o, x| cell_now(d, o) == x as isize) }
    #[kani::solver(cadical)]
    fn compile_f64() { compiles(8, |d, x| d.compile_f64(f64::from_bits(x)), |d, o, x| feq(f64::from_bits(cell_now(d, o) as u64), f64::from_bits(x))) }
    #[kani::solver(cadical)]
    fn compile_relative() {
        compiles(8, |d, x| d.compile_relative(x as usize),
            |d, o, x| (d.start() + o + 8).wrapping_add(cell_now(d, o) as usize) == x as usize)
    }
    /// a counted string of every length up to 6 at every place it fits
    #[kani::solver(cadical)]
    #[kani::unwind(8)]
    fn put_cstr_bounded() {
        let mut d = DataSpace::with_capacity(CAP);
        let m = any_mem(&mut d);
        let (t, n): ([u8; 6], usize) = (any(), any());
        assume(n <= 6);
        let mut k = 0;
        while k < 6 { assume(t[k] < 128); k += 1; }
        let s = unsafe { std::str::from_utf8_unchecked(&t[..n]) };
        let off: usize = any();
        assume(off <= CAP && off + n + 8 <= CAP);
        let here = d.here();
        let p = d.start() + off;
        d.put_cstr(s, p);
        cover!(true, "pre");
        check!(byte(&d, off) as usize == n, "count");
        each(n, |j| check!(byte(&d, off + 1 + j) == t[j], "characters"));
        mem_frame(&m, &d, off, off + 1 + n);
        std::mem::forget(d);
    }
    /// cell count and characters at here
    #[kani::solver(cadical)]
    #[kani::unwind(8)]
    fn compile_str_bounded() {
        let mut d = DataSpace::with_capacity(CAP);
        let m = any_mem(&mut d);
        let (t, n): ([u8; 5], usize) = (any(), any());
        assume(n <= 5);
        let mut k = 0;
        while k < 5 { assume(t[k] < 128); k += 1; }
        let s = unsafe { std::str::from_utf8_unchecked(&t[..n]) };
        let off = any_here(&mut d);
        assume(off <= CAP && off + n + 8 <= CAP);
        let here = d.here();
        let r = d.compile_str(s);
        cover!(true, "pre");
        check!(r == here && d.here() == here + 8 + n, "address and here");
        check!(cell_now(&d, off) as usize == n, "count");
        each(n, |j| check!(byte(&d, off + 8 + j) == t[j], "characters"));
        mem_frame(&m, &d, off, off + 8 + n);
        std::mem::forget(d);
    }
    /// a new data space: BASE is decimal and here is past the system variables
    #[kani::solver(z3)]
    fn fresh_space() {
        let d = DataSpace::with_capacity(CAP);
        let st = d.start();
        cover!(true, "pre");
        check!(d.here() == st + 16 && st % 8 == 0, "here starts after the system variables");
        check!(d.system_variables().base_addr() == st + 8, "base is the second cell");
        check!(cell_now(&d, 8) == 10, "base is decimal");
        std::mem::forget(d);
    }
}
#[cfg(not(kani))]
fn refuses(w: fn(&mut DataSpace, &str), n: usize) {
    // natively only: a compile that does not fit panics before writing anything
    let mut d = DataSpace::with_capacity(CAP);
    for i in 0..CAP { unsafe { *d.inner.add(i) = any() } }
    let m: Vec<u8> = (0..CAP).map(|i| byte(&d, i)).collect();
    let len = any::<usize>() % 40;
    let off = (CAP + 1).saturating_sub(if n > 0 { n } else { 8 + len }) + any::<usize>() % 8;
    if off > CAP { return; }
    hit("pre");
    let p = d.start() + off;
    let _ = d.set_here(p);
    let s = "x".repeat(len);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| w(&mut d, &s)));
    let now: Vec<u8> = (0..CAP).map(|i| byte(&d, i)).collect();
    if r.is_ok() || now != m || d.here() != p {
        std::panic::panic_any("CONTRACT a compile that does not fit leaves the space unchanged and is refused");
    }
}
crate::closed! {
    fn bindings() {
        crate::bind::check_bindings(&[
            ("here", Kvm::here, 0), ("allot", Kvm::allot, 0), ("align", Kvm::align, 0), (",", Kvm::comma, 0), ("falign", Kvm::falign, 0),
        ]);
    }
    fn full_u8() { refuses(|d, _| d.compile_u8(1), 1) }
    fn full_usize() { refuses(|d, _| d.compile_usize(1), 8) }
    fn full_isize() { refuses(|d, _| d.compile_isize(1), 8) }
    fn full_f64() { refuses(|d, _| d.compile_f64(1.0), 8) }
    fn full_str() { refuses(|d, s| { d.compile_str(s); }, 0) }
    fn counted_string() {
        let mut d = DataSpace::with_capacity(4096);
        let n = any::<usize>() % 400;
        let s: String = (0..n).map(|_| (32 + any::<u8>() % 90) as char).collect();
        let p = d.start() + 16 + any::<usize>() % 3000;
        hit("pre");
        d.put_cstr(&s, p);
        let k = n.min(255);
        let o = p - d.start();
        let got: Vec<u8> = (0..k).map(|i| byte(&d, o + 1 + i)).collect();
        if byte(&d, o) as usize != k || got != s.as_bytes()[..k] || byte(&d, o + k + 1) != 0 || byte(&d, o - 1) != 0 && o > 16 {
            panic!("CONTRACT counted string of length {}", n);
        }
    }
}
