//! C04: memory access never leaves the data space.
use crate::nd::*;
use crate::spec::*;
use crate::vm::*;
use crate::{check, contracts, cover};
use rtforth::core::Core;
use rtforth::exception::*;
use rtforth::file_access::FileAccess;
use rtforth::float::Float;
use rtforth::loader::HasLoader;
use rtforth::memory::*;
use rtforth::output::Output;

/// a word taking an address `k` below the top: outside `ok`, one -9 abort,
/// nothing written; `ok` gets the address
fn confine(w: fn(&mut Kvm), k: u8, ok: fn(&DataSpace, usize) -> bool) {
    let mut v = Kvm::any();
    let m = any_mem(&mut v.ds);
    let addr = any_addr(&v.ds);
    poke(&mut v, k, addr as isize);
    let a = v.snap();
    w(&mut v);
    let b = v.snap();
    if ok(&v.ds, addr) {
        cover!(true, "inside");
        check!(b.rec.aborts == 0 && b.err.is_none(), "an address inside the data space is accepted");
    } else {
        cover!(true, "outside");
        aborted(&a, &b, INVALID_MEMORY_ADDRESS, NONE);
        mem_frame(&m, &v.ds, 0, 0);
    }
    std::mem::forget(v);
}
fn up8(a: usize) -> usize {
    a.wrapping_add(7) & !7
}

contracts! {
    #[kani::solver(z3)]
    fn fetch() { confine(Kvm::fetch, 0, |d, a| inside(d, a, 8) && a != d.start()) }
    #[kani::solver(z3)]
    fn store() { confine(Kvm::store, 0, |d, a| inside(d, a, 8) && a != d.start()) }
    #[kani::solver(z3)]
    fn c_fetch() { confine(Kvm::c_fetch, 0, |d, a| inside(d, a, 1)) }
    #[kani::solver(z3)]
    fn c_store() { confine(Kvm::c_store, 0, |d, a| inside(d, a, 1) && a != d.start()) }
    #[kani::solver(z3)]
    fn ffetch() { confine(Kvm::ffetch, 0, |d, a| inside(d, up8(a), 8)) }
    #[kani::solver(z3)]
    fn fstore() { confine(Kvm::fstore, 0, |d, a| inside(d, up8(a), 8)) }
    #[kani::solver(z3)]
    fn has_and_has_range() {
        let v = Kvm::any();
        let (a, n) = (any_addr(&v.ds), any::<usize>());
        cover!(inside(&v.ds, a, n), "pre");
        check!(v.ds.has(a) == inside(&v.ds, a, 1), "has is exact");
        check!(v.ds.has_range(a, n) == inside(&v.ds, a, n), "has_range is exact");
        check!(v.ds.limit() == v.ds.start() + CAP && v.ds.capacity() == CAP, "limits");
        std::mem::forget(v);
    }
    /// move with a range that leaves the data space: rejected as a whole
    #[kani::solver(z3)]
    #[kani::unwind(8)]
    fn move_outside() {
        let mut v = Kvm::any();
        let m = any_mem(&mut v.ds);
        let (src, dst, u) = (any_addr(&v.ds), any_addr(&v.ds), any::<isize>());
        poke(&mut v, 2, src as isize);
        poke(&mut v, 1, dst as isize);
        poke(&mut v, 0, u);
        let st = v.ds.start();
        assume(u <= 0 || !(inside(&v.ds, src, u as usize) && inside(&v.ds, dst, u as usize) && src != st && dst != st));
        let a = v.snap();
        v.p_move();
        let b = v.snap();
        mem_frame(&m, &v.ds, 0, 0);
        if u <= 0 {
            cover!(true, "nothing to move");
            check!(b.sl == a.sl.wrapping_sub(3), "net stack effect");
            frame(&a, &b, May { s: true, ..NONE });
        } else {
            cover!(true, "outside");
            aborted(&a, &b, INVALID_MEMORY_ADDRESS, NONE);
        }
        std::mem::forget(v);
    }
    #[kani::solver(z3)]
    fn type_outside() {
        let mut v = Kvm::any();
        let (addr, u) = (any_addr(&v.ds), any::<isize>());
        poke(&mut v, 1, addr as isize);
        poke(&mut v, 0, u);
        // the word reports a data-stack underflow first
        assume(v.s.len >= 2 && v.s.len <= 64 && v.s.inner[255] == v.s.canary);
        assume(u != 0 && !inside(&v.ds, addr, u as usize));
        let m = any_mem(&mut v.ds);
        let a = v.snap();
        v.p_type();
        let b = v.snap();
        cover!(true, "outside");
        aborted(&a, &b, INVALID_MEMORY_ADDRESS, NONE);
        mem_frame(&m, &v.ds, 0, 0);
        std::mem::forget(v);
    }
    #[kani::solver(cadical)]
    fn store_token_outside() {
        let mut v = Kvm::any();
        let m = any_mem(&mut v.ds);
        let addr = any_addr(&v.ds);
        poke(&mut v, 0, addr as isize);
        // counted string plus one cell of slack does not fit
        assume(!inside(&v.ds, addr, 8));
        let a = v.snap();
        v.store_token();
        let b = v.snap();
        cover!(true, "outside");
        aborted(&a, &b, INVALID_MEMORY_ADDRESS, NONE);
        mem_frame(&m, &v.ds, 0, 0);
        std::mem::forget(v);
    }
    #[kani::solver(cadical)]
    fn open_source_outside() {
        let mut v = Kvm::any();
        let m = any_mem(&mut v.ds);
        let (addr, u) = (any_addr(&v.ds), any::<isize>());
        poke(&mut v, 2, addr as isize);
        poke(&mut v, 1, u);
        assume(!inside(&v.ds, addr, u as usize));
        let a = v.snap();
        v.open_source();
        let b = v.snap();
        cover!(true, "outside");
        aborted(&a, &b, INVALID_MEMORY_ADDRESS, NONE);
        mem_frame(&m, &v.ds, 0, 0);
        std::mem::forget(v);
    }
    /// c-addr u fam: the address range is checked before any file is touched
    #[kani::solver(cadical)]
    #[kani::stub(std::fs::OpenOptions::open, no_open)]
    fn open_file_outside() { path_outside(Kvm::open_file, true) }
    #[kani::solver(cadical)]
    #[kani::stub(std::fs::OpenOptions::open, no_open)]
    fn create_file_outside() { path_outside(Kvm::create_file, true) }
    #[kani::solver(cadical)]
    #[kani::stub(std::fs::remove_file, no_remove)]
    fn delete_file_outside() { path_outside(Kvm::delete_file, false) }
    /// `execute`-like data access by the inner interpreter
    #[kani::solver(z3)]
    #[kani::unwind(8)]
    fn run_outside() { stops(Xvm::run_) }
    #[kani::solver(z3)]
    fn forth_outside() { stops(|v| { let more = v.forth(); check!(!more, "forth reports that the program ended"); }) }
}
impl Xvm {
    fn run_(&mut self) { self.run() }
}
/// an instruction pointer outside the data space ends the inner loop at once
fn stops(f: fn(&mut Xvm)) {
    let mut v = Xvm::any();
    let ip = any_addr(&v.ds);
    v.st.instruction_pointer = ip;
    assume(!inside(&v.ds, ip, 8));
    let a = v.snap();
    f(&mut v);
    let b = v.snap();
    cover!(true, "outside");
    check!(b.rec.execs == 0, "nothing is executed");
    frame(&a, &b, NONE);
    std::mem::forget(v);
}
/// the file system must not be reached
#[cfg(kani)]
fn no_open<P: AsRef<std::path::Path>>(_o: &std::fs::OpenOptions, _p: P) -> std::io::Result<std::fs::File> {
    kani::assert(false, "CONTRACT no file is opened with an invalid name");
    kani::assume(false);
    loop {}
}
#[cfg(kani)]
fn no_remove<P: AsRef<std::path::Path>>(_p: P) -> std::io::Result<()> {
    kani::assert(false, "CONTRACT no file is deleted with an invalid name");
    kani::assume(false);
    loop {}
}
fn path_outside(w: fn(&mut Kvm), fam: bool) {
    let mut v = Kvm::any();
    let m = any_mem(&mut v.ds);
    let (addr, u) = (any_addr(&v.ds), any::<isize>());
    let k = if fam { 1 } else { 0 };
    poke(&mut v, k + 1, addr as isize);
    poke(&mut v, k, u);
    assume(!inside(&v.ds, addr, u as usize));
    let a = v.snap();
    w(&mut v);
    let b = v.snap();
    mem_frame(&m, &v.ds, 0, 0);
    let (p, q) = if fam { (3, 2) } else { (2, 1) };
    check!(b.sl == a.sl.wrapping_sub(p).wrapping_add(q), "net stack effect");
    if legal(a.sl, p as usize, q as usize) {
        cover!(true, "outside");
        let ior = top(&b.s, b.sl, 0);
        check!(ior == -9 || ior == -24, "a result code reports the failure");
        let fam_ok = { let f = top(&a.s, a.sl, 0); !fam || f == 2 || f == 1 };
        if (0..=256).contains(&u) && fam_ok {
            check!(ior == -9, "an out-of-range name is an invalid address");
        }
        if fam {
            check!(top(&b.s, b.sl, 1) == -1, "no file id");
        }
    }
    check!(v.files.len() == 0, "no file is opened");
    frame(&a, &b, May { s: true, ..NONE });
    std::mem::forget(v);
}
crate::closed! {
    fn bindings() {
        use crate::bind::*;
        check_bindings(&[
            ("@", Kvm::fetch, 0), ("!", Kvm::store, 0), ("c@", Kvm::c_fetch, 0), ("c!", Kvm::c_store, 0),
            ("f@", Kvm::ffetch, 0), ("f!", Kvm::fstore, 0), ("move", Kvm::p_move, 0), ("type", Kvm::p_type, 0),
            ("!token", Kvm::store_token, 0), ("open-source", Kvm::open_source, 0),
        ]);
    }
}
