//! C19: labels: every jump to a label, compiled before or after it, goes to it.
//! A "body" between the words only moves the data-space pointer.
use crate::nd::*;
use crate::spec::*;
use crate::vm::*;
use crate::{check, contracts, cover};
use rtforth::core::*;
use rtforth::exception::*;
use rtforth::memory::*;
use rtforth::hibitset::{BitSet, BitSetLike};

const LABELS: usize = 4;
fn start() -> (Kvm, Mem, Snap) {
    let mut v = Kvm::lean();
    let m = any_mem(&mut v.ds);
    v.labels = Vec::with_capacity(LABELS);
    let mut i = 0;
    while i < LABELS {
        v.labels.push(any());
        i += 1;
    }
    unsafe { SETS = [0, 0] }
    v.refs.idx_branch = any();
    v.refs.idx_lit = any();
    v.refs.idx_to_r = any();
    let a = v.snap();
    (v, m, a)
}
/// the code compiled so far: arbitrary.  `n` bytes fit after it
fn go(v: &mut Kvm, n: usize) -> usize {
    let mut off: usize = any();
    #[cfg(not(kani))]
    { off %= CAP - n + 1; }
    assume(off <= CAP - n);
    let p = v.ds.start() + off;
    let _ = v.ds.set_here(p);
    off
}

// ---- the sets of labels, by contract (the crate hibitset): forward, resolved.
// The sets of a fresh VM are told apart by their address
pub static mut SETS: [usize; 2] = [0, 0];
pub static mut FWD: *const BitSet = std::ptr::null();
fn set(s: &BitSet) -> &'static mut usize {
    unsafe { if std::ptr::eq(s, FWD) { &mut *std::ptr::addr_of_mut!(SETS[0]) } else { &mut *std::ptr::addr_of_mut!(SETS[1]) } }
}
pub fn set_add(s: &mut BitSet, id: u32) -> bool {
    check!((id as usize) < LABELS, "a label number");
    let x = set(s);
    let was = *x & 1 << id != 0;
    *x |= 1 << id;
    was
}
pub fn set_remove(s: &mut BitSet, id: u32) -> bool {
    let x = set(s);
    let was = *x & 1 << id != 0;
    *x &= !(1 << id);
    was
}
pub fn set_contains(s: &BitSet, id: u32) -> bool {
    *set(s) & 1 << id != 0
}
pub fn set_clear(s: &mut BitSet) {
    *set(s) = 0;
}
pub fn set_layer3(s: &BitSet) -> usize {
    *set(s)
}
fn sets(v: &Kvm) {
    unsafe { FWD = &v.fwd }
}
fn empty(s: &BitSet) -> bool {
    #[cfg(kani)]
    return *set(s) == 0;
    #[cfg(not(kani))]
    return s.is_empty();
}
fn apart(x: usize, n: usize, y: usize, k: usize) {
    assume(x + n <= y || y + k <= x);
}
fn word(v: &mut Kvm, w: fn(&mut Kvm), n: isize) {
    v.s.push(n);
    w(v);
}
fn cells<const N: usize>(v: &Kvm, off: usize, x: [usize; N]) {
    let mut i = 0;
    while i < N {
        check!(cell_now(&v.ds, off + 8 * i) as usize == x[i], "the code of the jump");
        i += 1;
    }
}
/// the operand of the jump compiled at `off` is the address `to`
fn target(v: &Kvm, off: usize, to: usize) {
    check!(cell_now(&v.ds, off) as usize == v.refs.idx_branch, "a branch");
    check!(cell_now(&v.ds, off + 8) as usize == v.ds.start() + to, "to its label");
}
fn done(mut v: Kvm, m: &Mem, a: &Snap, r: [(usize, usize); 3]) {
    let b = v.snap();
    each(CAP, |j| {
        if !(r[0].0 <= j && j < r[0].1) && !(r[1].0 <= j && j < r[1].1) && !(r[2].0 <= j && j < r[2].1) {
            check!(byte(&v.ds, j) == m[j], "other code is untouched");
        }
    });
    frame(&a, &b, May { s: true, here: true, ..NONE });
    check!(b.sl == a.sl, "only the label number is taken");
    std::mem::forget(v);
}
fn here_is(v: &Kvm, off: usize) -> bool {
    v.ds.here() == v.ds.start() + off
}
fn invalid(w: fn(&mut Kvm), code: bool) {
    let (mut v, m, _) = start();
        sets(&v);
    let h = go(&mut v, 24);
    let n: isize = any();
    assume(n <= 0 || n >= LABELS as isize);
    word(&mut v, w, n);
    let b = v.snap();
    cover!(true, "no label number");
    check!(b.rec.aborts == 1 && b.err == Some(INVALID_NUMERIC_ARGUMENT), "rejected");
    each(CAP, |j| if !(code && h <= j && j < h + 24) { check!(byte(&v.ds, j) == m[j], "code is untouched") });
    check!(empty(&v.fwd) && empty(&v.res), "no label is made");
    std::mem::forget(v);
}

contracts! {
    /// backwards: the label, then two jumps
    #[kani::solver(minisat)]
    #[kani::unwind(9)]
    #[kani::stub(rtforth::hibitset::BitSet::add, set_add)]
    #[kani::stub(rtforth::hibitset::BitSet::remove, set_remove)]
    #[kani::stub(rtforth::hibitset::BitSet::contains, set_contains)]
    #[kani::stub(rtforth::hibitset::BitSet::clear, set_clear)]
    #[kani::stub(<rtforth::hibitset::BitSet as rtforth::hibitset::BitSetLike>::layer3, set_layer3)]
    fn backwards() {
        let (mut v, m, a) = start();
        sets(&v);
        let h0 = go(&mut v, 0);
        word(&mut v, Kvm::imm_label, 3);
        check!(here_is(&v, h0), "a label compiles nothing");
        let h1 = go(&mut v, 16);
        word(&mut v, Kvm::imm_goto, 3);
        check!(here_is(&v, h1 + 16), "two cells");
        let h2 = go(&mut v, 16);
        apart(h1, 16, h2, 16);
        word(&mut v, Kvm::imm_goto, 3);
        cover!(true, "pre");
        target(&v, h1, h0);
        target(&v, h2, h0);
        done(v, &m, &a, [(h1, h1 + 16), (h2, h2 + 16), (0, 0)]);
    }
    /// forwards: two jumps before the label, one after it
    #[kani::solver(minisat)]
    #[kani::unwind(9)]
    #[kani::stub(rtforth::hibitset::BitSet::add, set_add)]
    #[kani::stub(rtforth::hibitset::BitSet::remove, set_remove)]
    #[kani::stub(rtforth::hibitset::BitSet::contains, set_contains)]
    #[kani::stub(rtforth::hibitset::BitSet::clear, set_clear)]
    #[kani::stub(<rtforth::hibitset::BitSet as rtforth::hibitset::BitSetLike>::layer3, set_layer3)]
    fn forwards() {
        let (mut v, m, a) = start();
        sets(&v);
        let h0 = go(&mut v, 16);
        word(&mut v, Kvm::imm_goto, 1);
        let h1 = go(&mut v, 16);
        apart(h0, 16, h1, 16);
        word(&mut v, Kvm::imm_goto, 1);
        check!(here_is(&v, h1 + 16), "two cells");
        let h2 = go(&mut v, 0);
        word(&mut v, Kvm::imm_label, 1);
        check!(here_is(&v, h2), "a label compiles nothing");
        let h3 = go(&mut v, 16);
        apart(h0, 16, h3, 16);
        apart(h1, 16, h3, 16);
        word(&mut v, Kvm::imm_goto, 1);
        cover!(true, "pre");
        target(&v, h0, h2);
        target(&v, h1, h2);
        target(&v, h3, h2);
        check!(empty(&v.fwd), "nothing is left to resolve");
        done(v, &m, &a, [(h0, h0 + 16), (h1, h1 + 16), (h3, h3 + 16)]);
    }
    /// three jumps before the label
    #[kani::solver(minisat)]
    #[kani::unwind(9)]
    #[kani::stub(rtforth::hibitset::BitSet::add, set_add)]
    #[kani::stub(rtforth::hibitset::BitSet::remove, set_remove)]
    #[kani::stub(rtforth::hibitset::BitSet::contains, set_contains)]
    #[kani::stub(rtforth::hibitset::BitSet::clear, set_clear)]
    #[kani::stub(<rtforth::hibitset::BitSet as rtforth::hibitset::BitSetLike>::layer3, set_layer3)]
    fn chain() {
        let (mut v, m, a) = start();
        sets(&v);
        let h0 = go(&mut v, 16);
        word(&mut v, Kvm::imm_goto, 2);
        let h1 = go(&mut v, 16);
        apart(h0, 16, h1, 16);
        word(&mut v, Kvm::imm_goto, 2);
        let h2 = go(&mut v, 16);
        apart(h0, 16, h2, 16);
        apart(h1, 16, h2, 16);
        word(&mut v, Kvm::imm_goto, 2);
        let h3 = go(&mut v, 0);
        word(&mut v, Kvm::imm_label, 2);
        cover!(true, "pre");
        target(&v, h0, h3);
        target(&v, h1, h3);
        target(&v, h2, h3);
        done(v, &m, &a, [(h0, h0 + 16), (h1, h1 + 16), (h2, h2 + 16)]);
    }
    /// jumps to two labels do not mix
    #[kani::solver(minisat)]
    #[kani::unwind(9)]
    #[kani::stub(rtforth::hibitset::BitSet::add, set_add)]
    #[kani::stub(rtforth::hibitset::BitSet::remove, set_remove)]
    #[kani::stub(rtforth::hibitset::BitSet::contains, set_contains)]
    #[kani::stub(rtforth::hibitset::BitSet::clear, set_clear)]
    #[kani::stub(<rtforth::hibitset::BitSet as rtforth::hibitset::BitSetLike>::layer3, set_layer3)]
    fn two_labels() {
        let (mut v, m, a) = start();
        sets(&v);
        let h0 = go(&mut v, 16);
        word(&mut v, Kvm::imm_goto, 1);
        let h1 = go(&mut v, 16);
        apart(h0, 16, h1, 16);
        word(&mut v, Kvm::imm_goto, 2);
        let h2 = go(&mut v, 16);
        apart(h0, 16, h2, 16);
        apart(h1, 16, h2, 16);
        word(&mut v, Kvm::imm_goto, 1);
        let h3 = go(&mut v, 0);
        word(&mut v, Kvm::imm_label, 1);
        check!(!empty(&v.fwd), "label 2 is still to come");
        let h4 = go(&mut v, 0);
        word(&mut v, Kvm::imm_label, 2);
        cover!(true, "pre");
        target(&v, h0, h3);
        target(&v, h1, h4);
        target(&v, h2, h3);
        check!(empty(&v.fwd), "nothing is left to resolve");
        done(v, &m, &a, [(h0, h0 + 16), (h1, h1 + 16), (h2, h2 + 16)]);
    }
    /// a subroutine call: the address after the jump goes to the return stack
    #[kani::solver(minisat)]
    #[kani::unwind(9)]
    #[kani::stub(rtforth::hibitset::BitSet::add, set_add)]
    #[kani::stub(rtforth::hibitset::BitSet::remove, set_remove)]
    #[kani::stub(rtforth::hibitset::BitSet::contains, set_contains)]
    #[kani::stub(rtforth::hibitset::BitSet::clear, set_clear)]
    #[kani::stub(<rtforth::hibitset::BitSet as rtforth::hibitset::BitSetLike>::layer3, set_layer3)]
    fn call_forwards() {
        let (mut v, m, a) = start();
        sets(&v);
        let h0 = go(&mut v, 40);
        word(&mut v, Kvm::imm_call, 2);
        check!(here_is(&v, h0 + 40), "five cells");
        let h1 = go(&mut v, 0);
        word(&mut v, Kvm::imm_label, 2);
        cover!(true, "pre");
        let to = v.ds.start() + h0 + 40;
        let (l, r) = (v.refs.idx_lit, v.refs.idx_to_r);
        cells(&v, h0, [l, to, r]);
        target(&v, h0 + 24, h1);
        done(v, &m, &a, [(h0, h0 + 40), (0, 0), (0, 0)]);
    }
    #[kani::solver(minisat)]
    #[kani::unwind(9)]
    #[kani::stub(rtforth::hibitset::BitSet::add, set_add)]
    #[kani::stub(rtforth::hibitset::BitSet::remove, set_remove)]
    #[kani::stub(rtforth::hibitset::BitSet::contains, set_contains)]
    #[kani::stub(rtforth::hibitset::BitSet::clear, set_clear)]
    #[kani::stub(<rtforth::hibitset::BitSet as rtforth::hibitset::BitSetLike>::layer3, set_layer3)]
    fn call_backwards() {
        let (mut v, m, a) = start();
        sets(&v);
        let h1 = go(&mut v, 0);
        word(&mut v, Kvm::imm_label, 2);
        let h0 = go(&mut v, 40);
        word(&mut v, Kvm::imm_call, 2);
        check!(here_is(&v, h0 + 40), "five cells");
        cover!(true, "pre");
        let to = v.ds.start() + h0 + 40;
        let (l, r) = (v.refs.idx_lit, v.refs.idx_to_r);
        cells(&v, h0, [l, to, r]);
        target(&v, h0 + 24, h1);
        done(v, &m, &a, [(h0, h0 + 40), (0, 0), (0, 0)]);
    }
    #[kani::solver(minisat)]
    #[kani::unwind(9)]
    #[kani::stub(rtforth::hibitset::BitSet::add, set_add)]
    #[kani::stub(rtforth::hibitset::BitSet::remove, set_remove)]
    #[kani::stub(rtforth::hibitset::BitSet::contains, set_contains)]
    #[kani::stub(rtforth::hibitset::BitSet::clear, set_clear)]
    #[kani::stub(<rtforth::hibitset::BitSet as rtforth::hibitset::BitSetLike>::layer3, set_layer3)]
    fn label_invalid() { invalid(Kvm::imm_label, false) }
    #[kani::solver(minisat)]
    #[kani::unwind(9)]
    #[kani::stub(rtforth::hibitset::BitSet::add, set_add)]
    #[kani::stub(rtforth::hibitset::BitSet::remove, set_remove)]
    #[kani::stub(rtforth::hibitset::BitSet::contains, set_contains)]
    #[kani::stub(rtforth::hibitset::BitSet::clear, set_clear)]
    #[kani::stub(<rtforth::hibitset::BitSet as rtforth::hibitset::BitSetLike>::layer3, set_layer3)]
    fn goto_invalid() { invalid(Kvm::imm_goto, false) }
    #[kani::solver(minisat)]
    #[kani::unwind(9)]
    #[kani::stub(rtforth::hibitset::BitSet::add, set_add)]
    #[kani::stub(rtforth::hibitset::BitSet::remove, set_remove)]
    #[kani::stub(rtforth::hibitset::BitSet::contains, set_contains)]
    #[kani::stub(rtforth::hibitset::BitSet::clear, set_clear)]
    #[kani::stub(<rtforth::hibitset::BitSet as rtforth::hibitset::BitSetLike>::layer3, set_layer3)]
    fn call_invalid() { invalid(Kvm::imm_call, true) }
    /// a label is made once
    #[kani::solver(minisat)]
    #[kani::unwind(18)]
    #[kani::stub(rtforth::hibitset::BitSet::add, set_add)]
    #[kani::stub(rtforth::hibitset::BitSet::remove, set_remove)]
    #[kani::stub(rtforth::hibitset::BitSet::contains, set_contains)]
    #[kani::stub(rtforth::hibitset::BitSet::clear, set_clear)]
    #[kani::stub(<rtforth::hibitset::BitSet as rtforth::hibitset::BitSetLike>::layer3, set_layer3)]
    fn label_twice() {
        let (mut v, m, _) = start();
        sets(&v);
        let h0 = go(&mut v, 0);
        if any() {
            word(&mut v, Kvm::imm_label, 1);
        } else {
            let h1 = go(&mut v, 16);
            word(&mut v, Kvm::imm_goto, 1);
            let p = v.ds.start() + h0;
            let _ = v.ds.set_here(p);
            word(&mut v, Kvm::imm_label, 1);
            let mut j = h1;
            while j < h1 + 16 {
                unsafe { v.ds.put_u8(m[j], v.ds.start() + j) };
                j += 1;
            }
        }
        check!(v.rec.aborts == 0, "the first time");
        go(&mut v, 0);
        word(&mut v, Kvm::imm_label, 1);
        let b = v.snap();
        cover!(true, "pre");
        check!(b.rec.aborts == 1 && b.err == Some(INVALID_NUMERIC_ARGUMENT), "not the second time");
        each(CAP, |j| check!(byte(&v.ds, j) == m[j], "code is untouched"));
        std::mem::forget(v);
    }
    /// 0LABELS forgets all labels and all jumps
    #[kani::solver(minisat)]
    #[kani::unwind(66)]
    #[kani::stub(rtforth::hibitset::BitSet::add, set_add)]
    #[kani::stub(rtforth::hibitset::BitSet::remove, set_remove)]
    #[kani::stub(rtforth::hibitset::BitSet::contains, set_contains)]
    #[kani::stub(rtforth::hibitset::BitSet::clear, set_clear)]
    #[kani::stub(<rtforth::hibitset::BitSet as rtforth::hibitset::BitSetLike>::layer3, set_layer3)]
    fn clear() {
        let (mut v, _, _) = start();
        sets(&v);
        go(&mut v, 16);
        word(&mut v, Kvm::imm_goto, 1);
        go(&mut v, 0);
        word(&mut v, Kvm::imm_label, 2);
        let m: Mem = core::array::from_fn(|j| byte(&v.ds, j));
        let a = v.snap();
        v.imm_clear_labels();
        let b = v.snap();
        cover!(true, "pre");
        check!(empty(&v.fwd) && empty(&v.res), "no label");
        each(CAP, |j| check!(byte(&v.ds, j) == m[j], "code is untouched"));
        frame(&a, &b, NONE);
        std::mem::forget(v);
    }
    /// a definition with a jump to no label is rejected
    #[kani::solver(minisat)]
    #[kani::unwind(9)]
    #[kani::stub(rtforth::hibitset::BitSet::add, set_add)]
    #[kani::stub(rtforth::hibitset::BitSet::remove, set_remove)]
    #[kani::stub(rtforth::hibitset::BitSet::contains, set_contains)]
    #[kani::stub(rtforth::hibitset::BitSet::clear, set_clear)]
    #[kani::stub(<rtforth::hibitset::BitSet as rtforth::hibitset::BitSetLike>::layer3, set_layer3)]
    fn unresolved() {
        let (mut v, m, _) = start();
        sets(&v);
        let h = go(&mut v, 16);
        word(&mut v, Kvm::imm_goto, 3);
        v.st.is_compiling = any();
        let here = v.ds.here();
        v.semicolon();
        let b = v.snap();
        cover!(true, "pre");
        check!(b.rec.aborts == 1 && b.err == Some(CONTROL_STRUCTURE_MISMATCH) && !b.compiling, "rejected");
        check!(v.ds.here() == here, "nothing is compiled");
        each(CAP, |j| if j < h || h + 16 <= j { check!(byte(&v.ds, j) == m[j], "other code is untouched") });
        std::mem::forget(v);
    }
}
crate::closed! {
    /// random programs of labelled blocks that jump to, or call, one another
    fn programs_bounded() {
        let mut v = crate::bind::dictionary();
        v.inbuf = Some(String::new());
        v.tkn = Some(String::new());
        v.out = Some(String::new());
        v.labels = vec![0; 40];
        v.st = State::new();
        let ev = |v: &mut Kvm, s: &str| {
            v.st.instruction_pointer = 0;
            v.set_source(s);
            v.evaluate_input();
            v.last_error
        };
        if let Some(e) = ev(&mut v, "create h 0 , : tr h @ 31 * + h ! ; marker -m ") { panic!("CONTRACT prelude fails: {}", isize::from(e)); }
        for _ in 0..1500 {
            let n = 1 + any::<u8>() as usize % 9;
            // blocks 1..=n in a random order; each knows only later ones in `rank`
            let mut rank: Vec<usize> = (1..=n).collect();
            let mut place = rank.clone();
            for i in (1..n).rev() {
                rank.swap(i, any::<usize>() % (i + 1));
                place.swap(i, any::<usize>() % (i + 1));
            }
            let at = |b: usize| rank.iter().position(|x| *x == b).unwrap();
            // (call, target): what each block does after its trace
            let mut acts: Vec<Vec<(bool, usize)>> = vec![vec![]; n + 1];
            for b in 1..=n {
                for _ in 0..any::<u8>() % 4 {
                    let later = &rank[at(b) + 1..];
                    if later.is_empty() { continue }
                    acts[b].push((any(), later[any::<usize>() % later.len()]));
                }
            }
            // label numbers are arbitrary
            let mut num: Vec<usize> = (1..40).collect();
            for i in (1..39).rev() { num.swap(i, any::<usize>() % (i + 1)) }
            let mut src = format!(": w 0labels [ {} ] goto ", num[rank[0]]);
            for &b in &place {
                src += &format!("[ {} ] label {} tr ", num[b], b);
                for &(call, t) in &acts[b] { src += &format!("[ {} ] {} ", num[t], if call { "call" } else { "goto" }) }
                src += "exit ";
            }
            src += "; 7 h ! w h @ ";
            fn run(acts: &Vec<Vec<(bool, usize)>>, b: usize, h: &mut isize, fuel: &mut usize) {
                if *fuel == 0 { return }
                *fuel -= 1;
                *h = h.wrapping_mul(31).wrapping_add(b as isize);
                for &(call, t) in &acts[b] {
                    run(acts, t, h, fuel);
                    if !call { return }
                }
            }
            let (mut h, mut fuel) = (7isize, 5000);
            run(&acts, rank[0], &mut h, &mut fuel);
            if fuel == 0 { continue }
            hit("program");
            v.st.is_compiling = false;
            v.s.reset(); v.r.reset(); v.c.reset();
            v.last_error = None;
            let _ = ev(&mut v, "-m marker -m ");
            let e = ev(&mut v, &src);
            let got: Vec<isize> = v.s.inner[..(v.s.len as usize).min(64)].to_vec();
            if e.is_some() || got != [h] || v.r.len != 0 {
                panic!("CONTRACT program runs as its labels say: {} -> {:?} error {:?}, expected {:?}", src, got, e.map(|e| isize::from(e)), h);
            }
        }
        std::mem::forget(v);
    }
    fn bindings() {
        use crate::bind::*;
        check_bindings(&[
            ("0labels", Kvm::imm_clear_labels, IMM), ("label", Kvm::imm_label, IMM | CO), ("goto", Kvm::imm_goto, IMM | CO), ("call", Kvm::imm_call, IMM | CO),
        ]);
    }
}
