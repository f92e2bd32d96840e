//! Which action a word name is bound to: closed terms, evaluated natively on
//! the real dictionary built by the real `add_*` functions.
use crate::nd::*;
use crate::vm::*;
use rtforth::core::*;
use rtforth::env::Environment;
use rtforth::facility::Facility;
use rtforth::file_access::FileAccess;
use rtforth::float::Float;
use rtforth::loader::HasLoader;
use rtforth::memory::*;
use rtforth::output::Output;
use rtforth::tools::Tools;
use rtforth::units::Units;

pub const IMM: u8 = 1;
pub const CO: u8 = 2;

pub type B = (&'static str, fn(&mut Kvm), u8);

pub fn dictionary() -> Kvm {
    let mut v = Kvm::any_cap(1 << 16);
    v.s = Stack::new(0x12345678); v.r = Stack::new(0x12345678); v.f = Stack::new(1.234567890); v.c.reset();
    v.add_core();
    v.add_output();
    v.add_tools();
    v.add_environment();
    v.add_facility();
    v.add_float();
    v.add_units();
    v.add_file_access();
    v.add_loader();
    v
}

/// state of a VM with the dictionary `d`, fresh random stacks and buffers
fn prepare(d: &mut Kvm, seed: u64, legal: bool) {
    GEN.with(|g| g.borrow_mut().s = seed);
    d.s = any_stack(); d.r = any_stack(); d.f = any_stack();
    if legal {
        d.s.len = 8 + d.s.len % 40; d.r.len = 8 + d.r.len % 40; d.f.len = 8 + d.f.len % 40;
    }
    // operands of the usual kinds: small numbers, addresses of the data space, flags
    let start = d.ds.start() as isize;
    for k in 0..4 {
        let i = d.s.len.wrapping_sub(1 + k) as usize;
        match any::<u8>() % 4 {
            0 => d.s.inner[i] = start + 50000 + (any::<u16>() % 1000) as isize,
            1 => d.s.inner[i] = (any::<u8>() % 70) as isize,
            _ => {}
        }
    }
    d.last_error = None;
    d.handler = 0;
    d.out = Some(String::new());
    d.hold = String::new();
    d.inbuf = Some(String::from("abc )def\" 123 swap"));
    d.tkn = Some(String::from("over"));
    d.lines.clear(); d.sources.clear(); d.files.clear();
    d.labels = vec![0; 8];
    d.fwd.clear(); d.res.clear();
    d.c.reset();
    for b in 0..1024 {
        unsafe { d.ds.put_u8(any(), 49000 + b + start as usize) };
    }
    d.st.is_compiling = any();
    d.st.instruction_pointer = start as usize + 50000;
    d.st.aborted_word_pointer = 0;
    d.st.source_index = 0;
    d.st.source_id = 0;
    d.cur = (any::<u8>() % NT as u8) as usize;
    d.awake = [true; NT];
    d.now = any();
    d.rec = Rec::new();
}

pub fn check_bindings(list: &[B]) {
    let mut d = dictionary();
    for &(name, f, fl) in list {
        hit("binding");
        let xt = match d.find(name) {
            Some(x) => x,
            None => panic!("CONTRACT word {} is not in the dictionary", name),
        };
        if d.wl[xt].is_immediate() != (fl & IMM != 0) {
            panic!("CONTRACT word {}: immediacy", name);
        }
        if d.wl[xt].is_compile_only() != (fl & CO != 0) {
            panic!("CONTRACT word {}: compile-only flag", name);
        }
        let g = d.wl[xt].action();
        if g as usize == f as usize {
            continue;
        }
        // not literally the verified function: compare what it does
        for seed in 0..400u64 {
            let here = d.ds.here();
            let run = |d: &mut Kvm, h: fn(&mut Kvm)| {
                prepare(d, seed * 7919 + 11, seed % 4 != 0);
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| h(d)));
                let s = d.snap();
                let mem: Vec<u8> = (0..2000).map(|b| unsafe { d.ds.get_u8(d.ds.start() + 48500 + b) }).collect();
                let tail: Vec<u8> = (here..here + 64).map(|b| unsafe { d.ds.get_u8(b) }).collect();
                let o = (d.out.clone(), d.tkn.clone(), d.inbuf.clone(), d.labels.clone(), d.c.len, d.hold.clone());
                let _ = d.ds.set_here(here);
                (r.is_ok(), s, mem, tail, o)
            };
            let x = run(&mut d, f);
            let y = run(&mut d, g);
            let (s, t) = (&x.1, &y.1);
            let n = s.sl as usize;
            let same = x.0 == y.0 && x.2 == y.2 && x.3 == y.3 && x.4 == y.4
                && s.sl == t.sl && s.rl == t.rl && s.fl == t.fl && s.cl == t.cl
                && (n > 64 || s.s[..n] == t.s[..n])
                && (s.rl > 64 || s.r[..s.rl as usize] == t.r[..s.rl as usize])
                && (s.fl > 64 || (0..s.fl as usize).all(|i| s.f[i].to_bits() == t.f[i].to_bits() || (s.f[i].is_nan() && t.f[i].is_nan())))
                && s.ip == t.ip && s.here == t.here && s.err == t.err && s.compiling == t.compiling
                && s.sidx == t.sidx && s.sid == t.sid && s.handler == t.handler && s.words == t.words
                && s.cur == t.cur && s.awake == t.awake && s.rec == t.rec;
            if !same {
                panic!("CONTRACT word {} does not do what its function does (state {})", name, seed);
            }
        }
    }
}
