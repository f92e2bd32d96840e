//! C21: defining words: what a definition does when it is run is what its
//! defining word was given.
use crate::nd::*;
use crate::spec::*;
use crate::vm::*;
use crate::{check, contracts, cover};
use rtforth::core::*;
use rtforth::exception::*;
use rtforth::float::Float;
use rtforth::memory::*;
use rtforth::verif as hk;

fn word<T>(w: &Word<T>) -> (usize, u32, usize, usize, usize, bool, bool, bool) {
    let (l, h, d) = hk::word_parts(w);
    (l, h, d, w.nfa(), w.dfa(), w.is_hidden(), w.is_immediate(), w.is_compile_only())
}
type W = (usize, u32, usize, usize, usize, bool, bool, bool);
/// two arbitrary words, HERE at an arbitrary aligned place with room for `n` bytes
fn two(n: usize) -> (Fvm, usize, [W; 2]) {
    let mut v = Fvm::lean();
    v.wl = Wordlist::with_capacity(8);
    let mut i = 0;
    while i < 2 {
        hk::push_word(&mut v.wl, Word::new(Fvm::noop, Fvm::compile_word, any(), any()));
        hk::set_word_parts(&mut v.wl[i], any(), any(), any());
        v.wl[i].set_hidden(any());
        v.wl[i].set_immediate(any());
        v.wl[i].set_compile_only(any());
        i += 1;
    }
    let (b, _) = hk::wordlist_parts(&v.wl);
    hk::set_wordlist_parts(&mut v.wl, b, 1);
    let k: usize = any();
    #[cfg(not(kani))]
    let k = k % (1 + (CAP - n) / 8);
    assume(k <= (CAP - n) / 8);
    let p = v.ds.start() + 8 * k;
    let _ = v.ds.set_here(p);
    let old = [word(&v.wl[0]), word(&v.wl[1])];
    unsafe {
        SCRIPT.n = 0;
        SCRIPT.found = if any() { Some(0) } else { None };
    }
    (v, 8 * k, old)
}
fn ok() -> bool {
    unsafe { SCRIPT.found.is_some() }
}
fn olds(v: &Fvm, old: &[W; 2]) {
    check!(word(&v.wl[0]) == old[0] && word(&v.wl[1]) == old[1], "earlier words are as before");
}
/// the new word: where, what, and only that one
fn new_word(v: &Fvm, off: usize, action: fn(&mut Fvm), comp: fn(&mut Fvm, usize), hidden: bool) {
    check!(v.wl.len() == 3 && hk::wordlist_parts(&v.wl).1 == 2, "one word is added, the latest");
    check!(v.wl[2].action() as usize == action as usize, "its action");
    check!(hk::compilation_semantics(&v.wl[2]) as usize == comp as usize, "its compilation semantics");
    check!(v.wl[2].dfa() == v.ds.start() + off, "its data field");
    check!(v.wl[2].is_hidden() == hidden && !v.wl[2].is_immediate() && !v.wl[2].is_compile_only(), "its flags");
}

contracts! {
    /// CREATE: the word pushes its data field; nothing is allotted
    #[kani::unwind(9)]
    fn create_then_run() {
        let (mut v, off, old) = two(0);
        let m = any_mem(&mut v.ds);
        let a = v.snap();
        v.create();
        let b = v.snap();
        if ok() {
            cover!(true, "pre");
            new_word(&v, off, Fvm::p_var, Fvm::compile_var, false);
            frame(&a, &b, May { words: true, ..NONE });
            hk::set_word_pointer(&mut v.st, 2);
            v.p_var();
            check!(v.s.len == 1 && v.s.inner[0] == (v.ds.start() + off) as isize, "the word pushes its data field");
        } else {
            cover!(true, "no name");
            aborted(&a, &b, UNEXPECTED_END_OF_FILE, NONE);
        }
        olds(&v, &old);
        mem_frame(&m, &v.ds, 0, 0);
        std::mem::forget(v);
    }
    /// CONSTANT: the word pushes the value
    #[kani::unwind(9)]
    fn constant_then_run() {
        let (mut v, off, old) = two(8);
        let m = any_mem(&mut v.ds);
        let x: isize = any();
        v.s.push(x);
        let a = v.snap();
        v.constant();
        let b = v.snap();
        olds(&v, &old);
        if ok() {
            cover!(true, "pre");
            new_word(&v, off, Fvm::p_const, Fvm::compile_const, false);
            check!(b.sl == 0 && b.here == a.here + 8, "the value is taken, one cell is compiled");
            mem_frame(&m, &v.ds, off, off + 8);
            frame(&a, &b, May { words: true, s: true, here: true, ..NONE });
            hk::set_word_pointer(&mut v.st, 2);
            v.p_const();
            check!(v.s.len == 1 && v.s.inner[0] == x, "the word pushes the value");
            mem_frame(&m, &v.ds, off, off + 8);
        } else {
            cover!(true, "no name");
            mem_frame(&m, &v.ds, 0, 0);
            aborted(&a, &b, UNEXPECTED_END_OF_FILE, NONE);
        }
        std::mem::forget(v);
    }
    /// FCONSTANT: the word pushes the value
    #[kani::unwind(9)]
    fn fconstant_then_run() {
        let (mut v, off, old) = two(8);
        let m = any_mem(&mut v.ds);
        let x: f64 = any();
        v.f.push(x);
        let a = v.snap();
        v.fconstant();
        let b = v.snap();
        olds(&v, &old);
        if ok() {
            cover!(true, "pre");
            new_word(&v, off, Fvm::p_fconst, Fvm::compile_fconst, false);
            check!(b.fl == 0 && b.here == a.here + 8, "the value is taken, one float is compiled");
            mem_frame(&m, &v.ds, off, off + 8);
            frame(&a, &b, May { words: true, f: true, here: true, ..NONE });
            hk::set_word_pointer(&mut v.st, 2);
            v.p_fconst();
            check!(v.f.len == 1 && v.f.inner[0].to_bits() == x.to_bits(), "the word pushes the value");
            mem_frame(&m, &v.ds, off, off + 8);
        } else {
            cover!(true, "no name");
            mem_frame(&m, &v.ds, 0, 0);
            aborted(&a, &b, UNEXPECTED_END_OF_FILE, NONE);
        }
        std::mem::forget(v);
    }
    /// `:` starts a hidden definition and compiles; without a name it does not
    #[kani::unwind(9)]
    fn colon() {
        let (mut v, off, old) = two(0);
        let m = any_mem(&mut v.ds);
        let a = v.snap();
        v.colon();
        let b = v.snap();
        olds(&v, &old);
        if ok() {
            cover!(true, "pre");
            new_word(&v, off, Fvm::nest, Fvm::compile_nest, true);
            check!(b.compiling, "the body is compiled");
            frame(&a, &b, May { words: true, compiling: true, ..NONE });
        } else {
            cover!(true, "no name");
            aborted(&a, &b, UNEXPECTED_END_OF_FILE, NONE);
        }
        mem_frame(&m, &v.ds, 0, 0);
        std::mem::forget(v);
    }
    /// `;` ends it: EXIT is compiled, the definition is found from now on
    #[kani::unwind(9)]
    fn semicolon() {
        let mut v = Kvm::lean();
        v.wl = Wordlist::with_capacity(2);
        hk::push_word(&mut v.wl, Word::new(Kvm::exit, Kvm::compile_word, 0, 0));
        hk::push_word(&mut v.wl, Word::new(Kvm::nest, Kvm::compile_nest, 0, 0));
        let (bk, _) = hk::wordlist_parts(&v.wl);
        hk::set_wordlist_parts(&mut v.wl, bk, 1);
        v.wl[0].set_hidden(any());
        v.wl[1].set_hidden(any());
        let h0 = v.wl[0].is_hidden();
        let m = any_mem(&mut v.ds);
        let k: usize = any();
        #[cfg(not(kani))]
        let k = k % (CAP / 8);
        assume(k < CAP / 8);
        let off = 8 * k;
        let p = v.ds.start() + off;
        let _ = v.ds.set_here(p);
        v.refs.idx_exit = 0;
        let a = v.snap();
        v.semicolon();
        let b = v.snap();
        cover!(true, "pre");
        check!(!b.compiling, "interpreting again");
        check!(b.here == a.here + 8 && cell_now(&v.ds, off) == 0, "EXIT is compiled, nothing else");
        mem_frame(&m, &v.ds, off, off + 8);
        check!(!v.wl[1].is_hidden() && v.wl[0].is_hidden() == h0, "the latest word is no longer hidden, others are as before");
        check!(v.wl.len() == 2 && hk::wordlist_parts(&v.wl).1 == 1, "the latest word stays");
        check!(b.err.is_none() && b.rec.aborts == 0 && b.sl == 0 && b.rl == a.rl && b.ip == a.ip && b.cl == 0, "nothing else");
        std::mem::forget(v);
    }
    /// RECURSE compiles a call of the definition being compiled
    #[kani::unwind(9)]
    fn recurse() {
        let (mut v, off, old) = two(8);
        let m = any_mem(&mut v.ds);
        let a = v.snap();
        v.imm_recurse();
        let b = v.snap();
        cover!(true, "pre");
        check!(b.here == a.here + 8 && cell_now(&v.ds, off) == 1, "the token of the latest word is compiled");
        mem_frame(&m, &v.ds, off, off + 8);
        olds(&v, &old);
        frame(&a, &b, May { here: true, ..NONE });
        std::mem::forget(v);
    }
    /// DOES> compiles its run-time action and an EXIT
    #[kani::unwind(9)]
    fn does_compile() {
        let (mut v, off, old) = two(16);
        let m = any_mem(&mut v.ds);
        v.refs.idx__does = any();
        v.refs.idx_exit = any();
        let (d, e) = (v.refs.idx__does, v.refs.idx_exit);
        let a = v.snap();
        v.does();
        let b = v.snap();
        cover!(true, "pre");
        check!(b.here == a.here + 16, "two cells");
        check!(cell_now(&v.ds, off) as usize == d && cell_now(&v.ds, off + 8) as usize == e, "_does exit");
        mem_frame(&m, &v.ds, off, off + 16);
        olds(&v, &old);
        check!(b.sl == 0, "the stack is as before");
        frame(&a, &b, May { here: true, s: true, ..NONE });
        std::mem::forget(v);
    }
    /// its run-time action redirects the latest word only, to the code after
    /// the EXIT, and allots nothing
    #[kani::unwind(9)]
    fn does_run() {
        let (mut v, _, old) = two(0);
        let m = any_mem(&mut v.ds);
        any_ip(&mut v, 8);
        let l: usize = any();
        #[cfg(not(kani))]
        let l = l % 2;
        assume(l < 2);
        let (bk, _) = hk::wordlist_parts(&v.wl);
        hk::set_wordlist_parts(&mut v.wl, bk, l);
        let a = v.snap();
        v._does();
        let b = v.snap();
        cover!(true, "pre");
        let mut w = old[l];
        w.2 = a.ip + 8;
        check!(word(&v.wl[l]) == w, "the latest word continues after the EXIT that follows");
        check!(v.wl[l].action() as usize == Fvm::xdoes as fn(&mut Fvm) as usize, "its action");
        check!(word(&v.wl[1 - l]) == old[1 - l], "no other word");
        check!(v.wl[1 - l].action() as usize == Fvm::noop as fn(&mut Fvm) as usize, "no other action");
        mem_frame(&m, &v.ds, 0, 0);
        frame(&a, &b, NONE);
        std::mem::forget(v);
    }
    /// a redirected word pushes its data field, calls the code after DOES>
    #[kani::solver(z3)]
    #[kani::unwind(9)]
    fn xdoes() {
        let mut v = Kvm::any();
        v.wl = Wordlist::with_capacity(1);
        let (dfa, doer): (usize, usize) = (any(), any());
        hk::push_word(&mut v.wl, Word::new(Kvm::xdoes, Kvm::compile_var, any(), dfa));
        hk::set_word_parts(&mut v.wl[0], any(), any(), doer);
        hk::set_word_pointer(&mut v.st, 0);
        let a = v.snap();
        v.xdoes();
        let b = v.snap();
        check!(b.ip == doer, "the code after DOES> is called");
        check!(b.sl == a.sl.wrapping_add(1) && b.rl == a.rl.wrapping_add(1), "one item on each stack");
        if legal(a.sl, 0, 1) {
            cover!(true, "pre");
            stack_s(&a, &b, 0, [dfa as isize]);
        }
        if legal(a.rl, 0, 1) { stack_r(&a, &b, 0, [a.ip as isize]); }
        frame(&a, &b, May { s: true, r: true, ip: true, ..NONE });
        std::mem::forget(v);
    }
    /// variables, constants: from any state they push one item and nothing else
    #[kani::solver(z3)]
    #[kani::unwind(9)]
    fn push_words() {
        let mut v = Kvm::any();
        let m = any_mem(&mut v.ds);
        let mut off: usize = any();
        #[cfg(not(kani))]
        { off %= CAP - 7; }
        assume(off <= CAP - 8);
        let dfa = v.ds.start() + off;
        v.wl = Wordlist::with_capacity(1);
        hk::push_word(&mut v.wl, Word::new(Kvm::noop, Kvm::compile_var, any(), dfa));
        hk::set_word_pointer(&mut v.st, 0);
        let con: bool = any();
        let a = v.snap();
        if con { v.p_const() } else { v.p_var() }
        let b = v.snap();
        cover!(con, "constant");
        cover!(!con, "variable");
        check!(b.sl == a.sl.wrapping_add(1), "one item");
        let x = if con { cell_at(&m, off) } else { dfa as isize };
        if legal(a.sl, 0, 1) { stack_s(&a, &b, 0, [x]); }
        frame(&a, &b, May { s: true, ..NONE });
        std::mem::forget(v);
    }
    #[kani::solver(z3)]
    #[kani::unwind(9)]
    fn push_fconst() {
        let mut v = Kvm::any();
        let x: f64 = any();
        let mut k: usize = any();
        #[cfg(not(kani))]
        { k %= 8; }
        assume(k < 8);
        let dfa = v.ds.start() + 8 * k;
        unsafe { v.ds.put_f64(x, dfa) };
        v.wl = Wordlist::with_capacity(1);
        hk::push_word(&mut v.wl, Word::new(Kvm::noop, Kvm::compile_var, any(), dfa));
        hk::set_word_pointer(&mut v.st, 0);
        let a = v.snap();
        v.p_fconst();
        let b = v.snap();
        cover!(true, "pre");
        check!(b.fl == a.fl.wrapping_add(1), "one item");
        if legal(a.fl, 0, 1) { stack_f(&a, &b, 0, [x]); }
        frame(&a, &b, May { f: true, ..NONE });
        std::mem::forget(v);
    }
    /// run-time of POSTPONE: the compilation semantics of exactly that word
    #[kani::unwind(9)]
    fn postpone_word() { postpone(1) }
    #[kani::unwind(9)]
    fn postpone_limit() { postpone(2) }
    #[kani::unwind(9)]
    fn postpone_none() {
        let mut v = Xvm::lean();
        v.s.push(any());
        let a = v.snap();
        v._postpone();
        let b = v.snap();
        cover!(true, "pre");
        check!(b.rec.execs == 0, "nothing is performed");
        aborted(&a, &b, INVALID_NUMERIC_ARGUMENT, NONE);
        std::mem::forget(v);
    }
}
fn postpone(xt: usize) {
    let mut v = Xvm::lean();
    v.wl = Wordlist::with_capacity(2);
    hk::push_word(&mut v.wl, Word::new(Xvm::noop, other, 0, 0));
    hk::push_word(&mut v.wl, Word::new(Xvm::noop, semantics, 0, 0));
    let imm: bool = any();
    v.wl[1].set_immediate(imm);
    v.wl[1].set_compile_only(any());
    v.s.push(xt as isize);
    unsafe { DONE = (0, 0) };
    let a = v.snap();
    v._postpone();
    let b = v.snap();
    if xt == 1 {
        if imm {
            cover!(true, "immediate");
            check!(unsafe { DONE.0 } == 0 && b.rec.execs == 1 && b.rec.xt == xt, "an immediate word is executed, once");
        } else {
            cover!(true, "word");
            check!(unsafe { DONE } == (1, xt) && b.rec.execs == 0, "its compilation semantics is performed, once");
        }
        check!(b.sl == 0, "the token is taken");
        check!(b.err.is_none() && b.rec.aborts == 0 && b.here == a.here && b.ip == a.ip && b.rl == a.rl && b.compiling == a.compiling, "nothing else");
    } else {
        cover!(true, "no word");
        check!(unsafe { DONE.0 } == 0 && b.rec.execs == 0, "nothing is performed");
        check!(b.rec.aborts == 1 && b.err == Some(INVALID_NUMERIC_ARGUMENT), "one error");
    }
    std::mem::forget(v);
}
fn other(_v: &mut Xvm, _w: usize) {
    unsafe { DONE = (9, 9) }
}
static mut DONE: (usize, usize) = (0, 0);
fn semantics(_v: &mut Xvm, w: usize) {
    unsafe { DONE = (DONE.0 + 1, w) }
}
#[cfg(not(kani))]
fn run(v: &mut Kvm, text: &str) {
    v.inbuf = Some(String::from(text));
    v.tkn = Some(String::new());
    v.st.source_index = 0;
    v.evaluate_input();
}
#[cfg(not(kani))]
fn below(n: usize) -> usize {
    any::<u32>() as usize % n
}
crate::closed! {
    fn bindings() {
        use crate::bind::{CO, IMM};
        crate::bind::check_bindings(&[
            (":", Kvm::colon, 0), (";", Kvm::semicolon, IMM | CO), ("create", Kvm::create, 0), ("constant", Kvm::constant, 0),
            ("fconstant", Kvm::fconstant, 0), ("does>", Kvm::does, IMM | CO), ("_does", Kvm::_does, CO), ("recurse", Kvm::imm_recurse, IMM | CO),
            ("immediate", Kvm::immediate, 0), ("_postpone", Kvm::_postpone, CO),
        ]);
    }
    /// random programs of definitions against what each definition means: a
    /// list of cells to push
    fn programs_bounded() {
        for _ in 0..12 {
            let mut v = crate::bind::dictionary();
            v.handler = usize::max_value();
            v.tkn = Some(String::new());
            v.out = Some(String::new());
            v.st = State::new();
            v.last_error = None;
            v.r.len = 0;
            v.s.len = 0;
            // name, cells pushed; address of the data (if any) read at an index
            let mut words: Vec<(String, Vec<isize>)> = Vec::new();
            let mut arrays: Vec<(String, Vec<isize>)> = Vec::new();
            for step in 0..(4 + below(9)) {
                let n = if step > 3 && below(4) == 0 { words[below(words.len())].0.clone() } else { format!("w{}", step) };
                let pick = |words: &Vec<(String, Vec<isize>)>| -> (String, Vec<isize>) {
                    // the latest definition of the name
                    let (t, _) = words[below(words.len())].clone();
                    words.iter().rev().find(|w| w.0 == t).unwrap().clone()
                };
                let x: isize = match below(3) { 0 => any(), 1 => below(300) as isize, _ => -(below(300) as isize) };
                let kind = if words.is_empty() { [0, 2, 3][below(3)] } else { below(11) };
                let mut text = String::new();
                let mut means: Option<Vec<isize>> = None;
                hit(["constant", "create", "does", "does-later", "colon", "colon", "postpone", "postpone-imm", "recurse", "array", "does-colon"][kind]);
                match kind {
                    0 => { text = format!("{} constant {}", x, n); means = Some(vec![x]); }
                    1 => {
                        let k = 1 + below(4);
                        let d: Vec<isize> = (0..k).map(|_| any::<i16>() as isize).collect();
                        text = format!("create a{} ", step);
                        for c in &d { text += &format!("{} , ", c); }
                        arrays.push((format!("a{}", step), d));
                    }
                    // data before, or after, the defining word is run
                    2 => {
                        let y = below(50) as isize;
                        text = format!(": d{} create , does> @ {} + ; {} d{} {}", step, y, x, step, n);
                        means = Some(vec![x.wrapping_add(y)]);
                    }
                    3 => {
                        let y = below(50) as isize;
                        text = format!(": d{} create does> @ {} + ; d{} {} {} , 77 ,", step, y, step, n, x);
                        means = Some(vec![x.wrapping_add(y)]);
                    }
                    4 | 5 => {
                        let mut m = Vec::new();
                        text = format!(": {} ", n);
                        for _ in 0..below(4) {
                            if any() {
                                let c: isize = any::<i32>() as isize;
                                text += &format!("{} ", c);
                                m.push(c);
                            } else {
                                let (w, d) = pick(&words);
                                if m.len() + d.len() < 20 { text += &format!("{} ", w); m.extend(d); }
                            }
                        }
                        text += ";";
                        means = Some(m);
                    }
                    6 => {
                        let (w, d) = pick(&words);
                        text = format!(": p{} postpone {} ; immediate : {} {} p{} ;", step, w, n, x, step);
                        let mut m = vec![x];
                        m.extend(d);
                        if m.len() < 20 { means = Some(m) } else { text.clear() }
                    }
                    // postponing an immediate word makes another one like it
                    7 => {
                        text = format!(": lit{0} postpone lit , ; immediate : ll{0} postpone lit{0} ; immediate : {1} [ {2} ] ll{0} ;", step, n, x);
                        means = Some(vec![x]);
                    }
                    8 => {
                        let k = below(6);
                        text = format!(": {} dup 0= if drop else dup 1 - recurse then ; : {} {} {} ;", format!("r{}", step), n, k, format!("r{}", step));
                        means = Some((1..=k as isize).rev().collect());
                    }
                    10 => {
                        let (w, d) = pick(&words);
                        text = format!(": d{0} create , does> @ {1} ; {2} d{0} {3}", step, w, x, n);
                        let mut m = vec![x];
                        m.extend(d);
                        if m.len() < 20 { means = Some(m) } else { text.clear() }
                    }
                    _ => {
                        if !arrays.is_empty() {
                            let (w, d) = arrays[below(arrays.len())].clone();
                            let i = below(d.len());
                            text = format!(": {} {} {} + @ ;", n, w, 8 * i);
                            means = Some(vec![d[i]]);
                        }
                    }
                }
                run(&mut v, &text);
                if let Some(e) = v.last_error { panic!("CONTRACT {}: error {:?} token {:?}", text, e, v.tkn) }
                check!(v.s.len == 0 && v.r.len == 0, "definitions leave the stacks as they were");
                check!(!v.st.is_compiling, "and the compile state");
                if let Some(m) = means { words.push((n, m)) }
                // every word does what its latest definition means
                for k in 0..words.len() {
                    let (w, m) = words[k].clone();
                    if words[k + 1..].iter().any(|o| o.0 == w) { continue }
                    run(&mut v, &w);
                    let got: Vec<isize> = v.s.inner[..v.s.len as usize].to_vec();
                    if got != m || v.last_error.is_some() {
                        panic!("CONTRACT after {:?}: {} pushes {:?}, not {:?} {:?}", text, w, got, m, v.last_error);
                    }
                    v.s.len = 0;
                }
            }
            hit("program");
        }
    }
}
