//! C11: the dictionary finds the latest visible definition of a name, defining
//! adds exactly one word, and a marker takes everything back.
use crate::nd::*;
use crate::spec::*;
use crate::vm::*;
use crate::{check, contracts, cover};
use rtforth::core::*;
use rtforth::exception::*;
use rtforth::memory::*;
use rtforth::verif as hk;

fn djb2(s: &[u8]) -> u32 {
    let mut h = 5381u32;
    let mut i = 0;
    while i < s.len() {
        let c = if s[i] >= b'A' && s[i] <= b'Z' { s[i] + 32 } else { s[i] };
        h = h.wrapping_mul(33).wrapping_add(c as u32);
        i += 1;
    }
    h
}
fn lower(c: u8) -> u8 {
    if c >= b'A' && c <= b'Z' { c + 32 } else { c }
}
/// an arbitrary word list of `n` words in arbitrary buckets
fn old_words(v: &mut Dvm, n: usize) -> [(usize, u32, usize, usize, usize, bool, bool, bool); 2] {
    v.wl = Wordlist::with_capacity(8);
    let mut b: [usize; 64] = any();
    let last: usize = any();
    let mut i = 0;
    while i < n {
        v.wl_push(Word::new(Dvm::noop, Dvm::compile_word, any(), any()));
        hk::set_word_parts(&mut v.wl[i], any(), any(), any());
        v.wl[i].set_hidden(any());
        v.wl[i].set_immediate(any());
        v.wl[i].set_compile_only(any());
        i += 1;
    }
    hk::set_wordlist_parts(&mut v.wl, b, last);
    [word(&v.wl[0]), word(&v.wl[1])]
}
fn word<T>(w: &Word<T>) -> (usize, u32, usize, usize, usize, bool, bool, bool) {
    let (l, h, d) = hk::word_parts(w);
    (l, h, d, w.nfa(), w.dfa(), w.is_hidden(), w.is_immediate(), w.is_compile_only())
}
impl Dvm {
    fn wl_push(&mut self, w: Word<Dvm>) {
        hk::push_word(&mut self.wl, w)
    }
}
fn defined(off: usize, len: usize) {
    let mut v = Dvm::lean();
    let m = any_mem(&mut v.ds);
    let start = v.ds.start();
    let _ = v.ds.set_here(start + off);
    let old = old_words(&mut v, 2);
    let (b0, _) = hk::wordlist_parts(&v.wl);
    let t: [u8; 3] = any();
    // ASCII, so that the text is valid
    assume(t[0] < 128 && t[1] < 128 && t[2] < 128);
    let s = unsafe { String::from_utf8_unchecked(t[..len].to_vec()) };
    v.tkn = Some(s);
    let a = v.snap();
    v.define(Dvm::bye, Dvm::compile_const);
    let b = v.snap();
    let nfa = start + off;
    let dfa = (nfa + 8 + len + 7) & !7;
    cover!(true, "pre");
    check!(v.wl.len() == 3, "exactly one word is added");
    check!(word(&v.wl[0]) == old[0] && word(&v.wl[1]) == old[1], "earlier words are as before");
    let mut n = [0u8; 3];
    let mut i = 0;
    while i < len {
        n[i] = lower(t[i]);
        i += 1;
    }
    let h = djb2(&n[..len]);
    let bk = h as usize % 64;
    let (b1, last) = hk::wordlist_parts(&v.wl);
    check!(word(&v.wl[2]) == (b0[bk], h, 0, nfa, dfa, false, false, false), "the new word: name, data field, link, plain flags");
    check!(v.wl[2].action() as usize == Dvm::bye as fn(&mut Dvm) as usize, "its action");
    check!(hk::compilation_semantics(&v.wl[2]) as usize == Dvm::compile_const as fn(&mut Dvm, usize) as usize, "its compilation semantics");
    check!(last == 2 && b1[bk] == 2, "it is the latest word and heads its bucket");
    each(64, |j| if j != bk { check!(b1[j] == b0[j], "other buckets are as before") });
    check!(v.ds.here() == dfa, "the data-space pointer is at its data field");
    check!(cell_now(&v.ds, off) as usize == len, "its name is stored: length");
    let mut i = 0;
    while i < len {
        check!(byte(&v.ds, off + 8 + i) == n[i], "its name is stored in lower case");
        i += 1;
    }
    each(CAP, |j| if j < off || j >= dfa - start { check!(byte(&v.ds, j) == m[j], "memory outside the name is as before") });
    frame(&a, &b, May { here: true, words: true, ..NONE });
    std::mem::forget(v);
}

contracts! {
    /// equal up to case: same bucket and hash; bounded
    #[kani::unwind(7)]
    fn hash_bounded() {
        let s: [u8; 5] = any();
        let mut n: usize = any();
        #[cfg(not(kani))]
        { n %= 6; }
        assume(n <= 5);
        let t = unsafe { std::str::from_utf8_unchecked(&s[..n]) };
        cover!(n == 5, "pre");
        check!(hk::hash::<Kvm>(t) == djb2(&s[..n]), "the hash depends on the letters only, not their case");
    }
    #[kani::unwind(10)]
    fn define_bounded_1() { defined(16, 1) }
    #[kani::unwind(10)]
    fn define_bounded_2() { defined(19, 2) }
    #[kani::unwind(10)]
    fn define_bounded_3() { defined(21, 3) }
    /// without a name nothing is defined
    #[kani::unwind(10)]
    fn define_nothing() {
        let mut v = Dvm::lean();
        let m = any_mem(&mut v.ds);
        let off = any_here(&mut v.ds);
        let old = old_words(&mut v, 2);
        let p = hk::wordlist_parts(&v.wl);
        v.tkn = Some(String::new());
        let a = v.snap();
        let k: u8 = any();
        match k % 3 {
            0 => v.define(Dvm::bye, Dvm::compile_const),
            1 => v.marker(),
            _ => v.create(),
        }
        let b = v.snap();
        cover!(k % 3 == 0, "define");
        cover!(k % 3 == 1, "marker");
        check!(v.wl.len() == 2 && word(&v.wl[0]) == old[0] && word(&v.wl[1]) == old[1], "no word is added or changed");
        let q = hk::wordlist_parts(&v.wl);
        check!(p.1 == q.1, "the latest word");
        each(64, |j| check!(p.0[j] == q.0[j], "buckets"));
        check!(b.err == Some(UNEXPECTED_END_OF_FILE) && b.rec.aborts == 1, "the missing name is an error");
        mem_frame(&m, &v.ds, 0, 0);
        frame(&a, &b, May { s: true, f: true, cl: true, err: true, ..NONE });
        std::mem::forget(v);
    }
    /// IMMEDIATE and COMPILE-ONLY mark exactly the latest word
    fn flags() {
        let mut v = Dvm::lean();
        let old = old_words(&mut v, 2);
        let p = hk::wordlist_parts(&v.wl);
        let l: usize = any();
        #[cfg(not(kani))]
        let l = l % 2;
        assume(l < 2);
        hk::set_wordlist_parts(&mut v.wl, p.0, l);
        let co: bool = any();
        if co { v.compile_only() } else { v.immediate() }
        cover!(co, "compile-only");
        cover!(!co, "immediate");
        let mut w = old[l];
        if co { w.7 = true } else { w.6 = true }
        check!(word(&v.wl[l]) == w, "the latest word is marked");
        check!(word(&v.wl[1 - l]) == old[1 - l], "no other word");
        let q = hk::wordlist_parts(&v.wl);
        check!(q.1 == l, "the latest word stays");
        each(64, |j| check!(p.0[j] == q.0[j], "buckets"));
        std::mem::forget(v);
    }
    /// MARKER defines one word that keeps the latest word and all buckets
    #[kani::unwind(67)]
    #[kani::solver(cadical)]
    fn marker() {
        let mut v = Dvm::any_cap_lean(640);
        let start = v.ds.start();
        let _ = v.ds.set_here(start + 24);
        let old = old_words(&mut v, 2);
        let (b0, _) = hk::wordlist_parts(&v.wl);
        hk::set_wordlist_parts(&mut v.wl, b0, 1);
        v.tkn = Some(String::from("m"));
        v.marker();
        cover!(true, "pre");
        check!(v.last_error.is_none() && v.wl.len() == 3, "the marker is a word");
        check!(word(&v.wl[0]) == old[0] && word(&v.wl[1]) == old[1], "earlier words are as before");
        check!(v.wl[2].action() as usize == Dvm::unmark as fn(&mut Dvm) as usize, "running it takes back");
        check!(v.wl[2].nfa() == start + 24 && v.wl[2].dfa() == start + 40, "it starts at the old data-space pointer");
        check!(cell_now(&v.ds, 40) == 1, "the latest word before it is kept");
        let mut k = 0;
        while k < 64 {
            check!(cell_now(&v.ds, 48 + 8 * k) as usize == b0[k], "the buckets before it are kept");
            k += 1;
        }
        check!(v.ds.here() == start + 48 + 512, "exactly that is compiled");
        std::mem::forget(v);
    }
    /// the marker, run in any later state: all is as it was kept
    #[kani::unwind(67)]
    #[kani::solver(cadical)]
    fn unmark() {
        let mut v = Dvm::any_cap_lean(640);
        let start = v.ds.start();
        let old = old_words(&mut v, 2);
        v.wl_push(Word::new(Dvm::unmark, Dvm::compile_word, start + 24, start + 40));
        v.wl_push(Word::new(Dvm::noop, Dvm::compile_word, any(), any()));
        v.wl_push(Word::new(Dvm::noop, Dvm::compile_word, any(), any()));
        let b0: [usize; 64] = any();
        let l0: usize = any();
        unsafe { v.ds.put_usize(l0, start + 40) };
        let mut k = 0;
        while k < 64 {
            unsafe { v.ds.put_usize(b0[k], start + 48 + 8 * k) };
            k += 1;
        }
        // the words kept: the latest of them is the one before the marker
        #[cfg(not(kani))]
        unsafe { v.ds.put_usize(1, start + 40) };
        #[cfg(not(kani))]
        let l0 = 1;
        assume(l0 == 1);
        let _ = v.ds.set_here(start + 632);
        hk::set_word_pointer(&mut v.st, 2);
        v.unmark();
        cover!(true, "pre");
        check!(v.wl.len() == 2, "exactly the words from the marker on are gone");
        check!(word(&v.wl[0]) == old[0] && word(&v.wl[1]) == old[1], "earlier words are as before");
        let (b1, l1) = hk::wordlist_parts(&v.wl);
        check!(l1 == 1, "the latest word is the one before the marker");
        let mut k = 0;
        while k < 64 {
            check!(b1[k] == b0[k], "buckets are as before the marker");
            k += 1;
        }
        check!(v.ds.here() == start + 24, "the data-space pointer is as before the marker");
        check!(v.last_error.is_none() && v.s.len == 0, "nothing else");
        std::mem::forget(v);
    }
}
#[cfg(not(kani))]
fn run(v: &mut Kvm, text: &str) {
    v.inbuf = Some(String::from(text));
    v.tkn = Some(String::new());
    v.st.source_index = 0;
    v.st.is_compiling = false;
    v.st.instruction_pointer = 0;
    v.st.source_id = 0;
    v.last_error = None;
    v.evaluate_input();
}
crate::closed! {
    fn bindings() {
        crate::bind::check_bindings(&[
            ("immediate", Kvm::immediate, 0), ("compile-only", Kvm::compile_only, 0), ("marker", Kvm::marker, 0),
            ("create", Kvm::create, 0), (":", Kvm::colon, 0),
        ]);
    }
    /// random histories of definitions, redefinitions, markers and failed
    /// definitions against a list of (name, word)
    fn history_bounded() {
        let names = ["a", "b", "ab", "ba", "Ab", "swap", "dup", "x1", "!", "q-word", "zz", "longer-name-than-usual-in-forth", "A", "aa", "bB", "c0"];
        // pairs in the same bucket
        let mut coll: Vec<String> = Vec::new();
        for i in 0..400u32 {
            let s = format!("n{}", i);
            if hk::hash::<Kvm>(&s) % 64 == hk::hash::<Kvm>("ab") % 64 { coll.push(s) }
        }
        let pool: Vec<String> = names.iter().map(|s| s.to_string()).chain(coll.into_iter().take(8)).collect();
        let mut v = crate::bind::dictionary();
        let base: Vec<Option<usize>> = pool.iter().map(|n| v.find(n)).collect();
        for _ in 0..4 {
            run(&mut v, "marker --all--");
            assert!(v.last_error.is_none(), "CONTRACT marker");
            // model: (lower-case name, xt, Some(state before) for markers)
            let mut m: Vec<(String, usize, Option<(usize, usize)>)> = Vec::new();
            for _ in 0..60 {
                let (mut op, k): (u8, u8) = (any(), any());
                op %= 12;
                let n = &pool[k as usize % pool.len()];
                let n = if any() { n.to_ascii_uppercase() } else { n.clone() };
                let (len, here) = (v.wl.len(), v.ds.here());
                match op {
                    0..=3 => { run(&mut v, &format!("create {} 1 ,", n)); assert!(v.last_error.is_none(), "CONTRACT create {}", n); m.push((n.to_ascii_lowercase(), len, None)); }
                    4 | 5 => { run(&mut v, &format!(": {} 5 ;", n)); assert!(v.last_error.is_none(), "CONTRACT : {}", n); m.push((n.to_ascii_lowercase(), len, None)); }
                    6 | 7 => { run(&mut v, &format!("marker {}", n)); m.push((n.to_ascii_lowercase(), len, Some((m.len(), here)))); }
                    8 => {
                        // a definition that is never completed stays invisible
                        run(&mut v, &format!(": {} nonexistent-word ;", n));
                        assert!(v.last_error.is_some(), "CONTRACT undefined word");
                        v.last_error = None; v.st.is_compiling = false; v.c.len = 0;
                        m.push((String::new(), len, None));
                    }
                    9 => {
                        // run the marker that is visible under this name, if one is
                        if let Some(i) = m.iter().rposition(|e| e.0 == n.to_ascii_lowercase()) {
                            if let Some((k, h)) = m[i].2 {
                                let l = m[i].1;
                                run(&mut v, &n);
                                assert!(v.last_error.is_none(), "CONTRACT running a marker");
                                m.truncate(k);
                                assert!(v.wl.len() == l && v.ds.here() == h, "CONTRACT a marker restores the dictionary and data space");
                            }
                        }
                    }
                    _ => {
                        run(&mut v, "immediate");
                        let l = v.wl.len() - 1;
                        assert!(v.wl[l].is_immediate(), "CONTRACT immediate marks the latest word");
                        v.wl[l].set_immediate(false);
                    }
                }
                hit("step");
                for (i, n) in pool.iter().enumerate() {
                    let want = m.iter().rev().find(|e| e.0 == n.to_ascii_lowercase()).map(|e| e.1).or(base[i]);
                    assert!(v.find(n) == want, "CONTRACT {} finds {:?}, not {:?}", n, want, v.find(n));
                    assert!(v.find(&n.to_ascii_uppercase()) == want, "CONTRACT {} in upper case", n);
                }
                assert!(v.find("no-such-word").is_none() && v.find("").is_none(), "CONTRACT an unknown name is not found");
                v.s.len = 0;
            }
            run(&mut v, "--all--");
            assert!(v.last_error.is_none(), "CONTRACT marker");
        }
    }
}
