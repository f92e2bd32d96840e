//! C13: the text interpreter: input is split into tokens as the standard says
//! and each token is found, executed, compiled or read as a number, in order.
use crate::nd::*;
use crate::spec::*;
use crate::vm::*;
use crate::{check, contracts, cover};
use rtforth::core::*;
use rtforth::exception::*;
use rtforth::memory::*;
use rtforth::verif as hk;

static mut CS: (usize, usize) = (0, 0);
fn compilation(_v: &mut Ivm, w: usize) {
    ev(9);
    unsafe { CS = (CS.0 + 1, w) }
}
/// a VM with one token, one word and arbitrary answers of the callees
fn token(text: &str) -> Ivm {
    let mut v = Ivm::lean();
    v.s = any_stack();
    v.tkn = Some(String::from(text));
    v.last_error = if any() { Some(ABORT) } else { None };
    v.wl = Wordlist::with_capacity(2);
    hk::push_word(&mut v.wl, Word::new(Ivm::abort, compilation, any(), any()));
    hk::push_word(&mut v.wl, Word::new(Ivm::abort, compilation, any(), any()));
    let mut i = 0;
    while i < 2 {
        v.wl[i].set_immediate(any());
        v.wl[i].set_compile_only(any());
        v.wl[i].set_hidden(any());
        i += 1;
    }
    let w: usize = any();
    #[cfg(not(kani))]
    let w = w % 2;
    assume(w < 2);
    unsafe {
        CS = (0, 0);
        SCRIPT.found = if any() { Some(w) } else { None };
        SCRIPT.int_ok = any();
        SCRIPT.float_ok = any();
        SCRIPT.n = 0;
    }
    v
}
fn log_is(l: &[u8]) -> bool {
    unsafe {
        let mut same = SCRIPT.n == l.len();
        let mut i = 0;
        while i < l.len() {
            same = same && SCRIPT.log[i] == l[i];
            i += 1;
        }
        same
    }
}
fn kept(v: &Ivm, text: &str) -> bool {
    match v.tkn { Some(ref t) => t.len() == text.len() && t.as_bytes()[0] == text.as_bytes()[0], None => false }
}
/// what both do with a token that names no word; the pending error is cleared first
fn number(v: &Ivm, a: &Snap, b: &Snap) {
    let (i, f) = unsafe { (SCRIPT.int_ok, SCRIPT.float_ok) };
    if i {
        cover!(true, "integer");
        check!(log_is(&[2, 3]), "an integer is read as an integer only");
        check!(b.err.is_none() && b.rec.aborts == 0, "and is no error");
        frame(a, b, NONE);
    } else if f {
        cover!(true, "float");
        check!(log_is(&[2, 3, 4]), "else it is read as a float");
        check!(b.err.is_none() && b.rec.aborts == 0, "and is no error");
        frame(a, b, NONE);
    } else {
        cover!(true, "undefined");
        check!(log_is(&[2, 3, 4]), "it was tried as integer and float");
        aborted(a, b, UNDEFINED_WORD, NONE);
    }
}

contracts! {
    #[kani::unwind(9)]
    fn interpret_token() {
        let mut v = token("w");
        let a = v.snap();
        v.interpret_token();
        let b = v.snap();
        check!(kept(&v, "w"), "the token is kept");
        match unsafe { SCRIPT.found } {
            Some(w) => {
                if v.wl[w].is_compile_only() {
                    cover!(true, "compile-only");
                    check!(log_is(&[2]), "it is not executed");
                    aborted(&a, &b, INTERPRETING_A_COMPILE_ONLY_WORD, NONE);
                } else {
                    cover!(true, "word");
                    check!(log_is(&[2, 5]) && b.rec.xt == w, "the word found is executed, once");
                    check!(b.rec.aborts == 0 && b.err == a.err, "no error of its own");
                    frame(&a, &b, May { err: true, ..NONE });
                }
            }
            None => number(&v, &a, &b),
        }
        std::mem::forget(v);
    }
    /// the word found is compiled or executed
    #[kani::unwind(9)]
    fn compile_word() {
        let mut v = Ivm::lean();
        v.tkn = Some(String::from("w"));
        v.wl = Wordlist::with_capacity(1);
        hk::push_word(&mut v.wl, Word::new(Ivm::abort, compilation, 0, 0));
        let imm: bool = any();
        v.wl[0].set_immediate(imm);
        v.wl[0].set_compile_only(any());
        unsafe {
            CS = (0, 0);
            SCRIPT.found = Some(0);
            SCRIPT.n = 0;
        }
        v.compile_token();
        check!(kept(&v, "w"), "the token is kept");
        if imm {
            cover!(true, "immediate");
            check!(log_is(&[2, 5]) && v.rec.xt == 0, "an immediate word is executed, once");
        } else {
            cover!(true, "word");
            check!(log_is(&[2, 9]) && unsafe { CS } == (1, 0), "its compilation semantics is performed, once");
        }
        check!(v.rec.aborts == 0, "no error of its own");
        std::mem::forget(v);
    }
    #[kani::unwind(9)]
    fn compile_token() {
        let mut v = token("w");
        unsafe { SCRIPT.found = None }
        let a = v.snap();
        v.compile_token();
        let b = v.snap();
        check!(kept(&v, "w"), "the token is kept");
        number(&v, &a, &b);
        std::mem::forget(v);
    }
    /// ' ['] postpone: find the next word, or fail once
    #[kani::unwind(9)]
    fn name_words() {
        let empty: bool = any();
        let mut v = token("w");
        v.last_error = None;
        if empty { v.tkn = Some(String::new()) }
        v.refs.idx__postpone = any();
        let k: u8 = any();
        let a = v.snap();
        match k % 3 {
            0 => v.tick(),
            1 => v.bracket_tick(),
            _ => v.postpone(),
        }
        let b = v.snap();
        if empty {
            cover!(true, "no name");
            check!(log_is(&[1]), "nothing is looked up");
            aborted(&a, &b, UNEXPECTED_END_OF_FILE, NONE);
        } else {
            match unsafe { SCRIPT.found } {
                Some(w) => {
                    cover!(k % 3 == 0, "tick");
                    if k % 3 == 0 {
                        check!(log_is(&[1, 2]), "looked up once");
                        if legal(a.sl, 0, 1) { stack_s(&a, &b, 0, [w as isize]); }
                        frame(&a, &b, May { s: true, ..NONE });
                    } else if k % 3 == 1 {
                        cover!(true, "bracket tick");
                        check!(log_is(&[1, 2, 6]) && b.rec.xt == w, "the token is compiled as a literal");
                        frame(&a, &b, NONE);
                    } else {
                        cover!(true, "postpone");
                        check!(log_is(&[1, 2, 6, 7]) && b.rec.xt == w && b.rec.next[0] == v.refs.idx__postpone, "the token and the word that compiles it are compiled");
                        frame(&a, &b, NONE);
                    }
                    check!(kept(&v, "w"), "the token is kept");
                }
                None => {
                    cover!(true, "unknown");
                    aborted(&a, &b, UNDEFINED_WORD, NONE);
                    check!(kept(&v, "w"), "the token is kept");
                }
            }
        }
        std::mem::forget(v);
    }
    /// CHAR and [CHAR]
    #[kani::unwind(9)]
    fn char_words() {
        let mut v = token("w");
        v.last_error = None;
        let (c, d): (u8, u8) = (any(), any());
        assume(c < 128 && d < 128);
        let n: u8 = any();
        let mut t = [c, d];
        v.tkn = Some(unsafe { String::from_utf8_unchecked(match n % 3 { 0 => vec![], 1 => vec![c], _ => vec![c, d] }) });
        let br: bool = any();
        assume(v.s.len < 60);
        let a = v.snap();
        if br { v.bracket_char() } else { v.char() }
        let b = v.snap();
        if n % 3 == 0 {
            cover!(true, "none");
            check!(log_is(&[1]), "nothing else");
            aborted(&a, &b, UNEXPECTED_END_OF_FILE, NONE);
        } else if br {
            cover!(true, "[char]");
            check!(log_is(&[1, 6]) && b.rec.xt == c as usize, "the first character is compiled");
            stack_s(&a, &b, 0, []);
            frame(&a, &b, May { s: true, ..NONE });
        } else {
            cover!(true, "char");
            check!(log_is(&[1]), "nothing is compiled");
            stack_s(&a, &b, 0, [c as isize]);
            frame(&a, &b, May { s: true, ..NONE });
        }
        std::mem::forget(v);
    }
    /// token by token, until the input is used up or an error
    #[kani::unwind(9)]
    fn evaluate_input_bounded() {
        let mut v = Evm::lean();
        v.tkn = Some(String::new());
        let n: usize = any();
        #[cfg(not(kani))]
        let n = n % 4;
        assume(n < 4);
        let err: [[bool; 3]; 4] = any();
        let comp: [bool; 4] = any();
        unsafe {
            SCRIPT.toks = n;
            SCRIPT.n = 0;
            SCRIPT.err = err;
            SCRIPT.compiling = comp;
        }
        let mut c = v.st.is_compiling;
        v.evaluate_input();
        let mut at = 0;
        let mut t = n;
        let mut stop = false;
        let log = unsafe { SCRIPT.log };
        while !stop {
            check!(log[at] == 1, "the next token is read");
            at += 1;
            if t == 0 { break }
            t -= 1;
            check!(log[at] == if c { 3 } else { 2 }, "it is compiled in compilation state, else interpreted");
            at += 1;
            c = comp[t];
            if err[t][0] { break }
            check!(log[at] == 4 && log[at + 1] == 5, "compiled code runs, then the stacks are checked");
            at += 2;
            stop = err[t][1] || err[t][2];
        }
        cover!(t == 0 && !stop, "all tokens");
        cover!(stop, "error");
        check!(unsafe { SCRIPT.n } == at, "and nothing after the end or an error");
        std::mem::forget(v);
    }
    /// [ ] and COMPILING?
    #[kani::solver(z3)]
    fn state_words() {
        let mut v = Kvm::any();
        let k: u8 = any();
        let a = v.snap();
        match k % 3 {
            0 => v.left_bracket(),
            1 => v.right_bracket(),
            _ => v.p_compiling(),
        }
        let b = v.snap();
        cover!(k % 3 == 2 && a.compiling, "compiling");
        check!(b.compiling == match k % 3 { 0 => false, 1 => true, _ => a.compiling }, "the state");
        check!(b.sl == a.sl.wrapping_add((k % 3 == 2) as u8), "net stack effect");
        if k % 3 == 2 && legal(a.sl, 0, 1) { stack_s(&a, &b, 0, [flag(a.compiling)]); }
        frame(&a, &b, May { s: k % 3 == 2, compiling: true, ..NONE });
        std::mem::forget(v);
    }
    /// SOURCE-IDX and SOURCE-IDX!
    #[kani::solver(z3)]
    fn source_idx() {
        let mut v = Kvm::any();
        let set: bool = any();
        let a = v.snap();
        if set { v.p_set_source_idx() } else { v.p_source_idx() }
        let b = v.snap();
        cover!(set, "set");
        cover!(!set, "get");
        if set {
            check!(b.sl == a.sl.wrapping_sub(1) && b.sidx == top(&a.s, a.sl, 0) as usize && b.sid == a.sid, "the index is set");
            if legal(a.sl, 1, 0) { stack_s(&a, &b, 1, []); }
        } else {
            check!(b.sl == a.sl.wrapping_add(1) && b.sidx == a.sidx && b.sid == a.sid, "net effect");
            if legal(a.sl, 0, 1) { stack_s(&a, &b, 0, [a.sidx as isize]); }
        }
        frame(&a, &b, May { s: true, input: true, ..NONE });
        std::mem::forget(v);
    }
}
#[cfg(not(kani))]
fn text(n: usize) -> String {
    let mut s = String::new();
    for _ in 0..(any::<u8>() as usize % (n + 1)) {
        let c: u8 = any();
        match any::<u8>() % 8 {
            0 => s.push(' '),
            1 => s.push("\t\n\r  \u{0}\u{b}\u{c}\u{a0}\u{2003}".chars().nth(c as usize % 10).unwrap()),
            2 => s.push("äß€😀é日".chars().nth(c as usize % 6).unwrap()),
            3 => s.push(")\"(\\:;'".chars().nth(c as usize % 7).unwrap()),
            4 => s.push((c % 128) as char),
            _ => s.push("abcd019".chars().nth(c as usize % 7).unwrap()),
        }
    }
    s
}
crate::closed! {
    fn bindings() {
        crate::bind::check_bindings(&[
            ("parse-word", Kvm::parse_word, 0), ("parse", Kvm::parse, 0), ("_skip", Kvm::_skip, 0), ("char", Kvm::char, 0),
            ("[char]", Kvm::bracket_char, crate::bind::IMM | crate::bind::CO), ("'", Kvm::tick, 0), ("[']", Kvm::bracket_tick, crate::bind::IMM | crate::bind::CO),
            ("postpone", Kvm::postpone, crate::bind::IMM | crate::bind::CO), ("(", Kvm::imm_paren, crate::bind::IMM), ("\\", Kvm::imm_backslash, crate::bind::IMM),
            ("[", Kvm::left_bracket, crate::bind::IMM), ("]", Kvm::right_bracket, 0), ("compile-token", Kvm::compile_token, 0),
            ("interpret-token", Kvm::interpret_token, 0), ("compiling?", Kvm::p_compiling, 0), ("token-empty?", Kvm::token_empty, 0),
            ("source-idx", Kvm::p_source_idx, 0), ("source-idx!", Kvm::p_set_source_idx, 0), (".token", Kvm::dot_token, 0),
        ]);
    }
    /// parse_word, parse, _skip and the comments on random texts from random positions
    fn parsing_bounded() {
        for _ in 0..6 {
            let mut v = Kvm::lean();
            let t = text(24);
            let i: usize = any();
            let i = if any::<u8>() % 8 == 0 { i } else { i % (t.len() + 2) };
            let src: String = t.get(i..).unwrap_or("").to_string();
            let ok = t.get(i..).is_some();
            v.inbuf = Some(t.clone());
            v.tkn = Some(text(3));
            v.st.source_index = i;
            v.last_error = None;
            hit("text");
            let white = |c: char| c == ' ' || c == '\t' || c == '\n' || c == '\r';
            let op = any::<u8>() % 5;
            let d = match any::<u8>() % 4 { 0 => ')', 1 => ' ', 2 => src.chars().nth(1).unwrap_or('x'), _ => 'a' };
            let d = match op { 3 => ')', 4 => '\n', _ => d };
            let v0 = v.tkn.clone();
            let (want, adv): (String, usize) = match op {
                0 => {
                    let w: String = src.trim_start_matches(white).split(white).next().unwrap().to_string();
                    let skip = src.len() - src.trim_start_matches(white).len();
                    v.parse_word();
                    (w.clone(), skip + w.len())
                }
                2 => {
                    let k: isize = if any::<u8>() % 8 == 0 { any() } else { d as isize };
                    v.s.push(k);
                    v._skip();
                    let rest = src.trim_start_matches(|c: char| c as isize == k);
                    (v0.unwrap(), src.len() - rest.len())
                }
                _ => {
                    let w: String = src.split(d).next().unwrap().to_string();
                    let adv = if w.len() < src.len() { w.len() + d.len_utf8() } else { w.len() };
                    match op {
                        3 => v.imm_paren(),
                        4 => v.imm_backslash(),
                        _ => { v.s.push(d as isize); v.parse() }
                    }
                    (w, adv)
                }
            };
            assert!(v.tkn.as_ref() == Some(&want), "CONTRACT op {} on {:?} from {}: token {:?}, not {:?}", op, t, i, v.tkn, want);
            let at = if ok { i + adv } else { i };
            assert!(v.st.source_index == at, "CONTRACT op {} on {:?} from {}: index {}, not {}", op, t, i, v.st.source_index, at);
            assert!(v.inbuf.as_ref() == Some(&t) && v.s.len == 0 && v.last_error.is_none(), "CONTRACT nothing else");
        }
    }
    /// random programs of words, numbers, comments and definitions against a
    /// direct evaluation of the same text
    fn programs_bounded() {
        let mut v = crate::bind::dictionary();
        let start = (v.wl.len(), v.ds.here());
        for round in 0..60 {
            v.handler = usize::MAX;
            v.st.is_compiling = false;
            v.st.instruction_pointer = 0;
            v.st.source_id = 0;
            v.last_error = None;
            v.tkn = Some(String::new());
            v.s.len = 0; v.r.len = 0; v.f.len = 0; v.c.len = 0;
            let mut st: Vec<isize> = vec![];
            let mut defs: Vec<(String, Vec<String>)> = vec![];
            let mut line = String::new();
            for _ in 0..25 {
                let (k, x): (u8, u8) = (any(), any());
                let mut body = vec![];
                let def = k % 6 == 0;
                for _ in 0..(if def { x % 4 } else { 1 }) {
                    let y: u8 = any();
                    body.push(match any::<u8>() % 8 {
                        0..=3 => format!("{}", y as i8),
                        4 => "+".to_string(),
                        5 => "dup".to_string(),
                        6 if !defs.is_empty() => defs[y as usize % defs.len()].0.clone(),
                        _ => "swap".to_string(),
                    });
                }
                let gap = |g: u8| ["  ", " ", "\t", " \n ", " ( note 1 2 ) ", " \\ rest 5 5\n", " (  ) ", "\r\n"][g as usize % 8];
                if def {
                    let n = format!("W{}", x % 5);
                    line += &format!(":{}{} ", gap(any::<u8>() % 3), n);
                    for b in &body { line += b; line += gap(any()); }
                    line += " ;";
                    line += gap(any());
                    // calls inside are to the definitions visible now
                    let inl: Vec<String> = body.iter().flat_map(|b| match defs.iter().rev().find(|d| d.0.eq_ignore_ascii_case(b)) { Some(d) => d.1.clone(), None => vec![b.clone()] }).collect();
                    defs.push((n, inl));
                } else {
                    for b in &body { line += &(if x % 2 == 0 { b.to_uppercase() } else { b.clone() }); line += gap(any()); }
                    for b in &body {
                        let ops = match defs.iter().rev().find(|d| d.0.eq_ignore_ascii_case(b)) { Some(d) => d.1.clone(), None => vec![b.clone()] };
                        for o in ops {
                            match o.as_str() {
                                "+" => { if st.len() < 2 { st.extend([0; 0]); } let b = st.pop(); let a = st.pop(); if let (Some(a), Some(b)) = (a, b) { st.push(a.wrapping_add(b)) } else { st.clear(); st.push(isize::MIN) } }
                                "dup" => { match st.last().cloned() { Some(a) => st.push(a), None => st.push(isize::MIN) } }
                                "swap" => { let n = st.len(); if n >= 2 { st.swap(n - 1, n - 2) } else { st.push(isize::MIN) } }
                                _ => st.push(o.parse().unwrap()),
                            }
                            if st.contains(&isize::MIN) { break }
                        }
                    }
                }
                if st.contains(&isize::MIN) || st.len() > 40 { break }
            }
            if !st.contains(&isize::MIN) && st.len() <= 60 {
                hit("program");
                v.inbuf = Some(line.clone());
                v.st.source_index = 0;
                v.evaluate_input();
                assert!(v.last_error.is_none(), "CONTRACT {:?}: error {:?} at {:?}", line, v.last_error, v.tkn);
                assert!(v.s.len as usize == st.len() && st.iter().enumerate().all(|(i, x)| v.s.inner[i] == *x), "CONTRACT {:?} leaves {:?}, not {:?}", line, &v.s.inner[..v.s.len as usize], st);
            }
            let _ = round;
        }
        let _ = start;
    }
}
