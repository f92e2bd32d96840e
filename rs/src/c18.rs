//! C18: output words: the output buffer grows by exactly the text asked for.
use crate::nd::*;
use crate::spec::*;
use crate::vm::*;
use crate::{check, contracts, cover};
use rtforth::core::*;
use rtforth::exception::*;
use rtforth::float::Float;
use rtforth::memory::*;
use rtforth::output::Output;

/// Formatting, by contract: `NUMERAL` is appended to the hold buffer.
pub static mut LEN: usize = 2;
pub static mut HOLD: *mut String = std::ptr::null_mut();
const NUMERAL: &str = "-1";
#[cfg(kani)]
pub fn fmt(_: &mut dyn std::fmt::Write, _: std::fmt::Arguments<'_>) -> std::fmt::Result {
    unsafe { (*HOLD).push_str(NUMERAL) }
    Ok(())
}
/// Decoding, by contract: valid text is unchanged.
#[cfg(kani)]
pub fn lossy(b: &[u8]) -> std::borrow::Cow<'_, str> {
    std::borrow::Cow::Borrowed(unsafe { std::str::from_utf8_unchecked(b) })
}
/// three data-stack items, a buffer holding "ab"
fn machine() -> Kvm {
    let mut v = Kvm::lean();
    v.s.len = 3;
    v.s.inner[0] = any();
    v.s.inner[1] = any();
    v.s.inner[2] = any();
    v.f.len = 2;
    v.f.inner[0] = any();
    v.f.inner[1] = any();
    let mut o = String::with_capacity(32);
    o.push_str("ab");
    v.out = Some(o);
    v.hold = String::with_capacity(32);
    let b = v.ds.system_variables().base_addr();
    unsafe { v.ds.put_isize(any(), b) };
    v
}
fn base(v: &mut Kvm) -> isize {
    let b = v.ds.system_variables().base_addr();
    unsafe { v.ds.get_isize(b) }
}
/// the buffer is "ab" followed by `want`
fn appended(v: &Kvm, want: &[u8]) {
    match v.out {
        None => check!(false, "the output buffer is still there"),
        Some(ref o) => {
            let o = o.as_bytes();
            check!(o.len() == 2 + want.len(), "exactly the text is appended");
            check!(o[0] == b'a' && o[1] == b'b', "earlier output is kept");
            let mut i = 0;
            while i < want.len() {
                check!(o[2 + i] == want[i], "the appended text");
                i += 1;
            }
        }
    }
}
const S: May = May { s: true, ..NONE };
const SF: May = May { s: true, f: true, ..NONE };
fn popped(a: &Snap, b: &Snap, n: usize) {
    stack_s(a, b, n, []);
}
/// `n` blanks and the numeral
fn padded(v: &Kvm, width: isize) {
    let len = unsafe { LEN };
    let mut want = [b' '; 8];
    let pad = if width > len as isize { width as usize - len } else { 0 };
    let mut i = 0;
    while i < len {
        want[pad + i] = NUMERAL.as_bytes()[i];
        i += 1;
    }
    appended(v, &want[..pad + len]);
}

contracts! {
    #[kani::solver(cadical)]
    #[kani::unwind(10)]
    fn emit() {
        let mut v = machine();
        let x = top(&v.s.inner, 3, 0);
        let a = v.snap();
        cover!(true, "pre");
        v.emit();
        let b = v.snap();
        popped(&a, &b, 1);
        frame(&a, &b, S);
        let c = x as u8;
        if c < 0x80 { appended(&v, &[c]) } else { appended(&v, &[0xc0 | c >> 6, 0x80 | c & 0x3f]) }
        std::mem::forget(v);
    }
    #[kani::solver(cadical)]
    #[kani::unwind(10)]
    fn no_buffer() {
        let mut v = machine();
        let k: u8 = any();
        v.out = None;
        let a = v.snap();
        cover!(true, "pre");
        match k % 4 {
            0 => v.emit(),
            1 => v.dot_r(),
            2 => v.fdot_r(),
            _ => v.flush_output(),
        }
        let b = v.snap();
        match k % 4 {
            0 => popped(&a, &b, 1),
            1 => popped(&a, &b, 2),
            2 => { popped(&a, &b, 2); stack_f(&a, &b, 1, []) }
            _ => popped(&a, &b, 0),
        }
        frame(&a, &b, if k % 4 == 2 { SF } else { S });
        check!(v.out.is_none(), "no output buffer appears");
        std::mem::forget(v);
    }
    #[kani::solver(cadical)]
    #[kani::unwind(10)]
    #[kani::stub(std::fmt::write, fmt)]
    fn dot_r_base() {
        let mut v = machine();
        #[cfg(not(kani))]
        { v.s.inner[2] %= 40; }
        unsafe { HOLD = &mut v.hold };
        let n = base(&mut v);
        assume(n != 2 && n != 8 && n != 10 && n != 16);
        let a = v.snap();
        cover!(true, "pre");
        v.dot_r();
        let b = v.snap();
        aborted(&a, &b, UNSUPPORTED_OPERATION, NONE);
        appended(&v, &[]);
        std::mem::forget(v);
    }
    #[kani::solver(cadical)]
    #[kani::unwind(10)]
    #[kani::stub(std::fmt::write, fmt)]
    fn dot_r_padding_bounded() {
        let mut v = machine();
        let k: u8 = any();
        unsafe { HOLD = &mut v.hold };
        let at = v.ds.system_variables().base_addr();
        let bs = match k % 4 { 0 => 2, 1 => 8, 2 => 10, _ => 16 };
        unsafe { v.ds.put_isize(bs, at) };
        #[cfg(not(kani))]
        {
            // natively the numeral is formatted
            v.s.inner[1] = -1;
            v.s.inner[2] %= 7;
            unsafe { v.ds.put_isize(10, at) };
        }
        let w = top(&v.s.inner, 3, 0);
        assume(w <= 6);
        let a = v.snap();
        cover!(true, "pre");
        v.dot_r();
        let b = v.snap();
        popped(&a, &b, 2);
        frame(&a, &b, S);
        padded(&v, w);
        std::mem::forget(v);
    }
    #[kani::solver(cadical)]
    #[kani::unwind(10)]
    #[kani::stub(std::fmt::write, fmt)]
    fn fdot_r_padding_bounded() {
        let mut v = machine();
        unsafe { HOLD = &mut v.hold };
        #[cfg(not(kani))]
        {
            v.f.inner[1] = -1.0;
            v.s.inner[2] = 0;
            v.s.inner[1] %= 7;
        }
        let w = top(&v.s.inner, 3, 1);
        assume(w <= 6);
        let a = v.snap();
        cover!(true, "pre");
        v.fdot_r();
        let b = v.snap();
        popped(&a, &b, 2);
        stack_f(&a, &b, 1, []);
        frame(&a, &b, SF);
        padded(&v, w);
        std::mem::forget(v);
    }
    #[kani::solver(cadical)]
    #[kani::unwind(10)]
    #[kani::stub(std::string::String::from_utf8_lossy, lossy)]
    fn type_bounded() {
        let mut v = machine();
        let m = any_mem(&mut v.ds);
        let n: usize = any();
        let mut off: usize = any();
        #[cfg(not(kani))]
        let n = n % 3;
        #[cfg(not(kani))]
        { off %= CAP - 2; }
        assume(n <= 2 && off <= CAP - 2);
        assume(m[off] < 0x80 && m[off + 1] < 0x80);
        let start = v.ds.start();
        v.s.inner[1] = (start + off) as isize;
        v.s.inner[2] = n as isize;
        let a = v.snap();
        cover!(true, "pre");
        v.p_type();
        let b = v.snap();
        popped(&a, &b, 2);
        frame(&a, &b, S);
        mem_frame(&m, &v.ds, 0, 0);
        appended(&v, &m[off..off + n]);
        std::mem::forget(v);
    }
}
#[cfg(not(kani))]
fn numeral(n: isize, base: u64) -> String {
    // decimal is signed; the other bases print the two's complement
    let neg = base == 10 && n < 0;
    let mut u = if neg { (n as i64).unsigned_abs() } else { n as u64 };
    let mut d = vec![];
    loop {
        d.push(b"0123456789ABCDEF"[(u % base) as usize]);
        u /= base;
        if u == 0 { break }
    }
    if neg { d.push(b'-') }
    d.reverse();
    String::from_utf8(d).unwrap()
}
#[cfg(not(kani))]
fn pad(s: &str, w: isize) -> String {
    let mut t = String::new();
    let mut i = s.len() as isize;
    while i < w { t.push(' '); i += 1; }
    t + s
}
#[cfg(not(kani))]
fn any_text(no: char) -> String {
    let mut s = String::new();
    for _ in 0..(any::<u8>() % 20) {
        let c: u8 = any();
        let c = match any::<u8>() % 6 {
            0 => "äß€😀é日 \t".chars().nth(c as usize % 8).unwrap(),
            1 => ")\"(\\:;' ".chars().nth(c as usize % 8).unwrap(),
            _ => (32 + c % 95) as char,
        };
        if c != no { s.push(c) }
    }
    s
}
crate::closed! {
    fn bindings() {
        use crate::bind::*;
        check_bindings(&[
            ("emit", Kvm::emit, 0), ("type", Kvm::p_type, 0), (".r", Kvm::dot_r, 0), ("f.r", Kvm::fdot_r, 0),
            ("s\"", Kvm::s_quote, IMM | CO), (".\"", Kvm::dot_quote, IMM | CO), (".(", Kvm::dot_paren, IMM),
        ]);
    }
    /// .r and f.r: numerals, fields and buffers at random
    fn numbers_bounded() {
        for round in 0..3000 {
            let mut v = Kvm::lean();
            let b = v.ds.system_variables().base_addr();
            let bs = [2isize, 8, 10, 16][any::<u8>() as usize % 4];
            unsafe { v.ds.put_isize(bs, b) };
            let (n, w): (isize, isize) = (any(), any());
            let w = if any::<u8>() % 16 == 0 { -(w & 0x7fff_ffff_ffff_ffff) - 1 } else { w % 90 };
            let before = any_text('\u{0}');
            v.out = Some(before.clone());
            v.hold = any_text('\u{0}');
            v.s.len = 3;
            v.s.inner[0] = 77;
            if round % 2 == 0 {
                v.s.inner[1] = n;
                v.s.inner[2] = w;
                hit(".r");
                v.dot_r();
                let want = before + &pad(&numeral(n, bs as u64), w);
                assert!(v.out.as_ref() == Some(&want), "CONTRACT {} {} .r in base {} prints {:?}, not {:?}", n, w, bs, v.out, want);
            } else {
                let r: f64 = match any::<u8>() % 4 { 0 => any(), 1 => any::<i16>() as f64 / 64.0, 2 => any::<i32>() as f64 / 1000.0, _ => (any::<i16>() as f64) * 1e-6 };
                let p: isize = match any::<u8>() % 8 { 0 => any(), x => (x as isize * 5 + any::<u8>() as isize) % 20 };
                v.f.len = 2;
                v.f.inner[0] = 5.5;
                v.f.inner[1] = r;
                v.s.inner[1] = w;
                v.s.inner[2] = p;
                hit("f.r");
                v.fdot_r();
                let digits = if 0 <= p && p <= 17 { p as usize } else { 17 };
                let want = before + &pad(&format!("{:.*}", digits, r), w);
                assert!(v.out.as_ref() == Some(&want), "CONTRACT {:?} {} {} f.r prints {:?}, not {:?}", r, w, p, v.out, want);
                assert!(v.f.len == 1 && v.f.inner[0] == 5.5, "CONTRACT f.r leaves the float stack");
            }
            assert!(v.last_error.is_none() && v.s.len == 1 && v.s.inner[0] == 77, "CONTRACT stacks after .r / f.r");
        }
    }
    /// s" type ." .( in source text, interpreted and compiled
    fn texts_bounded() {
        let mut v = crate::bind::dictionary();
        for round in 0..600 {
            v.handler = usize::MAX;
            v.st.is_compiling = false;
            v.st.instruction_pointer = 0;
            v.st.source_id = 0;
            v.last_error = None;
            v.tkn = Some(String::new());
            v.s.len = 0; v.r.len = 0; v.f.len = 0; v.c.len = 0;
            let before = any_text('\u{0}');
            v.out = Some(before.clone());
            let mut line = String::new();
            let mut want = before;
            let mut late = String::new();
            line += &format!(": t{} ", round);
            for _ in 0..(any::<u8>() % 4) {
                let k: u8 = any();
                let t = any_text(if k % 3 == 2 { ')' } else { '"' });
                match k % 3 {
                    0 => { line += &format!("s\" {}\" type ", t); late += &t }
                    1 => { line += &format!(".\" {}\" ", t); late += &t }
                    _ => { line += &format!(".( {}) ", t); want += &t }
                }
            }
            let (c, n): (u8, u8) = (any(), any());
            line += &format!("; t{} {} emit {} ", round, 33 + c % 90, 1 + n % 50);
            want += &late;
            want.push((33 + c % 90) as char);
            let t = any_text(')');
            line += &format!(".( {}) ", t);
            want += &t;
            hit("text");
            v.inbuf = Some(line.clone());
            v.st.source_index = 0;
            v.evaluate_input();
            assert!(v.last_error.is_none(), "CONTRACT {:?}: error {:?}", line, v.last_error);
            assert!(v.out.as_ref() == Some(&want), "CONTRACT {:?} prints {:?}, not {:?}", line, v.out, want);
            assert!(v.s.len == 1 && v.s.inner[0] == (1 + n % 50) as isize, "CONTRACT {:?} leaves the stack", line);
            if v.ds.here() + 4000 > v.ds.limit() { v = crate::bind::dictionary(); }
        }
    }
}
