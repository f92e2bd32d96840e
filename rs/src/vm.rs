//! Verification VMs: embeddings of `rtforth::core::Core` that satisfy the
//! accessor contracts of the trait (each accessor returns the field it names)
//! and leave every word of rtforth as the real provided method, except that a
//! VM kind may replace some *callees* by a recorder of their contract (modular
//! verification); the replaced callee is verified on another VM kind.
use crate::nd::*;
use rtforth::core::*;
use rtforth::env::Environment;
use rtforth::exception::*;
use rtforth::facility::Facility;
use rtforth::file_access::FileAccess;
use rtforth::float::Float;
use rtforth::hibitset::BitSet;
use rtforth::loader::{HasLoader, Source};
use rtforth::memory::*;
use rtforth::output::Output;
use rtforth::tools::Tools;
use rtforth::units::Units;
use std::fs::File;

pub const NT: usize = rtforth::NUM_TASKS;
/// capacity of the data space used by the contracts
pub const CAP: usize = 64;

pub fn page() -> usize {
    4096
}

/// what a recorder callee saw
#[derive(Clone, Copy, PartialEq)]
pub struct Rec {
    pub aborts: usize,
    pub execs: usize,
    pub xt: usize,
    /// tokens executed, instruction pointer seen, and (if `hop`) where each went next
    pub xts: [usize; 3],
    pub ips: [usize; 3],
    pub hop: bool,
    pub next: [usize; 3],
}
impl Rec {
    pub const fn new() -> Rec {
        Rec { aborts: 0, execs: 0, xt: 0, xts: [0; 3], ips: [0; 3], hop: false, next: [0; 3] }
    }
}

macro_rules! define_vm {
    ($Name:ident, { $($over:tt)* }) => {
        pub struct $Name {
            pub last_error: Option<Exception>,
            pub handler: usize,
            pub ds: DataSpace,
            pub hold: String,
            pub out: Option<String>,
            pub inbuf: Option<String>,
            pub files: Vec<Option<File>>,
            pub sources: Vec<Option<Source>>,
            pub lines: Vec<Option<String>>,
            pub tkn: Option<String>,
            pub s: Stack<isize>,
            pub r: Stack<isize>,
            pub c: Stack<Control>,
            pub f: Stack<f64>,
            pub wl: Wordlist<$Name>,
            pub st: State,
            pub refs: ForwardReferences,
            pub now: u64,
            pub cur: usize,
            pub awake: [bool; NT],
            pub fwd: BitSet,
            pub res: BitSet,
            pub labels: Vec<usize>,
            pub rec: Rec,
        }
        impl Core for $Name {
            fn last_error(&self) -> Option<Exception> { self.last_error }
            fn set_error(&mut self, e: Option<Exception>) { self.last_error = e }
            fn handler(&self) -> usize { self.handler }
            fn set_handler(&mut self, h: usize) { self.handler = h }
            fn data_space(&mut self) -> &mut DataSpace { &mut self.ds }
            fn data_space_const(&self) -> &DataSpace { &self.ds }
            fn hold_buffer(&mut self) -> &mut String { &mut self.hold }
            fn output_buffer(&mut self) -> &mut Option<String> { &mut self.out }
            fn set_output_buffer(&mut self, b: String) { self.out = Some(b) }
            fn source_id(&self) -> isize { self.st.source_id }
            fn input_buffer(&mut self) -> &mut Option<String> { &mut self.inbuf }
            fn set_input_buffer(&mut self, b: String) { self.inbuf = Some(b) }
            fn files(&self) -> &Vec<Option<File>> { &self.files }
            fn files_mut(&mut self) -> &mut Vec<Option<File>> { &mut self.files }
            fn sources(&self) -> &Vec<Option<Source>> { &self.sources }
            fn sources_mut(&mut self) -> &mut Vec<Option<Source>> { &mut self.sources }
            fn lines(&self) -> &Vec<Option<String>> { &self.lines }
            fn lines_mut(&mut self) -> &mut Vec<Option<String>> { &mut self.lines }
            fn last_token(&mut self) -> &mut Option<String> { &mut self.tkn }
            fn set_last_token(&mut self, b: String) { self.tkn = Some(b) }
            fn s_stack(&mut self) -> &mut Stack<isize> { &mut self.s }
            fn r_stack(&mut self) -> &mut Stack<isize> { &mut self.r }
            fn c_stack(&mut self) -> &mut Stack<Control> { &mut self.c }
            fn f_stack(&mut self) -> &mut Stack<f64> { &mut self.f }
            fn wordlist_mut(&mut self) -> &mut Wordlist<Self> { &mut self.wl }
            fn wordlist(&self) -> &Wordlist<Self> { &self.wl }
            fn state(&mut self) -> &mut State { &mut self.st }
            fn references(&mut self) -> &mut ForwardReferences { &mut self.refs }
            fn system_time_ns(&self) -> u64 { self.now }
            fn current_task(&self) -> usize { self.cur }
            fn set_current_task(&mut self, i: usize) { if i < NT { self.cur = i } }
            fn awake(&self, i: usize) -> bool { i < NT && self.awake[i] }
            fn set_awake(&mut self, i: usize, v: bool) { if i < NT { self.awake[i] = v } }
            fn forward_bitset(&self) -> &BitSet { &self.fwd }
            fn forward_bitset_mut(&mut self) -> &mut BitSet { &mut self.fwd }
            fn resolved_bitset(&self) -> &BitSet { &self.res }
            fn resolved_bitset_mut(&mut self) -> &mut BitSet { &mut self.res }
            fn labels(&self) -> &Vec<usize> { &self.labels }
            fn labels_mut(&mut self) -> &mut Vec<usize> { &mut self.labels }
            $($over)*
        }
        impl Output for $Name {}
        impl Tools for $Name {}
        impl Environment for $Name {}
        impl Facility for $Name {}
        impl Float for $Name {}
        impl Units for $Name {}
        impl FileAccess for $Name {}
        impl HasLoader for $Name {}
        impl $Name {
            /// Arbitrary stacks, flags, instruction pointer, error and memory.
            pub fn any() -> $Name { Self::any_cap(CAP) }
            /// empty stacks; everything else as in `any`
            pub fn lean() -> $Name {
                Self::make(CAP,
                    Stack { inner: [0x12345678; 256], len: 0, canary: 0x12345678 },
                    Stack { inner: [0x12345678; 256], len: 0, canary: 0x12345678 },
                    Stack { inner: [1.234567890; 256], len: 0, canary: 1.234567890 })
            }
            pub fn any_cap(cap: usize) -> $Name {
                Self::make(cap, any_stack(), any_stack(), any_stack())
            }
            #[inline(always)]
            fn make(cap: usize, s: Stack<isize>, r: Stack<isize>, f: Stack<f64>) -> $Name {
                let mut st = State::new();
                st.is_compiling = any();
                st.instruction_pointer = any();
                st.aborted_word_pointer = any();
                st.source_index = any();
                st.source_id = any();
                $Name {
                    last_error: None,
                    handler: any(),
                    ds: DataSpace::with_capacity(cap),
                    hold: String::new(), out: None, inbuf: None,
                    files: Vec::new(), sources: Vec::new(), lines: Vec::new(), tkn: None,
                    s, r,
                    c: Stack { inner: [Control::Canary; 256], len: 0, canary: Control::Canary },
                    f,
                    wl: Wordlist::with_capacity(0),
                    st, refs: ForwardReferences::new(), now: any(), cur: 0, awake: [true; NT],
                    fwd: BitSet::new(), res: BitSet::new(), labels: Vec::new(),
                    rec: Rec::new(),
                }
            }
        }
        impl Vmx for $Name {
            fn snap(&mut self) -> Snap {
                Snap {
                    s: self.s.inner, sl: self.s.len, sc: self.s.canary,
                    r: self.r.inner, rl: self.r.len, rc: self.r.canary,
                    f: self.f.inner, fl: self.f.len, fc: self.f.canary,
                    cl: self.c.len,
                    compiling: self.st.is_compiling, ip: self.st.instruction_pointer,
                    wp: self.st.word_pointer(), awp: self.st.aborted_word_pointer,
                    sidx: self.st.source_index, sid: self.st.source_id,
                    err: self.last_error, handler: self.handler,
                    here: self.ds.here(), words: self.wl.len(),
                    cur: self.cur, awake: self.awake, rec: self.rec,
                }
            }
            fn rec(&self) -> Rec { self.rec }
        }
    };
}

pub trait Vmx: Core {
    fn snap(&mut self) -> Snap;
    fn rec(&self) -> Rec;
}

/// The observable machine state, by value.
#[derive(Clone, Copy)]
pub struct Snap {
    pub s: [isize; 256], pub sl: u8, pub sc: isize,
    pub r: [isize; 256], pub rl: u8, pub rc: isize,
    pub f: [f64; 256], pub fl: u8, pub fc: f64,
    pub cl: u8,
    pub compiling: bool, pub ip: usize, pub wp: usize, pub awp: usize,
    pub sidx: usize, pub sid: isize,
    pub err: Option<Exception>, pub handler: usize,
    pub here: usize, pub words: usize,
    pub cur: usize, pub awake: [bool; NT], pub rec: Rec,
}

pub trait Fill: Nd + Copy + Default {
    fn canary() -> Self;
}
impl Fill for isize {
    fn canary() -> isize { 0x12345678 }
}
impl Fill for f64 {
    fn canary() -> f64 { 1.234567890 }
}

#[cfg(not(feature = "cex"))]
pub fn any_stack<T: Fill>() -> Stack<T> {
    Stack { inner: any(), len: depth(), canary: any() }
}
/// Counterexample-search mode: only the cells next to the top are symbolic.
#[cfg(feature = "cex")]
pub fn any_stack<T: Fill>() -> Stack<T> {
    let mut st = Stack { inner: [T::canary(); 256], len: depth(), canary: T::canary() };
    let mut i = 6u8;
    while i > 0 {
        st.inner[st.len.wrapping_sub(i) as usize] = any();
        i -= 1;
    }
    st
}

/// `abort_with` by contract: the data, float and control stacks are emptied and
/// the error is set (verified on the real code in C15).
macro_rules! abort_by_contract {
    () => {
        fn abort_with(&mut self, e: Exception) {
            self.rec.aborts += 1;
            self.s.len = 0;
            self.f.len = 0;
            self.c.len = 0;
            self.last_error = Some(e);
        }
    };
}

define_vm!(Raw, {});
/// the real `abort_with`, with `clear_stacks` by contract (verified in C15)
define_vm!(Avm, {
    fn clear_stacks(&mut self) {
        self.s.len = 0;
        self.f.len = 0;
        self.c.len = 0;
    }
});
define_vm!(Kvm, {
    fn abort_with(&mut self, e: Exception) {
        self.rec.aborts += 1;
        self.s.len = 0;
        self.f.len = 0;
        self.c.len = 0;
        self.last_error = Some(e);
    }
});
/// additionally `execute_word` only records the token it was given
define_vm!(Xvm, {
    fn abort_with(&mut self, e: Exception) {
        self.rec.aborts += 1;
        self.s.len = 0;
        self.f.len = 0;
        self.c.len = 0;
        self.last_error = Some(e);
    }
    fn execute_word(&mut self, i: usize) {
        let k = self.rec.execs;
        self.rec.xt = i;
        if k < 3 {
            self.rec.xts[k] = i;
            self.rec.ips[k] = self.st.instruction_pointer;
            if self.rec.hop {
                self.st.instruction_pointer = self.rec.next[k];
            }
        }
        self.rec.execs = k + 1;
    }
});
// `compile_integer` and `compile_float` by contract (proved in C09)
define_vm!(Nvm, {
    fn abort_with(&mut self, e: Exception) {
        self.rec.aborts += 1;
        self.s.len = 0;
        self.f.len = 0;
        self.c.len = 0;
        self.last_error = Some(e);
    }
    fn compile_integer(&mut self, i: isize) {
        self.rec.execs += 1;
        self.rec.xt = i as usize;
    }
    fn compile_float(&mut self, x: f64) {
        self.rec.execs += 1;
        self.rec.xt = x.to_bits() as usize;
    }
});
// the name parsed is the token, and no word of that name exists (`parse_word`
// is verified in C13, `find` by the dictionary unit)
define_vm!(Dvm, {
    fn abort_with(&mut self, e: Exception) {
        self.rec.aborts += 1;
        self.s.len = 0;
        self.f.len = 0;
        self.c.len = 0;
        self.last_error = Some(e);
    }
    fn parse_word(&mut self) {}
    fn find(&mut self, _name: &str) -> Option<usize> {
        if any() { Some(any()) } else { None }
    }
});
impl Dvm {
    pub fn any_cap_lean(cap: usize) -> Dvm {
        let mut v = Dvm::lean();
        v.ds = DataSpace::with_capacity(cap);
        v
    }
}
/// the answers of callees given by contract, and what was asked of them
pub struct Script {
    pub found: Option<usize>,
    pub int_ok: bool,
    pub float_ok: bool,
    pub log: [u8; 20],
    pub n: usize,
    pub toks: usize,
    /// per token: error after the token, after run, after check; compiling after
    pub err: [[bool; 3]; 4],
    pub compiling: [bool; 4],
}
pub static mut SCRIPT: Script = Script { found: None, int_ok: false, float_ok: false, log: [0; 20], n: 0, toks: 0, err: [[false; 3]; 4], compiling: [false; 4] };
pub fn ev(k: u8) {
    unsafe {
        if SCRIPT.n < 20 {
            SCRIPT.log[SCRIPT.n] = k;
        }
        SCRIPT.n += 1;
    }
}
// the text interpreter's callees by contract: `find` and `parse_word` (Verus),
// the literals (C10, C23), `execute_word` and `compile_integer` (C09)
define_vm!(Ivm, {
    fn abort_with(&mut self, e: Exception) {
        self.rec.aborts += 1;
        self.s.len = 0;
        self.f.len = 0;
        self.c.len = 0;
        self.last_error = Some(e);
    }
    fn parse_word(&mut self) { ev(1) }
    fn find(&mut self, _name: &str) -> Option<usize> { ev(2); unsafe { SCRIPT.found } }
    fn evaluate_integer(&mut self, _token: &str) {
        ev(3);
        if unsafe { !SCRIPT.int_ok } { self.last_error = Some(INVALID_NUMERIC_ARGUMENT) }
    }
    fn evaluate_float(&mut self, _token: &str) {
        ev(4);
        if unsafe { !SCRIPT.float_ok } { self.last_error = Some(UNSUPPORTED_OPERATION) }
    }
    fn execute_word(&mut self, i: usize) {
        ev(5);
        self.rec.execs += 1;
        self.rec.xt = i;
    }
    fn compile_integer(&mut self, i: isize) {
        ev(6);
        self.rec.xt = i as usize;
    }
    fn compile_word(&mut self, i: usize) {
        ev(7);
        self.rec.next[0] = i;
    }
});
// `define` by contract (proved in C11, C13): a missing name is one error and
// defines nothing; otherwise one word is added, the latest, whose data field
// is at the (aligned) data-space pointer
#[cfg(rtforth_verif)]
define_vm!(Fvm, {
    fn abort_with(&mut self, e: Exception) {
        self.rec.aborts += 1;
        self.s.len = 0;
        self.f.len = 0;
        self.c.len = 0;
        self.last_error = Some(e);
    }
    fn define(&mut self, action: fn(&mut Self), compilation: fn(&mut Self, usize)) {
        ev(1);
        if unsafe { SCRIPT.found.is_some() } {
            let here = self.ds.here();
            let n = self.wl.len();
            rtforth::verif::push_word(&mut self.wl, Word::new(action, compilation, here.wrapping_sub(16), here));
            let (b, _) = rtforth::verif::wordlist_parts(&self.wl);
            rtforth::verif::set_wordlist_parts(&mut self.wl, b, n);
        } else {
            self.abort_with(UNEXPECTED_END_OF_FILE)
        }
    }
});
// the callees of `evaluate_input` by contract
define_vm!(Evm, {
    fn parse_word(&mut self) {
        ev(1);
        unsafe {
            let t = if SCRIPT.toks == 0 { String::new() } else { String::from("w") };
            if SCRIPT.toks > 0 { SCRIPT.toks -= 1; }
            self.tkn = Some(t);
        }
    }
    fn interpret_token(&mut self) {
        ev(2);
        unsafe {
            self.st.is_compiling = SCRIPT.compiling[SCRIPT.toks];
            if SCRIPT.err[SCRIPT.toks][0] { self.last_error = Some(ABORT) }
        }
    }
    fn compile_token(&mut self) {
        ev(3);
        unsafe {
            self.st.is_compiling = SCRIPT.compiling[SCRIPT.toks];
            if SCRIPT.err[SCRIPT.toks][0] { self.last_error = Some(ABORT) }
        }
    }
    fn run(&mut self) {
        ev(4);
        unsafe { if SCRIPT.err[SCRIPT.toks][1] { self.last_error = Some(ABORT) } }
    }
    fn check_stacks(&mut self) {
        ev(5);
        unsafe { if SCRIPT.err[SCRIPT.toks][2] { self.last_error = Some(ABORT) } }
    }
});
