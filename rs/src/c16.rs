//! C16: file words and input sources: identifiers, results and the operations
//! asked of the operating system (by contract: any result, recorded).
use crate::nd::*;
use crate::spec::*;
use crate::vm::*;
use crate::{check, contracts, cover};
use rtforth::core::*;
use rtforth::exception::*;
use rtforth::file_access::FileAccess;
use rtforth::loader::HasLoader;
use rtforth::memory::*;
use std::fs::File;
use std::io;
use std::os::fd::{AsRawFd, FromRawFd, RawFd};

/// what was asked of the operating system, and its answers
pub struct Os {
    n: usize,
    op: u8,
    fd: RawFd,
    addr: usize,
    len: u64,
    /// fails / value returned
    fails: bool,
    value: u64,
    closed: usize,
    flags: u32,
    /// answers are those given here (false: natively, those of the real system)
    known: bool,
}
static mut OS: Os = Os { n: 0, op: 0, fd: 0, addr: 0, len: 0, fails: false, value: 0, closed: 0, flags: 0, known: false };
#[cfg(kani)]
mod os {
    use super::*;
    pub fn ask(op: u8, fd: RawFd, addr: usize, len: u64) -> io::Result<u64> {
        unsafe {
            OS.n += 1;
            OS.op = op;
            OS.fd = fd;
            OS.addr = addr;
            OS.len = len;
            if OS.fails { Err(io::Error::from_raw_os_error(5)) } else { Ok(OS.value) }
        }
    }
    pub fn metadata(f: &File) -> io::Result<std::fs::Metadata> {
        ask(1, f.as_raw_fd(), 0, 0).map(|_| unsafe { std::mem::zeroed() })
    }
    pub fn meta_len(_m: &std::fs::Metadata) -> u64 {
        unsafe { OS.value }
    }
    pub fn seek(f: &mut File, p: io::SeekFrom) -> io::Result<u64> {
        match p {
            io::SeekFrom::Start(n) => ask(2, f.as_raw_fd(), 0, n),
            io::SeekFrom::Current(n) => ask(3, f.as_raw_fd(), 0, n as u64),
            io::SeekFrom::End(n) => ask(4, f.as_raw_fd(), 0, n as u64),
        }
    }
    pub fn read(f: &mut File, b: &mut [u8]) -> io::Result<usize> {
        ask(5, f.as_raw_fd(), b.as_ptr() as usize, b.len() as u64).map(|n| n as usize)
    }
    pub fn write(f: &mut File, b: &[u8]) -> io::Result<usize> {
        ask(6, f.as_raw_fd(), b.as_ptr() as usize, b.len() as u64).map(|_| b.len())
    }
    pub fn set_len(f: &File, n: u64) -> io::Result<()> {
        ask(7, f.as_raw_fd(), 0, n).map(|_| ())
    }
    pub fn flag_read(o: &mut std::fs::OpenOptions, y: bool) -> &mut std::fs::OpenOptions { flag(o, 1, y) }
    pub fn flag_write(o: &mut std::fs::OpenOptions, y: bool) -> &mut std::fs::OpenOptions { flag(o, 2, y) }
    pub fn flag_truncate(o: &mut std::fs::OpenOptions, y: bool) -> &mut std::fs::OpenOptions { flag(o, 4, y) }
    pub fn flag_create(o: &mut std::fs::OpenOptions, y: bool) -> &mut std::fs::OpenOptions { flag(o, 8, y) }
    pub fn flag_append(o: &mut std::fs::OpenOptions, y: bool) -> &mut std::fs::OpenOptions { flag(o, 16, y) }
    pub fn flag_create_new(o: &mut std::fs::OpenOptions, y: bool) -> &mut std::fs::OpenOptions { flag(o, 32, y) }
    fn flag(o: &mut std::fs::OpenOptions, b: u32, y: bool) -> &mut std::fs::OpenOptions {
        unsafe { if y { OS.flags |= b } else { OS.flags &= !b } }
        o
    }
    pub fn open<P: AsRef<std::path::Path>>(_o: &std::fs::OpenOptions, p: P) -> io::Result<File> {
        let b = p.as_ref().as_os_str().as_encoded_bytes();
        ask(8, 99, b.as_ptr() as usize, b.len() as u64).map(|_| file(200))
    }
    pub fn remove_file<P: AsRef<std::path::Path>>(p: P) -> io::Result<()> {
        let b = p.as_ref().as_os_str().as_encoded_bytes();
        ask(9, 99, b.as_ptr() as usize, b.len() as u64).map(|_| ())
    }
    pub fn close(_f: &mut std::os::fd::OwnedFd) {
        unsafe { OS.closed += 1 }
    }
}
#[cfg(kani)]
use os::*;
#[cfg(kani)]
fn file(fd: RawFd) -> File {
    unsafe { File::from_raw_fd(fd) }
}
#[cfg(not(kani))]
fn file(_fd: RawFd) -> File {
    File::options().read(true).write(true).open("/dev/null").unwrap()
}
/// two entries, open or not; arbitrary answers of the system
fn files() -> (Kvm, [bool; 2]) {
    let mut v = Kvm::lean();
    // operands above others
    v.files = Vec::with_capacity(3);
    let mut i = 0;
    while i < 4 {
        v.s.push(any());
        i += 1;
    }
    let open: [bool; 2] = [any(), any()];
    let mut i = 0;
    while i < 2 {
        v.files.push(if open[i] { Some(file(100 + i as RawFd)) } else { None });
        i += 1;
    }
    unsafe {
        OS.n = 0;
        OS.closed = 0;
        OS.flags = 0;
        OS.known = cfg!(kani);
        OS.fails = any();
        OS.value = any();
    }
    (v, open)
}
/// operand as file id: natively mostly near the valid ones
fn id(v: &mut Kvm) -> isize {
    let x: isize = any();
    #[cfg(not(kani))]
    let x = if any::<u8>() % 4 == 0 { x } else { x.rem_euclid(5) - 1 };
    poke(v, 0, x);
    x
}
fn valid(id: isize, open: [bool; 2]) -> bool {
    (id == 1 && open[0]) || (id == 2 && open[1])
}
fn fd_is(v: &Kvm, i: usize, open: bool) -> bool {
    match v.files[i] {
        Some(ref f) => open && (f.as_raw_fd() == 100 + i as RawFd || !cfg!(kani)),
        None => !open,
    }
}
fn table(v: &Kvm, open: [bool; 2]) {
    check!(v.files.len() == 2 && fd_is(v, 0, open[0]) && fd_is(v, 1, open[1]), "the table of files is as before");
    check!(unsafe { OS.closed } == 0, "no file is closed");
}
/// the system was asked exactly this, once
fn asked(op: u8, id: isize, addr: usize, len: u64) -> bool {
    unsafe { !OS.known || (OS.n == 1 && OS.op == op && OS.fd == 99 + id as RawFd && OS.addr == addr && OS.len == len) }
}
fn not_asked() -> bool {
    unsafe { OS.n == 0 }
}
const BAD: isize = -1;

contracts! {
    #[kani::unwind(9)]
    #[kani::stub(std::fs::File::metadata, metadata)]
    #[kani::stub(std::fs::Metadata::len, meta_len)]
    fn file_size() { size_position(true) }
    #[kani::unwind(9)]
    #[kani::stub(<std::fs::File as std::io::Seek>::seek, seek)]
    fn file_position() { size_position(false) }
    /// CLOSE-FILE closes exactly that file
    #[kani::unwind(9)]
    #[kani::stub(<std::os::fd::OwnedFd as std::ops::Drop>::drop, close)]
    fn close_file() {
        let (mut v, open) = files();
        let x = id(&mut v);
        let a = v.snap();
        v.close_file();
        let b = v.snap();
        if valid(x, open) {
            cover!(true, "close");
            let still = [open[0] && x != 1, open[1] && x != 2];
            check!(v.files.len() == 2 && fd_is(&v, 0, still[0]) && fd_is(&v, 1, still[1]), "exactly that file is no longer open");
            check!(unsafe { OS.closed == 1 || !OS.known }, "it is closed, once");
            stack_s(&a, &b, 1, [0]);
        } else {
            cover!(true, "invalid");
            table(&v, open);
            stack_s(&a, &b, 1, [INVALID_NUMERIC_ARGUMENT.into()]);
        }
        frame(&a, &b, May { s: true, ..NONE });
        std::mem::forget(v);
    }
    #[kani::unwind(9)]
    #[kani::stub(<std::fs::File as std::io::Read>::read, read)]
    #[kani::stub(<std::os::fd::OwnedFd as std::ops::Drop>::drop, close)]
    fn read_file() { transfer(true) }
    #[kani::unwind(9)]
    #[kani::stub(<std::fs::File as std::io::Write>::write, write)]
    #[kani::stub(<std::os::fd::OwnedFd as std::ops::Drop>::drop, close)]
    fn write_file() { transfer(false) }
    #[kani::unwind(9)]
    #[kani::stub(std::fs::File::set_len, set_len)]
    #[kani::stub(<std::os::fd::OwnedFd as std::ops::Drop>::drop, close)]
    fn resize_file() { resize_reposition(true) }
    #[kani::unwind(9)]
    #[kani::stub(<std::fs::File as std::io::Seek>::seek, seek)]
    #[kani::stub(<std::os::fd::OwnedFd as std::ops::Drop>::drop, close)]
    fn reposition_file() { resize_reposition(false) }
    #[kani::unwind(9)]
    #[kani::stub(std::fs::OpenOptions::open, open)]
    #[kani::stub(std::fs::OpenOptions::read, flag_read)]
    #[kani::stub(std::fs::OpenOptions::write, flag_write)]
    #[kani::stub(std::fs::OpenOptions::truncate, flag_truncate)]
    #[kani::stub(std::fs::OpenOptions::create, flag_create)]
    #[kani::stub(std::fs::OpenOptions::append, flag_append)]
    #[kani::stub(std::fs::OpenOptions::create_new, flag_create_new)]
    #[kani::stub(<std::os::fd::OwnedFd as std::ops::Drop>::drop, close)]
    fn open_file() { open_create(false) }
    #[kani::unwind(9)]
    #[kani::stub(std::fs::OpenOptions::open, open)]
    #[kani::stub(std::fs::OpenOptions::read, flag_read)]
    #[kani::stub(std::fs::OpenOptions::write, flag_write)]
    #[kani::stub(std::fs::OpenOptions::truncate, flag_truncate)]
    #[kani::stub(std::fs::OpenOptions::create, flag_create)]
    #[kani::stub(std::fs::OpenOptions::append, flag_append)]
    #[kani::stub(std::fs::OpenOptions::create_new, flag_create_new)]
    #[kani::stub(<std::os::fd::OwnedFd as std::ops::Drop>::drop, close)]
    fn create_file() { open_create(true) }
    #[kani::unwind(9)]
    #[kani::stub(std::fs::remove_file, remove_file)]
    fn delete_file() {
        let (mut v, open) = files();
        let m = mem(&mut v.ds);
        let (off, u) = name(&mut v, 1);
        let a = v.snap();
        v.delete_file();
        let b = v.snap();
        table(&v, open);
        if u > 256 {
            cover!(true, "too long");
            check!(not_asked(), "nothing is asked");
            stack_s(&a, &b, 2, [INVALID_NUMERIC_ARGUMENT.into()]);
        } else if off + u > CAP {
            cover!(true, "outside");
            check!(not_asked(), "nothing is asked");
            stack_s(&a, &b, 2, [INVALID_MEMORY_ADDRESS.into()]);
        } else {
            cover!(true, "delete");
            check!(asked(9, 0, v.ds.start() + off, u as u64), "exactly the named file is deleted");
            if unsafe { OS.known } {
                stack_s(&a, &b, 2, [if unsafe { OS.fails } { FILE_IO_EXCEPTION.into() } else { 0 }]);
            }
        }
        mem_frame(&m, &v.ds, 0, 0);
        frame(&a, &b, May { s: true, ..NONE });
        std::mem::forget(v);
    }
    /// no word about sources accepts an identifier of no source
    #[kani::unwind(9)]
    fn close_source_ids() { source_ids(0) }
    #[kani::unwind(9)]
    fn set_source_ids() { source_ids(1) }
    #[kani::unwind(9)]
    fn load_line_ids() {
        let mut v = Kvm::lean();
        v.s.push(any());
        v.s.push(any());
        let a = v.snap();
        v.p_load_line();
        let b = v.snap();
        cover!(true, "pre");
        aborted(&a, &b, INVALID_NUMERIC_ARGUMENT, NONE);
        std::mem::forget(v);
    }
    /// a closed source has no lines
    #[kani::unwind(9)]
    fn load_line_closed() {
        let mut v = Kvm::lean();
        v.sources = Vec::with_capacity(1);
        v.lines = Vec::with_capacity(1);
        v.sources.push(None);
        v.lines.push(Some(String::new()));
        v.s.push(any());
        v.s.push(1);
        let a = v.snap();
        v.p_load_line();
        let b = v.snap();
        cover!(true, "pre");
        aborted(&a, &b, INVALID_NUMERIC_ARGUMENT, NONE);
        check!(v.sources.len() == 1 && v.sources[0].is_none() && v.lines[0].is_some(), "no source appears");
        std::mem::forget(v);
    }
    #[kani::unwind(9)]
    fn source_path_ids() { source_ids(3) }
    /// an invalid file or source identifier, from any machine state
    #[kani::solver(z3)]
    #[kani::unwind(9)]
    fn no_files() {
        let mut v = Kvm::any();
        let k: u8 = any();
        let a = v.snap();
        let (p, q) = match k % 7 {
            0 => { v.file_size(); (1, 3) }
            1 => { v.file_position(); (1, 3) }
            2 => { v.close_file(); (1, 1) }
            3 => { v.read_file(); (3, 2) }
            4 => { v.write_file(); (3, 1) }
            5 => { v.resize_file(); (3, 1) }
            _ => { v.reposition_file(); (3, 1) }
        };
        let b = v.snap();
        cover!(true, "pre");
        check!(b.sl == a.sl.wrapping_sub(p).wrapping_add(q), "net effect");
        if legal(a.sl, p as usize, q as usize) {
            check!(top(&b.s, b.sl, 0) == INVALID_NUMERIC_ARGUMENT.into(), "the identifier is reported as invalid");
            each(a.sl as usize - p as usize, |j| check!(a.s[j] == b.s[j], "items below the operands"));
        }
        frame(&a, &b, May { s: true, ..NONE });
        std::mem::forget(v);
    }
}
fn source_ids(k: u8) {
    let mut v = Kvm::lean();
    v.sources = Vec::with_capacity(2);
    v.lines = Vec::with_capacity(2);
    let mut i = 0;
    while i < 2 {
        v.sources.push(None);
        v.lines.push(if any() { Some(String::new()) } else { None });
        i += 1;
    }
    v.s.push(any());
    v.s.push(any());
    let x = id(&mut v);
    let a = v.snap();
    match k {
        0 => v.close_source(),
        1 => v.p_set_source_id(),
        _ => v.dot_source_path(),
    }
    let b = v.snap();
    cover!(true, "pre");
    check!(v.sources.len() == 2 && v.sources[0].is_none() && v.sources[1].is_none() && v.lines.len() == 2, "no source appears");
    if k == 1 && x == 0 {
        check!(b.sid == 0, "the terminal is always a source");
        stack_s(&a, &b, 1, []);
        frame(&a, &b, May { s: true, input: true, ..NONE });
    } else {
        aborted(&a, &b, INVALID_NUMERIC_ARGUMENT, NONE);
    }
    std::mem::forget(v);
}
/// FILE-SIZE FILE-POSITION
fn size_position(size: bool) {
    let (mut v, open) = files();
    let x = id(&mut v);
    let a = v.snap();
    if size { v.file_size() } else { v.file_position() }
    let b = v.snap();
    table(&v, open);
    let (n, fails) = unsafe { (OS.value, OS.fails) };
    if valid(x, open) {
        cover!(true, "valid");
        check!(asked(if size { 1 } else { 3 }, x, 0, 0), "the system is asked about that file");
        if unsafe { OS.known } {
            if fails { stack_s(&a, &b, 1, [BAD, BAD, FILE_IO_EXCEPTION.into()]) }
            else if n > isize::max_value() as u64 { stack_s(&a, &b, 1, [BAD, BAD, RESULT_OUT_OF_RANGE.into()]) }
            else { stack_s(&a, &b, 1, [n as isize, 0, 0]) }
        }
    } else {
        cover!(true, "invalid");
        check!(not_asked(), "nothing is asked");
        stack_s(&a, &b, 1, [BAD, BAD, INVALID_NUMERIC_ARGUMENT.into()]);
    }
    frame(&a, &b, May { s: true, ..NONE });
    std::mem::forget(v);
}
#[cfg(kani)]
fn mem(ds: &mut DataSpace) -> Mem {
    any_mem(ds)
}
/// natively never the name of a file
#[cfg(not(kani))]
fn mem(ds: &mut DataSpace) -> Mem {
    unsafe { std::ptr::write_bytes(ds.inner, 0, CAP) };
    [0; CAP]
}
/// c-addr u as operands `k+1` and `k`: offset in the data space and length
fn name(v: &mut Kvm, k: u8) -> (usize, usize) {
    let (mut off, mut u): (usize, usize) = (any(), any());
    #[cfg(not(kani))]
    {
        off %= CAP + 1;
        u = match any::<u8>() % 3 { 0 => u, 1 => u % 300, _ => u % (CAP - off + 1) };
    }
    assume(off <= CAP && u <= isize::max_value() as usize);
    let a = (v.ds.start() + off) as isize;
    poke(v, k, a);
    poke(v, k - 1, u as isize);
    (off, u)
}
/// READ-FILE WRITE-FILE
fn transfer(reading: bool) {
    let (mut v, open) = files();
    let (off, u) = name(&mut v, 2);
    let x = id(&mut v);
    // the system reads at most what was asked
    assume(!reading || unsafe { OS.value } <= u as u64 || !cfg!(kani));
    let a = v.snap();
    if reading { v.read_file() } else { v.write_file() }
    let b = v.snap();
    table(&v, open);
    let bad = |e: isize| if reading { stack_s(&a, &b, 3, [0, e]) } else { stack_s(&a, &b, 3, [e]) };
    if !valid(x, open) {
        cover!(true, "invalid");
        check!(not_asked(), "nothing is asked");
        bad(INVALID_NUMERIC_ARGUMENT.into());
    } else if off + u > CAP {
        cover!(true, "outside");
        check!(not_asked(), "nothing is asked");
        bad(INVALID_MEMORY_ADDRESS.into());
    } else if !reading && u == 0 {
        cover!(true, "nothing");
        stack_s(&a, &b, 3, [0]);
    } else {
        cover!(true, "valid");
        check!(asked(if reading { 5 } else { 6 }, x, v.ds.start() + off, u as u64), "exactly that range and that file");
        if unsafe { OS.known } {
            if unsafe { OS.fails } { bad(FILE_IO_EXCEPTION.into()) }
            else if reading { stack_s(&a, &b, 3, [unsafe { OS.value } as isize, 0]) }
            else { stack_s(&a, &b, 3, [0]) }
        }
    }
    frame(&a, &b, May { s: true, ..NONE });
    std::mem::forget(v);
}
/// RESIZE-FILE REPOSITION-FILE
fn resize_reposition(size: bool) {
    let (mut v, open) = files();
    let (lo, hi): (isize, isize) = (any(), if any() { 0 } else { any() });
    poke(&mut v, 2, lo);
    poke(&mut v, 1, hi);
    let x = id(&mut v);
    let a = v.snap();
    if size { v.resize_file() } else { v.reposition_file() }
    let b = v.snap();
    table(&v, open);
    if !valid(x, open) || hi != 0 || lo < 0 {
        cover!(true, "invalid");
        check!(not_asked(), "nothing is asked");
        stack_s(&a, &b, 3, [INVALID_NUMERIC_ARGUMENT.into()]);
    } else {
        cover!(true, "valid");
        check!(asked(if size { 7 } else { 2 }, x, 0, lo as u64), "exactly that size or position and that file");
        if unsafe { OS.known } {
            stack_s(&a, &b, 3, [if unsafe { OS.fails } { FILE_IO_EXCEPTION.into() } else { 0 }]);
        }
    }
    frame(&a, &b, May { s: true, ..NONE });
    std::mem::forget(v);
}
/// OPEN-FILE CREATE-FILE
fn open_create(creating: bool) {
    let (mut v, open) = files();
    let m = mem(&mut v.ds);
    let (off, u) = name(&mut v, 2);
    let fam: isize = any();
    #[cfg(not(kani))]
    let fam = fam.rem_euclid(5) - 1;
    poke(&mut v, 0, fam);
    let a = v.snap();
    if creating { v.create_file() } else { v.open_file() }
    let b = v.snap();
    let ok = fam == 1 || fam == 2 || (fam == 0 && !creating);
    if u > 256 || !ok || off + u > CAP {
        cover!(true, "refused");
        check!(not_asked(), "nothing is asked");
        table(&v, open);
        stack_s(&a, &b, 3, [BAD, if u > 256 || !ok { INVALID_NUMERIC_ARGUMENT.into() } else { INVALID_MEMORY_ADDRESS.into() }]);
    } else {
        cover!(true, "asked");
        check!(asked(8, 0, v.ds.start() + off, u as u64), "exactly the named file");
        if unsafe { OS.known } {
            let mode = if fam == 0 { 1 } else if fam == 1 { 2 } else { 3 };
            check!(unsafe { OS.flags } == mode | if creating { 12 } else { 0 }, "with the access asked for");
            if unsafe { OS.fails } {
                table(&v, open);
                stack_s(&a, &b, 3, [BAD, FILE_IO_EXCEPTION.into()]);
            } else {
                // the first free entry, or a new one
                let k = if !open[0] { 0 } else if !open[1] { 1 } else { 2 };
                stack_s(&a, &b, 3, [k as isize + 1, 0]);
                check!(v.files.len() == if k == 2 { 3 } else { 2 }, "at most one new entry");
                check!(matches!(v.files[k], Some(ref f) if f.as_raw_fd() == 200), "it identifies the file opened");
                check!(k == 0 || fd_is(&v, 0, open[0]), "other files stay open");
                check!(k == 1 || fd_is(&v, 1, open[1]), "other files stay open");
            }
        }
        check!(unsafe { OS.closed } == 0, "no file is closed");
    }
    mem_frame(&m, &v.ds, 0, 0);
    frame(&a, &b, May { s: true, ..NONE });
    std::mem::forget(v);
}
crate::closed! {
    fn bindings() {
        crate::bind::check_bindings(&[
            ("file-size", Kvm::file_size, 0), ("file-position", Kvm::file_position, 0), ("close-file", Kvm::close_file, 0),
            ("create-file", Kvm::create_file, 0), ("delete-file", Kvm::delete_file, 0), ("open-file", Kvm::open_file, 0),
            ("read-file", Kvm::read_file, 0), ("write-file", Kvm::write_file, 0), ("resize-file", Kvm::resize_file, 0),
            ("reposition-file", Kvm::reposition_file, 0), ("open-source", Kvm::open_source, 0), ("close-source", Kvm::close_source, 0),
            ("load-line", Kvm::p_load_line, 0), (".source-path", Kvm::dot_source_path, 0), (".source-line", Kvm::dot_source_line, 0),
            ("source-id", Kvm::p_source_id, 0), ("source-id!", Kvm::p_set_source_id, 0),
        ]);
    }
    /// random histories of file words on real files in a scratch directory,
    /// against a model of files, positions and identifiers
    fn histories_bounded() {
        use std::cell::RefCell;
        use std::rc::Rc;
        type Inode = Rc<RefCell<Vec<u8>>>;
        struct Open { ino: Inode, pos: usize, fam: isize }
        struct Scratch(std::path::PathBuf);
        impl Drop for Scratch { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }
        let dir = Scratch(std::env::temp_dir().join(format!("rtforth-verif-{}", std::process::id())));
        let _ = std::fs::remove_dir_all(&dir.0);
        std::fs::create_dir_all(&dir.0).unwrap();
        for _ in 0..6 {
            let mut v = Kvm::lean();
            v.ds = DataSpace::with_capacity(1 << 13);
            v.s.len = 0;
            v.out = Some(String::new());
            v.st.source_id = 0;
            v.last_error = None;
            let (pn, pb) = (v.ds.start() + 100, v.ds.start() + 1000);
            let mut names: Vec<Option<Inode>> = vec![None; 4];
            for i in 0..4 { let _ = std::fs::remove_file(dir.0.join(format!("f{}", i))); }
            let mut open: Vec<Option<Open>> = Vec::new();
            let mut srcs: Vec<bool> = Vec::new();
            for _ in 0..120 {
                let k = any::<u8>() as usize % 4;
                let path = dir.0.join(format!("f{}", k)).to_str().unwrap().to_string();
                for (i, c) in path.bytes().enumerate() { unsafe { v.ds.put_u8(c, pn + i) } }
                let fid = any::<u8>() as usize % (open.len() + 2);
                let ok = fid >= 1 && fid <= open.len() && open[fid - 1].is_some();
                let fam = (any::<u8>() % 3) as isize;
                let inv: isize = INVALID_NUMERIC_ARGUMENT.into();
                let io: isize = FILE_IO_EXCEPTION.into();
                let n = any::<u8>() as usize % 40;
                let op = any::<u8>() % 12;
                let mut want: Vec<isize> = Vec::new();
                match op {
                    0 | 1 => {
                        let create = op == 0;
                        for x in [pn as isize, path.len() as isize, fam] { v.s.push(x) }
                        if create { v.create_file() } else { v.open_file() }
                        let ino = if create {
                            if fam == 0 { Err(inv) } else {
                                let i = names[k].get_or_insert_with(|| Rc::new(RefCell::new(Vec::new()))).clone();
                                i.borrow_mut().clear();
                                Ok(i)
                            }
                        } else { names[k].clone().ok_or(io) };
                        match ino {
                            Err(e) => want = vec![-1, e],
                            Ok(ino) => {
                                hit("open");
                                let o = Some(Open { ino, pos: 0, fam });
                                let at = match open.iter().position(|x| x.is_none()) {
                                    Some(p) => { open[p] = o; p }
                                    None => { open.push(o); open.len() - 1 }
                                };
                                want = vec![at as isize + 1, 0];
                            }
                        }
                    }
                    2 => {
                        for x in [pn as isize, path.len() as isize] { v.s.push(x) }
                        v.delete_file();
                        want = vec![if names[k].take().is_some() { 0 } else { io }];
                    }
                    3 | 4 => {
                        let d: Vec<u8> = (0..n).map(|_| match any::<u8>() % 9 { 0 | 1 => 10, 2 => 13, c => b'a' + c }).collect();
                        for (i, c) in d.iter().enumerate() { unsafe { v.ds.put_u8(*c, pb + i) } }
                        for x in [pb as isize, n as isize, fid as isize] { v.s.push(x) }
                        v.write_file();
                        want = if !ok { vec![inv] } else {
                            let o = open[fid - 1].as_mut().unwrap();
                            if o.fam == 0 && n > 0 { vec![io] } else {
                                if n > 0 {
                                    hit("write");
                                    let mut f = o.ino.borrow_mut();
                                    if f.len() < o.pos + n { f.resize(o.pos + n, 0) }
                                    f[o.pos..o.pos + n].copy_from_slice(&d);
                                    o.pos += n;
                                }
                                vec![0]
                            }
                        };
                    }
                    5 => {
                        for i in 0..48 { unsafe { v.ds.put_u8(0xee, pb + i) } }
                        for x in [pb as isize, n as isize, fid as isize] { v.s.push(x) }
                        v.read_file();
                        let mut got: Vec<u8> = Vec::new();
                        want = if !ok { vec![0, inv] } else {
                            let o = open[fid - 1].as_mut().unwrap();
                            if o.fam == 1 { vec![0, io] } else {
                                hit("read");
                                let f = o.ino.borrow();
                                let m = n.min(f.len().saturating_sub(o.pos));
                                if m > 0 { got = f[o.pos..o.pos + m].to_vec(); }
                                o.pos += m;
                                vec![m as isize, 0]
                            }
                        };
                        for i in 0..48 {
                            let c = unsafe { v.ds.get_u8(pb + i) };
                            check!(c == if i < got.len() { got[i] } else { 0xee }, "exactly the characters read are stored");
                        }
                    }
                    6 | 7 => {
                        for x in [n as isize, 0, fid as isize] { v.s.push(x) }
                        if op == 6 { v.reposition_file() } else { v.resize_file() }
                        want = if !ok { vec![inv] } else {
                            let o = open[fid - 1].as_mut().unwrap();
                            if op == 6 { o.pos = n; vec![0] }
                            else if o.fam == 0 { vec![io] }
                            else { o.ino.borrow_mut().resize(n, 0); vec![0] }
                        };
                    }
                    8 => {
                        v.s.push(fid as isize);
                        v.close_file();
                        want = if ok { open[fid - 1] = None; vec![0] } else { vec![inv] };
                    }
                    9 | 10 => {
                        v.s.push(fid as isize);
                        if op == 9 { v.file_size() } else { v.file_position() }
                        want = if !ok { vec![-1, -1, inv] } else {
                            let o = open[fid - 1].as_ref().unwrap();
                            vec![if op == 9 { o.ino.borrow().len() } else { o.pos } as isize, 0, 0]
                        };
                    }
                    _ => {
                        // a source: its lines, and its identifier
                        for x in [pn as isize, path.len() as isize, fid as isize] { v.s.push(x) }
                        v.open_source();
                        if !ok {
                            check!(v.last_error == Some(INVALID_NUMERIC_ARGUMENT), "no such file");
                            v.last_error = None;
                        } else {
                            let o = open[fid - 1].take().unwrap();
                            let sid = match srcs.iter().position(|x| !*x) { Some(p) => p, None => { srcs.push(false); srcs.len() - 1 } };
                            srcs[sid] = true;
                            check!(v.s.len == 1 && v.s.pop() == sid as isize + 1, "the first free source identifier");
                            let f = o.ino.borrow();
                            let text = String::from_utf8(f[o.pos.min(f.len())..].to_vec());
                            if o.fam != 1 && text.is_ok() {
                                let text = text.unwrap();
                                let mut rest = &text[..];
                                loop {
                                    v.s.push(sid as isize + 1);
                                    v.p_load_line();
                                    let (line, eof) = match rest.find('\n') {
                                        Some(p) => { let l = &rest[..p]; rest = &rest[p + 1..]; (l.strip_suffix('\r').unwrap_or(l), false) }
                                        None => { let l = rest; rest = ""; (l, l.is_empty()) }
                                    };
                                    let flag = v.s.pop();
                                    let len = v.s.pop();
                                    check!(v.last_error.is_none() && v.s.len == 0, "the line is loaded");
                                    check!(flag == if eof { 0 } else { -1 }, "the end of the source is reported");
                                    check!(len == line.len() as isize, "the length of the line");
                                    check!(v.lines[sid].as_ref().map(|l| &l[..]) == Some(line), "the line without its end");
                                    hit("line");
                                    if eof { break }
                                }
                            }
                            v.out = Some(String::new());
                            v.s.push(sid as isize + 1);
                            v.dot_source_path();
                            check!(v.out.as_ref().unwrap() == &path, "the path of the source");
                            if any() {
                                v.s.push(sid as isize + 1);
                                v.p_set_source_id();
                                check!(v.st.source_id == sid as isize + 1 && v.last_error.is_none(), "it can be the input source");
                                v.s.push(sid as isize + 1);
                                v.close_source();
                                check!(v.last_error.is_some(), "the current source is not closed");
                                v.last_error = None;
                                v.st.source_id = 0;
                            }
                            if any() {
                                v.s.push(sid as isize + 1);
                                v.close_source();
                                check!(v.last_error.is_none(), "another source is closed");
                                srcs[sid] = false;
                            }
                        }
                        for i in 0..srcs.len() { check!(v.sources[i].is_some() == srcs[i], "exactly the sources opened and not closed exist"); }
                    }
                }
                let got: Vec<isize> = v.s.inner[..v.s.len as usize].to_vec();
                if got != want { panic!("CONTRACT file word {} id {} fam {} n {}: {:?}, not {:?}", op, fid, fam, n, got, want) }
                check!(v.last_error.is_none(), "no error");
                v.s.len = 0;
                check!(v.files.len() == open.len(), "the table of files");
                for i in 0..open.len() { check!(v.files[i].is_some() == open[i].is_some(), "exactly the files opened and not closed are open"); }
            }
            for (i, n) in names.iter().enumerate() {
                let real = std::fs::read(dir.0.join(format!("f{}", i))).ok();
                check!(real == n.as_ref().map(|x| x.borrow().clone()), "the contents of the files");
            }
            hit("history");
        }
    }
}
