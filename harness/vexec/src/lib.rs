//! Executor: runs a script of calls against the functions the library exports and records what they did.
//!
//! Functions are looked up by exported name at run time (dlsym) and called through the C ABI, exactly as
//! compiled structured text calls them; function blocks get raw memory in the layout the ST sources declare.
//! The executor decides nothing: every record goes to the TLA+ trace specifications.
extern crate iec61131std;

use std::ffi::{c_char, c_void, CStr, CString};
use std::fmt::Write as _;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

extern "C" {
    fn dlsym(handle: *mut c_void, name: *const c_char) -> *mut c_void;
}

type U = u64;
type F = f64;
// SysV AMD64: integers/pointers in six registers then the stack, floats in xmm registers; surplus
// arguments are ignored by the callee, so one signature per return class serves every function.
type IntFn = unsafe extern "C-unwind" fn(U, U, U, U, U, U, F, F, F, F, U, U, U, U) -> U;
type FltFn = unsafe extern "C-unwind" fn(U, U, U, U, U, U, F, F, F, F, U, U, U, U) -> F;
type FbFn = unsafe extern "C-unwind" fn(*mut u8);

const GUARD: usize = 64;

fn guard_byte(i: usize) -> u8 {
    0xC0 | ((i * 7 + 3) & 0x3F) as u8
}

/// Where the memory of an argument lies: among other memory (guard zones), right before an inaccessible page,
/// or right behind one.
#[derive(Clone, Copy, PartialEq)]
enum Place {
    Among,
    BeforeWall,
    BehindWall,
}

const PAGE: usize = 4096;
const SLOT: usize = 4; // accessible pages of a slot

/// Accessible pages between two inaccessible ones.
struct Slot(*mut u8);

thread_local! {
    static FREE: std::cell::RefCell<Vec<Slot>> = const { std::cell::RefCell::new(vec![]) };
}

impl Slot {
    fn take() -> Slot {
        extern "C" {
            fn mmap(a: *mut c_void, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut c_void;
            fn mprotect(a: *mut c_void, n: usize, prot: i32) -> i32;
        }
        FREE.with(|f| f.borrow_mut().pop()).unwrap_or_else(|| unsafe {
            // PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS; then PROT_READ | PROT_WRITE inside
            let p = mmap(std::ptr::null_mut(), (SLOT + 2) * PAGE, 0, 0x22, -1, 0) as *mut u8;
            assert!(p as isize != -1, "mmap");
            assert!(mprotect(p.add(PAGE) as *mut c_void, SLOT * PAGE, 3) == 0, "mprotect");
            Slot(p.add(PAGE))
        })
    }
}

/// A buffer surrounded by guard zones, or by an inaccessible page on one side and a guard zone on the other.
struct Buf {
    mem: Vec<u64>,
    slot: Option<Slot>,
    start: usize,
    init: Vec<u8>,
    out: bool,
}

impl Drop for Buf {
    fn drop(&mut self) {
        if let Some(s) = self.slot.take() {
            FREE.with(|f| f.borrow_mut().push(s));
        }
    }
}

impl Buf {
    fn new(content: &[u8], out: bool, place: Place) -> Buf {
        let n = content.len();
        let mut b = Buf { mem: vec![], slot: None, start: GUARD, init: content.to_vec(), out };
        if place == Place::Among {
            b.mem = vec![0u64; (GUARD * 2 + n + 8) / 8 + 1];
        } else {
            assert!(n <= SLOT * PAGE, "argument too large");
            b.slot = Some(Slot::take());
            b.start = if place == Place::BeforeWall { SLOT * PAGE - n } else { 0 };
        }
        let start = b.start;
        for (i, x) in b.bytes_mut().iter_mut().enumerate() {
            *x = guard_byte(i);
        }
        b.bytes_mut()[start..start + n].copy_from_slice(content);
        b
    }
    fn ptr(&mut self) -> *mut u8 {
        let start = self.start;
        unsafe { self.bytes_mut().as_mut_ptr().add(start) }
    }
    fn bytes(&self) -> &[u8] {
        match &self.slot {
            Some(s) => unsafe { std::slice::from_raw_parts(s.0, SLOT * PAGE) },
            None => unsafe { std::slice::from_raw_parts(self.mem.as_ptr() as *const u8, self.mem.len() * 8) },
        }
    }
    fn bytes_mut(&mut self) -> &mut [u8] {
        match &mut self.slot {
            Some(s) => unsafe { std::slice::from_raw_parts_mut(s.0, SLOT * PAGE) },
            None => unsafe { std::slice::from_raw_parts_mut(self.mem.as_mut_ptr() as *mut u8, self.mem.len() * 8) },
        }
    }
    fn content(&self) -> &[u8] {
        &self.bytes()[self.start..self.start + self.init.len()]
    }
    fn guards_ok(&self) -> bool {
        let inside = self.start..self.start + self.init.len();
        self.bytes().iter().enumerate().all(|(i, &b)| inside.contains(&i) || b == guard_byte(i))
    }
}

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).expect("hex")).collect()
}

fn hex(out: &mut String, b: &[u8]) {
    for x in b {
        write!(out, "{x:02x}").unwrap();
    }
}

fn sym(name: &str) -> *mut c_void {
    let c = CString::new(name).unwrap();
    unsafe { dlsym(std::ptr::null_mut(), c.as_ptr()) }
}

fn parse_int(s: &str) -> u64 {
    s.parse::<i64>().map(|v| v as u64).or_else(|_| s.parse::<u64>()).expect("int")
}

fn monotonic_ns() -> u64 {
    #[repr(C)]
    struct Ts(i64, i64);
    extern "C" {
        fn clock_gettime(id: i32, ts: *mut Ts) -> i32;
    }
    let mut t = Ts(0, 0);
    unsafe { clock_gettime(1, &mut t) };
    t.0 as u64 * 1_000_000_000 + t.1 as u64
}

struct Exec {
    arena: Buf,
    place: Place,
    out: std::io::BufWriter<std::fs::File>,
    rounds: usize,
    lines: Vec<String>,
    seen: std::collections::HashSet<String>,
}

impl Exec {
    fn new(out: &str) -> Exec {
        let file = std::fs::File::create(out).expect("out");
        Exec {
            arena: Buf::new(&[], true, Place::Among),
            place: Place::Among,
            out: std::io::BufWriter::new(file),
            rounds: 1,
            lines: vec![],
            seen: Default::default(),
        }
    }

    fn call(&mut self, t: &[&str]) -> String {
        // c id ret sym args...
        let (id, ret, name, args) = (t[1], t[2], t[3], &t[4..]);
        let mut line = format!("{id} ");
        let f = sym(name);
        if f.is_null() {
            line.push_str("nosym");
            return line;
        }
        let mut bufs: Vec<Buf> = vec![];
                let mut ints: Vec<u64> = vec![];
        let mut flts: Vec<f64> = vec![];
        for a in args {
            let (k, v) = a.split_at(1);
            match k {
                "i" => ints.push(parse_int(v)),
                "f" => flts.push(f64::from_bits(u32::from_str_radix(v, 16).expect("f") as u64)),
                "d" => flts.push(f64::from_bits(u64::from_str_radix(v, 16).expect("d"))),
                "n" => ints.push(0),
                "s" | "o" => {
                    bufs.push(Buf::new(&unhex(v), k == "o", self.place));
                    let p = bufs.last_mut().unwrap().ptr() as u64;
                    ints.push(p);
                }
                "v" => {
                    let mut ps = vec![];
                    if !v.is_empty() {
                        for s in v.split('|') {
                            bufs.push(Buf::new(&unhex(s), false, self.place));
                            ps.push(bufs.last_mut().unwrap().ptr() as u64);
                        }
                    }
                    if self.place == Place::Among {
                        ps.push(0x10); // a pointer that must never be followed
                    }
                    let list: Vec<u8> = ps.iter().flat_map(|p: &u64| p.to_le_bytes()).collect();
                    bufs.push(Buf::new(&list, false, self.place));
                    ints.push(bufs.last_mut().unwrap().ptr() as u64);
                }
                _ => panic!("arg kind {k}"),
            }
        }
        ints.resize(10, 0x5a5a_5a5a_5a5a_5a5a);
        flts.resize(4, 0.0);
        let (i, d) = (&ints, &flts);
        let r = catch_unwind(AssertUnwindSafe(|| unsafe {
            match ret {
                "f" | "d" => {
                    let g: FltFn = std::mem::transmute(f);
                    g(i[0], i[1], i[2], i[3], i[4], i[5], d[0], d[1], d[2], d[3], i[6], i[7], i[8], i[9]).to_bits()
                }
                _ => {
                    let g: IntFn = std::mem::transmute(f);
                    g(i[0], i[1], i[2], i[3], i[4], i[5], d[0], d[1], d[2], d[3], i[6], i[7], i[8], i[9])
                }
            }
        }));
        match r {
            Ok(v) => {
                let s = match ret {
                    "b" | "u8" => (v as u8).to_string(),
                    "u16" => (v as u16).to_string(),
                    "u32" => (v as u32).to_string(),
                    "u64" => v.to_string(),
                    "i8" => (v as i8).to_string(),
                    "i16" => (v as i16).to_string(),
                    "i32" => (v as i32).to_string(),
                    "i64" => (v as i64).to_string(),
                    "f" => format!("{:08x}", v as u32),
                    "d" => format!("{v:016x}"),
                    _ => "-".to_string(),
                };
                write!(line, "ok {s}").unwrap();
            }
            Err(_) => line.push_str("panic -"),
        }
        let guards = bufs.iter().all(Buf::guards_ok) as u8;
        let srcs = bufs.iter().all(|b| b.out || b.content() == b.init) as u8;
        write!(line, " {guards} {srcs}").unwrap();
        for b in bufs.iter().filter(|b| b.out) {
            line.push(' ');
            hex(&mut line, b.content());
        }
        line
    }

    fn call_fb(&mut self, t: &[&str]) -> String {
        // k id sym off len
        let (id, name) = (t[1], t[2]);
        let off: usize = t[3].parse().unwrap();
        let len: usize = t[4].parse().unwrap();
        let mut line = format!("{id} ");
        let f = sym(name);
        if f.is_null() {
            line.push_str("nosym");
            return line;
        }
        let before = self.arena.content().to_vec();
        let p = unsafe { self.arena.ptr().add(off) };
        let t0 = monotonic_ns();
        let r = catch_unwind(AssertUnwindSafe(|| unsafe {
            let g: FbFn = std::mem::transmute(f);
            g(p)
        }));
        let t1 = monotonic_ns();
        line.push_str(if r.is_ok() { "ok" } else { "panic" });
        let after = self.arena.content();
        let outside = before
            .iter()
            .zip(after)
            .enumerate()
            .all(|(i, (a, b))| (off..off + len).contains(&i) || a == b)
            && self.arena.guards_ok();
        // rounds are compared with each other, whenever they were run
        let (t0, t1) = if self.rounds > 1 { (0, 0) } else { (t0, t1) };
        write!(line, " {} {t0} {t1} ", outside as u8).unwrap();
        hex(&mut line, &after[off..off + len]);
        line
    }

    fn run(&mut self, script: &str) {
        let rd = std::io::BufReader::new(std::fs::File::open(script).expect("script"));
        for l in rd.lines() {
            let l = l.unwrap();
            if let Some(n) = l.strip_prefix("R ") {
                self.rounds = n.parse().unwrap();
                continue;
            }
            self.lines.push(l);
            if self.rounds == 1 {
                let l = self.lines.pop().unwrap();
                self.step(&l, false);
            }
        }
        // rounds of the whole script: what a call has already reported is not reported again
        let lines = std::mem::take(&mut self.lines);
        for _ in 0..if lines.is_empty() { 0 } else { self.rounds } {
            for l in &lines {
                self.step(l, true);
            }
        }
    }

    fn step(&mut self, l: &str, once: bool) {
        {
            let t: Vec<&str> = l.split(' ').collect();
            let line = match t[0] {
                "c" => self.call(&t),
                "k" => self.call_fb(&t),
                "A" => {
                    self.arena = Buf::new(&vec![0u8; t[1].parse().unwrap()], true, self.place);
                    return;
                }
                "P" => {
                    self.place = match t[1] {
                        "before" => Place::BeforeWall,
                        "behind" => Place::BehindWall,
                        _ => Place::Among,
                    };
                    return;
                }
                "w" => {
                    let b = unhex(t[2]);
                    let off: usize = t[1].parse().unwrap();
                    unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), self.arena.ptr().add(off), b.len()) };
                    return;
                }
                "m" => {
                    // within the arena: from, to, bytes
                    let n: Vec<usize> = t[1..4].iter().map(|x| x.parse().unwrap()).collect();
                    let p = self.arena.ptr();
                    unsafe { std::ptr::copy(p.add(n[0]), p.add(n[1]), n[2]) };
                    return;
                }
                "t" => {
                    set_timer_clock(t[1].parse().unwrap(), t[2].parse().unwrap());
                    return;
                }
                "l" => {
                    set_local_clock(t[1].parse().unwrap());
                    return;
                }
                "M" => {
                    // monotonic ns, wall-clock ns, ns added per clock read (needs the preloaded vclock)
                    let f = sym("vclock_set");
                    assert!(!f.is_null(), "no vclock");
                    unsafe {
                        let g: unsafe extern "C" fn(i64, i64, i64) = std::mem::transmute(f);
                        g(t[1].parse().unwrap(), t[2].parse().unwrap(), t[3].parse().unwrap());
                    }
                    return;
                }
                "z" => {
                    std::thread::sleep(std::time::Duration::from_micros(t[1].parse().unwrap()));
                    return;
                }
                "" | "#" => return,
                _ => panic!("command {l}"),
            };
            if once && !self.seen.insert(line.clone()) {
                return;
            }
            self.out.write_all(line.as_bytes()).unwrap();
            self.out.write_all(b"\n").unwrap();
            self.out.flush().unwrap();
        }
    }
}

#[cfg(feature = "mock")]
fn set_timer_clock(secs: u64, nanos: u32) {
    iec61131std::timers::test_time_helpers::MockClock::set_time(std::time::Duration::new(secs, nanos));
}
#[cfg(feature = "mock")]
fn set_local_clock(secs: u32) {
    iec61131std::extra_functions::test_time_helpers::MockClock::set_time(secs);
}
#[cfg(not(feature = "mock"))]
fn set_timer_clock(_: u64, _: u32) {
    panic!("no mock clock in this build")
}
#[cfg(not(feature = "mock"))]
fn set_local_clock(_: u32) {
    panic!("no mock clock in this build")
}

/// Runs the script; 0 when every line was executed.
///
/// # Safety
/// Arguments are NUL-terminated paths.
#[no_mangle]
pub unsafe extern "C" fn vexec_main(script: *const c_char, out: *const c_char) -> i32 {
    let script = CStr::from_ptr(script).to_str().unwrap().to_string();
    let out = CStr::from_ptr(out).to_str().unwrap().to_string();
    std::panic::set_hook(Box::new(|_| {}));
    let r = catch_unwind(|| {
        let mut e = Exec::new(&out);
        e.run(&script);
    });
    if r.is_ok() {
        0
    } else {
        3
    }
}

/// Runs several scripts at the same time, each in a thread of its own that starts when all are ready.
/// Arguments are newline-separated lists of paths.
///
/// # Safety
/// Arguments are NUL-terminated.
#[no_mangle]
pub unsafe extern "C" fn vexec_tasks(scripts: *const c_char, outs: *const c_char) -> i32 {
    let scripts: Vec<String> = CStr::from_ptr(scripts).to_str().unwrap().lines().map(str::to_string).collect();
    let outs: Vec<String> = CStr::from_ptr(outs).to_str().unwrap().lines().map(str::to_string).collect();
    std::panic::set_hook(Box::new(|_| {}));
    let gate = std::sync::Arc::new(std::sync::Barrier::new(scripts.len()));
    let tasks: Vec<_> = scripts
        .into_iter()
        .zip(outs)
        .map(|(script, out)| {
            let gate = gate.clone();
            std::thread::spawn(move || {
                let mut e = Exec::new(&out);
                gate.wait();
                e.run(&script);
            })
        })
        .collect();
    let ok = tasks.into_iter().map(|t| t.join().is_ok()).fold(true, |a, b| a && b);
    if ok {
        0
    } else {
        3
    }
}
