//! Runtime interface between harnesses and the symbolic executor.
//!
//! The bodies below are the *native* ones (used for replay and path validation). The symbolic
//! executor intercepts calls to the `lrsym_*` functions by name and never runs these bodies.
use std::cell::UnsafeCell;

struct Rt {
    holes: Vec<u8>,
    next: usize,
    emit: u64,
    emit_n: u64,
    bad: bool,
}
struct Cell(UnsafeCell<Rt>);
unsafe impl Sync for Cell {}
static RT: Cell = Cell(UnsafeCell::new(Rt { holes: Vec::new(), next: 0, emit: 0, emit_n: 0, bad: false }));

pub fn native_begin(holes: Vec<u8>) {
    unsafe {
        let rt = &mut *RT.0.get();
        rt.holes = holes;
        rt.next = 0;
        rt.emit = 0xcbf29ce484222325;
        rt.emit_n = 0;
        rt.bad = false;
    }
}
pub fn native_end() -> (u64, u64, bool, usize) {
    unsafe {
        let rt = &*RT.0.get();
        (rt.emit, rt.emit_n, rt.bad, rt.next)
    }
}

#[no_mangle]
#[inline(never)]
pub extern "C" fn lrsym_hole(set: *const u64) -> u8 {
    unsafe {
        let rt = &mut *RT.0.get();
        let v = if rt.next < rt.holes.len() { std::ptr::read_volatile(&rt.holes[rt.next]) } else { 0 };
        rt.next += 1;
        let w = std::ptr::read_volatile(set.add((v >> 6) as usize));
        if w >> (v & 63) & 1 == 0 {
            rt.bad = true;
        }
        v
    }
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn lrsym_assume(c: bool) {
    unsafe {
        let rt = &mut *RT.0.get();
        if !std::ptr::read_volatile(&c) {
            rt.bad = true;
        }
    }
}
/// ends the path: the state is outside the stated preconditions
#[no_mangle]
#[inline(never)]
pub extern "C" fn lrsym_discard() -> ! {
    println!("DISCARD");
    std::process::exit(4)
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn lrsym_fail(ptr: *const u8, len: usize) -> ! {
    let s = unsafe { std::slice::from_raw_parts(ptr, len) };
    println!("FAIL {}", String::from_utf8_lossy(s));
    std::process::exit(3)
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn lrsym_emit(ptr: *const u8, len: usize) {
    unsafe {
        let rt = &mut *RT.0.get();
        for i in 0..len {
            rt.emit = (rt.emit ^ std::ptr::read_volatile(ptr.add(i)) as u64).wrapping_mul(0x100000001b3);
        }
        rt.emit_n += len as u64;
    }
}
/// reports the concrete input under test (for messages only)
#[no_mangle]
#[inline(never)]
pub extern "C" fn lrsym_input(ptr: *const u8, len: usize) {
    if std::env::var_os("LRSYM_SHOW").is_some() {
        let s = unsafe { std::slice::from_raw_parts(ptr, len) };
        println!("INPUT {}", s.iter().map(|b| format!("{:02x}", b)).collect::<String>());
        println!("INPUT-TEXT {:?}", String::from_utf8_lossy(s));
    }
}
/// extra information for a native replay; ignored by the executor
#[no_mangle]
#[inline(never)]
pub extern "C" fn lrsym_note(ptr: *const u8, len: usize) {
    if std::env::var_os("LRSYM_SHOW").is_some() {
        let s = unsafe { std::slice::from_raw_parts(ptr, len) };
        println!("NOTE {}", String::from_utf8_lossy(s).replace('\n', " / "));
    }
}
/// byte-wise comparison used by the executor in place of libc memcmp/bcmp when the operands
/// contain symbolic bytes
#[no_mangle]
#[inline(never)]
pub extern "C" fn lrsym_memcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
    let mut i = 0;
    while i < n {
        let (x, y) = unsafe { (std::ptr::read_volatile(a.add(i)), std::ptr::read_volatile(b.add(i))) };
        if x != y {
            return if x < y { -1 } else { 1 };
        }
        i += 1;
    }
    0
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn lrsym_memchr(a: *const u8, c: i32, n: usize) -> *const u8 {
    let mut i = 0;
    while i < n {
        let x = unsafe { std::ptr::read_volatile(a.add(i)) };
        if x == c as u8 {
            return unsafe { a.add(i) };
        }
        i += 1;
    }
    std::ptr::null()
}

// ---- convenience -------------------------------------------------------------------------
#[derive(Clone, Copy)]
pub struct Set(pub [u64; 4]);
impl Set {
    pub const fn none() -> Set { Set([0; 4]) }
    pub const fn any() -> Set { Set([!0; 4]) }
    pub const fn of(s: &[u8]) -> Set {
        let mut r = [0u64; 4];
        let mut i = 0;
        while i < s.len() {
            r[(s[i] >> 6) as usize] |= 1 << (s[i] & 63);
            i += 1;
        }
        Set(r)
    }
    pub const fn range(a: u8, b: u8) -> Set {
        let mut r = [0u64; 4];
        let mut i = a as usize;
        while i <= b as usize {
            r[i >> 6] |= 1 << (i & 63);
            i += 1;
        }
        Set(r)
    }
    pub const fn or(self, o: Set) -> Set {
        Set([self.0[0] | o.0[0], self.0[1] | o.0[1], self.0[2] | o.0[2], self.0[3] | o.0[3]])
    }
    pub const fn minus(self, o: Set) -> Set {
        Set([self.0[0] & !o.0[0], self.0[1] & !o.0[1], self.0[2] & !o.0[2], self.0[3] & !o.0[3]])
    }
    pub const fn has(&self, b: u8) -> bool {
        self.0[(b >> 6) as usize] >> (b & 63) & 1 == 1
    }
}
pub fn hole(s: &Set) -> u8 {
    lrsym_hole(s.0.as_ptr())
}
/// a symbolic selector 0..n, forked by the executor where it is used
pub fn choose(n: usize) -> usize {
    assert!(n <= 256 && n > 0);
    let s = Set::range(0, (n - 1) as u8);
    hole(&s) as usize
}
#[inline(always)]
pub fn fail(msg: &str) -> ! {
    lrsym_fail(msg.as_ptr(), msg.len())
}
pub fn emit(b: &[u8]) {
    lrsym_emit(b.as_ptr(), b.len())
}
pub fn emit_n(n: usize) {
    let b = (n as u64).to_le_bytes();
    lrsym_emit(b.as_ptr(), 8)
}
pub fn note(b: &[u8]) {
    lrsym_note(b.as_ptr(), b.len())
}
pub fn check(c: bool, msg: &str) {
    if !c { fail(msg) }
}
