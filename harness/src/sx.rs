//! Interface between the harnesses and the symbolic executor (or, natively, a recorded counterexample).
#[cfg(not(feature = "native"))]
mod imp {
    extern "C" {
        fn sx_bytes(p: *mut u8, n: usize);
        fn sx_assume(c: bool);
        fn sx_check(c: bool, m: *const u8, n: usize);
        fn sx_reach(m: *const u8, n: usize);
        fn sx_conc(v: u64) -> u64;
        fn sx_pick(n: u64) -> u64;
        fn sx_param(i: u64) -> u64;
        fn sx_dump(p: *const u8, n: usize);
        fn sx_readonly();
        fn sx_fault(at: u64, mode: u64) -> bool;
        fn sx_same(a: *const u8, b: *const u8, n: usize) -> bool;
    }
    /// Fills `b` with unconstrained (symbolic) bytes.
    pub fn bytes(b: &mut [u8]) { unsafe { sx_bytes(b.as_mut_ptr(), b.len()) } }
    /// Restricts the explored inputs.
    pub fn assume(c: bool) { unsafe { sx_assume(c) } }
    /// The property: must hold for every input on this path.
    pub fn check(c: bool, m: &'static str) { unsafe { sx_check(c, m.as_ptr(), m.len()) } }
    /// Records that the path got here (vacuity control and native comparison).
    pub fn reach(m: &'static str) { unsafe { sx_reach(m.as_ptr(), m.len()) } }
    /// Forks on every feasible value of `v`.
    pub fn conc(v: u64) -> u64 { unsafe { sx_conc(v) } }
    /// Symbolic choice in 0..n, each value explored on its own path.
    pub fn pick(n: u64) -> u64 { unsafe { sx_pick(n) } }
    pub fn param(i: u64) -> u64 { unsafe { sx_param(i) } }
    pub fn dump(b: &[u8]) { unsafe { sx_dump(b.as_ptr(), b.len()) } }
    /// From now on the user may only read files.
    pub fn readonly() { unsafe { sx_readonly() } }
    /// From now on call number `at` (0: none) of open, read, write and ftruncate fails (mode 1), transfers less than asked for (2) or is interrupted (3). Tells whether the previous fault happened.
    pub fn fault(at: u64, mode: u64) -> bool { unsafe { sx_fault(at, mode) } }
    /// Equality of two byte strings as one solver term (no fork).
    pub fn same(a: &[u8], b: &[u8]) -> bool { a.len() == b.len() && unsafe { sx_same(a.as_ptr(), b.as_ptr(), a.len()) } }
}
#[cfg(feature = "native")]
mod imp {
    use std::cell::RefCell;
    thread_local! {
        pub static IN: RefCell<(Vec<u8>, usize)> = RefCell::new((Vec::new(), 0));
        pub static PARAMS: RefCell<Vec<u64>> = RefCell::new(Vec::new());
    }
    fn next() -> u8 { IN.with(|i| { let mut i = i.borrow_mut(); let p = i.1; i.1 += 1; i.0.get(p).copied().unwrap_or(0) }) }
    pub fn bytes(b: &mut [u8]) { for x in b.iter_mut() { *x = next(); } }
    pub fn assume(c: bool) { if !c { println!("REPLAY: assumption not satisfied"); std::process::exit(42); } }
    pub fn check(c: bool, m: &'static str) { if !c { println!("REPLAY: CHECK-FAILED {m}"); std::process::exit(43); } }
    pub fn reach(m: &'static str) { println!("REACH {m}"); }
    pub fn conc(v: u64) -> u64 { v }
    pub fn pick(n: u64) -> u64 { (next() as u64) % n }
    pub fn param(i: u64) -> u64 { PARAMS.with(|p| p.borrow()[i as usize]) }
    pub fn dump(b: &[u8]) { println!("DUMP[{}]: {}", b.len(), b.iter().map(|x| format!("{x:02x} ")).collect::<String>()); }
    pub fn same(a: &[u8], b: &[u8]) -> bool { a == b }
    static mut FAULT: (u64, u64, u64, bool) = (0, 0, 0, false);
    pub fn fault(at: u64, mode: u64) -> bool { unsafe { let h = FAULT.3; FAULT = (at, mode, 0, false); h } }
    fn now() -> u64 { unsafe { if FAULT.0 == 0 { return 0; } FAULT.2 += 1; if FAULT.2 != FAULT.0 { return 0; } FAULT.3 = true; FAULT.1 } }
    extern "C" { fn seteuid(u: u32) -> i32; fn syscall(n: i64, ...) -> i64; fn __errno_location() -> *mut i32; }
    fn fail(mode: u64, e: i32) -> i64 { unsafe { *__errno_location() = if mode == 3 { 4 } else { e }; } -1 }
    // take the place of the functions of the C library in this program
    #[no_mangle] pub unsafe extern "C" fn open64(p: *const u8, fl: i32, mode: u32) -> i32 { match now() { m @ (1 | 3) => fail(m, 5) as i32, _ => syscall(2, p, fl, mode) as i32 } }
    #[no_mangle] pub unsafe extern "C" fn read(fd: i32, b: *mut u8, n: usize) -> isize { if fd <= 2 { return syscall(0, fd, b, n) as isize; } match now() { m @ (1 | 3) => fail(m, 5) as isize,
        2 if n > 1 => { let at = syscall(8, fd, 0i64, 1i32); let end = syscall(8, fd, 0i64, 2i32); syscall(8, fd, at, 0i32); let have = ((end - at).max(0) as usize).min(n); syscall(0, fd, b, if have > 1 { have / 2 } else { have }) as isize } _ => syscall(0, fd, b, n) as isize } }
    #[no_mangle] pub unsafe extern "C" fn write(fd: i32, b: *const u8, n: usize) -> isize { if fd <= 2 { return syscall(1, fd, b, n) as isize; } match now() { m @ (1 | 3) => fail(m, 28) as isize, 2 if n > 1 => syscall(1, fd, b, n / 2) as isize, _ => syscall(1, fd, b, n) as isize } }
    #[no_mangle] pub unsafe extern "C" fn ftruncate64(fd: i32, n: i64) -> i32 { match now() { m @ (1 | 3) => fail(m, 5) as i32, _ => syscall(77, fd, n) as i32 } }
    /// The current directory is a scratch directory of the replay
    pub fn readonly() {
        use std::os::unix::fs::PermissionsExt;
        for f in std::fs::read_dir(".").unwrap() { std::fs::set_permissions(f.unwrap().path(), std::fs::Permissions::from_mode(0o444)).unwrap(); }
        std::fs::set_permissions(".", std::fs::Permissions::from_mode(0o555)).unwrap();
        if unsafe { seteuid(65534) } != 0 { println!("REPLAY: no unprivileged user"); std::process::exit(42); }
    }
}
pub use imp::*;
pub fn u8() -> u8 { let mut b = [0u8; 1]; bytes(&mut b); b[0] }
pub fn u16() -> u16 { let mut b = [0u8; 2]; bytes(&mut b); u16::from_le_bytes(b) }
pub fn u32() -> u32 { let mut b = [0u8; 4]; bytes(&mut b); u32::from_le_bytes(b) }
pub fn u64() -> u64 { let mut b = [0u8; 8]; bytes(&mut b); u64::from_le_bytes(b) }
pub fn vec(n: usize) -> Vec<u8> { let mut v = vec![0u8; n]; bytes(&mut v); v }
