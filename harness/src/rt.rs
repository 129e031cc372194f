//! Interface to the symbolic executor (and to the native replay host).
#![allow(dead_code)]
unsafe extern "C" {
    fn sym_bytes(p: *mut u8, n: usize);
    fn sym_choose(n: u32) -> u32;
    fn sym_assume(b: bool);
    fn sym_fail(p: *const u8, n: usize) -> !;
    fn sym_cover(p: *const u8, n: usize);
    fn sym_out(p: *const u8, n: usize);
    fn sym_pin(x: u64) -> u64;
    fn sym_may_panic();
    fn sym_nofmt(p: *const String);
}
pub fn bytes<const N: usize>() -> [u8; N] {
    let mut b = [0u8; N];
    unsafe { sym_bytes(b.as_mut_ptr(), N) };
    b
}
pub fn any_u8() -> u8 { bytes::<1>()[0] }
pub fn any_bool() -> bool { bytes::<1>()[0] & 1 == 1 }
pub fn any_u16() -> u16 { u16::from_le_bytes(bytes()) }
pub fn any_u32() -> u32 { u32::from_le_bytes(bytes()) }
pub fn any_u64() -> u64 { u64::from_le_bytes(bytes()) }
pub fn any_usize() -> usize { u64::from_le_bytes(bytes()) as usize }
pub fn any_u128() -> u128 { u128::from_le_bytes(bytes()) }
pub fn any_i128() -> i128 { i128::from_le_bytes(bytes()) }
pub fn choose(n: usize) -> usize { unsafe { sym_choose(n as u32) as usize } }
pub fn assume(b: bool) { unsafe { sym_assume(b) } }
#[inline(never)]
pub fn fail(s: &str) -> ! { unsafe { sym_fail(s.as_ptr(), s.len()) } }
pub fn cover(s: &str) { unsafe { sym_cover(s.as_ptr(), s.len()) } }
pub fn out(b: &[u8]) { unsafe { sym_out(b.as_ptr(), b.len()) } }
pub fn out64(x: u64) { out(&x.to_le_bytes()) }
pub fn pin(x: usize) -> usize { unsafe { sym_pin(x as u64) as usize } }
/// From here on a panic is an allowed way to end (the operation is refused).
pub fn may_panic() { unsafe { sym_may_panic() } }
/// While `f` runs, `format!` yields an empty string: the code under test formats only diagnostics there.
pub fn nofmt<R>(f: impl FnOnce() -> R) -> R {
    let e = String::new();
    unsafe { sym_nofmt(&e) };
    let r = f();
    unsafe { sym_nofmt(std::ptr::null()) };
    r
}
#[macro_export]
macro_rules! chk {
    ($c:expr, $($m:tt)+) => { if !($c) { $crate::rt::fail(&format!($($m)+)) } };
}
