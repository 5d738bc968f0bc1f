//! C22, proved part: numbers to text and back in the C runtime, for every value and radix.
use kit::*;

#[cfg(kani)]
extern "C" {
    fn v_u64_to_string(radix: u8, v: u64, p: *mut *const u8) -> u64;
    fn v_i64_to_string(radix: u8, v: i64, p: *mut *const u8) -> u64;
    fn v_ghost(g: u64) -> u64;
    fn v_cmp_at() -> u64;
    fn v_string_eq(a: *const u8, n: u64, b: *const u8, m: u64) -> i32;
    fn v_string_cmp(a: *const u8, n: u64, b: *const u8, m: u64) -> i32;
    fn v_string_concat(a: *const u8, n: u64, b: *const u8, m: u64, p: *mut *const u8) -> u64;
    fn malloc(n: usize) -> *mut u8;
    fn v_string_to_u64(radix: u8, p: *const u8, n: u64, v: *mut u64) -> i32;
    fn v_string_to_i64(radix: u8, p: *const u8, n: u64, v: *mut i64) -> i32;
}
#[cfg(not(kani))]
mod ffi {
    pub unsafe fn v_u64_to_string(radix: u8, v: u64, p: *mut *const u8) -> u64 { let r = llrt::llrt_u64_to_string(radix, v); *p = r.ptr; r.len }
    pub unsafe fn v_i64_to_string(radix: u8, v: i64, p: *mut *const u8) -> u64 { let r = llrt::llrt_i64_to_string(radix, v); *p = r.ptr; r.len }
    use llrt::RtString;
    use std::cell::Cell;
    thread_local! { static AT: Cell<u64> = Cell::new(0); }
    pub unsafe fn v_ghost(_: u64) -> u64 { 0 }
    /// The first difference.
    pub unsafe fn v_cmp_at() -> u64 { AT.with(|a| a.get()) }
    unsafe fn first(a: *const u8, n: u64, b: *const u8, m: u64) { let mut i = 0; while i < n && i < m && *a.add(i as usize) == *b.add(i as usize) { i += 1 } AT.with(|a| a.set(i)) }
    pub unsafe fn v_string_eq(a: *const u8, n: u64, b: *const u8, m: u64) -> i32 { first(a, n, b, m); llrt::llrt_string_eq(RtString { ptr: a, len: n }, RtString { ptr: b, len: m }) }
    pub unsafe fn v_string_cmp(a: *const u8, n: u64, b: *const u8, m: u64) -> i32 { first(a, n, b, m); llrt::llrt_string_cmp(RtString { ptr: a, len: n }, RtString { ptr: b, len: m }) }
    pub unsafe fn v_string_concat(a: *const u8, n: u64, b: *const u8, m: u64, p: *mut *const u8) -> u64 { let r = llrt::llrt_string_concat(RtString { ptr: a, len: n }, RtString { ptr: b, len: m }); *p = r.ptr; r.len }
    pub unsafe fn malloc(n: usize) -> *mut u8 { llrt::GC_malloc(n) as *mut u8 }
    pub unsafe fn v_string_to_u64(radix: u8, p: *const u8, n: u64, v: *mut u64) -> i32 { let r = llrt::llrt_string_to_u64(radix, llrt::RtString { ptr: p, len: n }); *v = r.value; r.success }
    pub unsafe fn v_string_to_i64(radix: u8, p: *const u8, n: u64, v: *mut i64) -> i32 { let r = llrt::llrt_string_to_i64(radix, llrt::RtString { ptr: p, len: n }); *v = r.value; r.success }
}
#[cfg(not(kani))]
use ffi::*;

fn digit(c: u8) -> u8 { match c { b'0'..=b'9' => c - b'0', b'a'..=b'z' => c - b'a' + 10, _ => 255 } }
/// Checks the text of a magnitude.
unsafe fn digits(p: *const u8, n: u64, radix: u8, v: u64, max: u64) {
    chk!(n >= 1 && n <= max, "there are as many digits as the value has");
    chk!(n == 1 || *p != b'0', "no leading zero");
    let mut acc = 0u64;
    let mut i = 0;
    while i < max {
        if i < n {
            let d = digit(*p.add(i as usize));
            chk!(d < radix, "every character is a digit of the radix, in lower case");
            acc = acc.wrapping_mul(radix as u64).wrapping_add(d as u64);
        }
        i += 1;
    }
    chk!(acc == v, "the digits are those of the value");
}
macro_rules! unsigned { ($($name:ident $r:literal $max:literal $bits:literal;)*) => { $(
    kit::obligation!($name, kani, unwind = 66, |s| {
        let v = s.u64();
        #[cfg(kani)]
        s.assume($bits == 64 || v >> ($bits % 64) == 0);
        note(|| format!("{} in radix {}", v, $r));
        let mut p = std::ptr::null();
        unsafe {
            let n = v_u64_to_string($r, v, &mut p);
            digits(p, n, $r, v, $max);
        }
        reach!("unsigned");
    });
)* } }
unsigned! { u16 16 16 64; }

/// A string of any length and any contents.
unsafe fn any<S: Src>(s: &mut S) -> (*mut u8, u64) {
    let n = s.below(1 << 32);
    #[cfg(not(kani))]
    let n = n % 40;
    let p = malloc(n as usize);
    s.assume(n == 0 || !p.is_null());
    #[cfg(not(kani))]
    for i in 0..n as usize { *p.add(i) = [b'a', 0, 255, s.u8()][s.below(4) as usize] }
    (p, n)
}
/// Two strings; the search makes one start like the other.
unsafe fn two<S: Src>(s: &mut S) -> (*mut u8, u64, *mut u8, u64) {
    let (a, n) = any(s);
    let (b, m) = any(s);
    #[cfg(not(kani))]
    for i in 0..s.below(n.min(m) + 1) as usize { *b.add(i) = *a.add(i) }
    note(|| format!("{:?} and {:?}", std::slice::from_raw_parts(a, n as usize), std::slice::from_raw_parts(b, m as usize)));
    (a, n, b, m)
}
// For strings of every length, at every position: memcmp and memcpy are replaced by their contracts.
kit::obligation!(eq, kani, unwind = 3, |s| { unsafe {
    let (a, n, b, m) = two(s);
    let g = s.u64();
    v_ghost(g);
    let e = v_string_eq(a, n, b, m);
    if e != 0 {
        chk!(e == 1, "truth is one");
        chk!(n == m, "equal strings are equally long");
        chk!(g >= n || *a.add(g as usize) == *b.add(g as usize), "equal strings have the same bytes");
        reach!("equal");
    } else {
        if n == m {
            chk!(n > 0, "empty strings are equal");
            let k = v_cmp_at();
            chk!(k < n && *a.add(k as usize) != *b.add(k as usize), "strings that are not equal differ somewhere");
        }
        reach!("different");
    }
} });
kit::obligation!(cmp, kani, unwind = 3, |s| { unsafe {
    let (a, n, b, m) = two(s);
    let g = s.u64();
    v_ghost(g);
    let c = v_string_cmp(a, n, b, m);
    let l = if n < m { n } else { m };
    let k = if l == 0 { 0 } else { v_cmp_at() };
    chk!(k <= l, "the first difference lies inside of both strings");
    chk!(g >= k || *a.add(g as usize) == *b.add(g as usize), "everything before the first difference is the same");
    let want = if k < l { if *a.add(k as usize) < *b.add(k as usize) { -1 } else { 1 } } else if n < m { -1 } else if n > m { 1 } else { 0 };
    chk!(c == want, "strings are ordered by their first difference, a prefix first");
    if k < l { reach!("difference"); } else { reach!("prefix"); }
} });
kit::obligation!(concat, kani, unwind = 3, |s| { unsafe {
    let (a, n, b, m) = two(s);
    let g = s.u64();
    v_ghost(g);
    let (x, y) = (if g < n { *a.add(g as usize) } else { 0 }, if g >= n && g - n < m { *b.add((g - n) as usize) } else { 0 });
    let mut p = std::ptr::null();
    let r = v_string_concat(a, n, b, m, &mut p);
    chk!(r == n + m, "a concatenation is as long as both strings together");
    if g < n { chk!(*p.add(g as usize) == x, "a concatenation starts with the first string"); reach!("first"); }
    else if g - n < m { chk!(*p.add(g as usize) == y, "a concatenation ends with the second string"); reach!("second"); }
    chk!(g >= n || *a.add(g as usize) == x, "the first string stays as it is");
    chk!(g < n || g - n >= m || *b.add((g - n) as usize) == y, "the second string stays as it is");
} });
// Numerals of at most as many characters as the longest number has, and one more.
fn digit_of(c: u8) -> u64 { match c { b'0'..=b'9' => (c - b'0') as u64, b'a'..=b'z' => (c - b'a') as u64 + 10, b'A'..=b'Z' => (c - b'A') as u64 + 10, _ => 255 } }
macro_rules! numerals { ($($name:ident $sname:ident $r:literal $len:literal;)*) => { $(
    kit::obligation!($name, kani, unwind = 24, |s| {
        let mut t = [0u8; $len];
        let n = s.below($len as u64 + 1) as usize;
        for i in 0..$len { t[i] = s.u8(); #[cfg(not(kani))] if s.below(40) != 0 { t[i] = b"0123456789abcdefABCDEF"[s.below($r) as usize] } }
        note(|| format!("{:?} in radix {}", String::from_utf8_lossy(&t[..n]), $r));
        let (mut ok, mut v) = (n > 0, 0u128);
        for i in 0..$len { if i < n { let d = digit_of(t[i]); if d >= $r { ok = false } v = v.wrapping_mul($r).wrapping_add(d as u128); } }
        let mut got = 0;
        let r = unsafe { v_string_to_u64($r, t.as_ptr(), n as u64, &mut got) };
        chk!((r != 0) == (ok && v <= u64::MAX as u128), "a text denotes an unsigned number exactly when it is one that fits");
        if r != 0 { chk!(got as u128 == v, "the number is the one denoted"); reach!("number"); }
    });
    kit::obligation!($sname, kani, unwind = 24, |s| {
        let mut t = [0u8; $len];
        let n = s.below($len as u64 + 1) as usize;
        for i in 0..$len { t[i] = s.u8(); #[cfg(not(kani))] if s.below(40) != 0 { t[i] = b"0123456789abcdefABCDEF"[s.below($r) as usize] } }
        #[cfg(not(kani))]
        if s.bool() { t[0] = b'-' }
        note(|| format!("{:?} in radix {}", String::from_utf8_lossy(&t[..n]), $r));
        let neg = n > 0 && t[0] == b'-';
        let (mut ok, mut v) = (n > neg as usize, 0u128);
        for i in 0..$len { if i < n && i >= neg as usize { let d = digit_of(t[i]); if d >= $r { ok = false } v = v.wrapping_mul($r).wrapping_add(d as u128); } }
        let mut got = 0;
        let r = unsafe { v_string_to_i64($r, t.as_ptr(), n as u64, &mut got) };
        chk!((r != 0) == (ok && v <= i64::MAX as u128 + neg as u128), "a text denotes a signed number exactly when it is one that fits");
        if r != 0 { chk!(got == if neg { (v as i64).wrapping_neg() } else { v as i64 }, "the number is the one denoted"); reach!("number"); }
    });
)* } }
numerals! { pu16 pi16 16 18; }
#[cfg(not(kani))]
pub fn entries() -> Vec<Entry> {
    let mut es = crate::c22::entries();
    es.extend([
        kit::entry!("C22", c22k::u16, 1, kani),
        kit::entry!("C22", c22k::eq, 1, kani),
        kit::entry!("C22", c22k::cmp, 1, kani),
        kit::entry!("C22", c22k::concat, 1, kani),
        kit::entry!("C22", c22k::pu16, 1, kani),
    ]);
    es
}
