//! C22: the functions of the C runtime on numbers, strings, arguments and processes.
#![cfg(not(kani))]
use kit::*;
use llrt::*;

fn rs(b: &[u8]) -> RtString { RtString { ptr: b.as_ptr(), len: b.len() as u64 } }
fn bytes(r: RtString) -> Vec<u8> { if r.len == 0 { vec![] } else { unsafe { std::slice::from_raw_parts(r.ptr, r.len as usize).to_vec() } } }
fn show(b: &[u8]) -> String { format!("{:?}", String::from_utf8_lossy(b)) }

fn magnitude(mut v: u128, radix: u128) -> Vec<u8> {
    let mut t = vec![];
    loop {
        t.push(b"0123456789abcdefghijklmnopqrstuvwxyz"[(v % radix) as usize]);
        v /= radix;
        if v == 0 { break }
    }
    t.reverse();
    t
}
fn value<S: Src>(s: &mut S, radix: u64) -> u64 {
    // around the powers of the radix too
    match s.below(4) {
        0 => { let mut v = 1u64; for _ in 0..s.below(64) { v = v.checked_mul(radix).unwrap_or(v) } v.wrapping_add(s.below(5)).wrapping_sub(2) }
        1 => { let mut v = s.below(radix); for _ in 0..s.below(64) { v = v.checked_mul(radix).and_then(|v| v.checked_add(s.below(radix))).unwrap_or(v) } v }
        _ => s.u64(),
    }
}
kit::obligation!(to_text, native, |s| {
    let radix = 2 + s.below(35) as u8;
    let v = value(s, radix as u64);
    note(|| format!("{} ({}) in radix {}", v, v as i64, radix));
    unsafe {
        let u = bytes(llrt_u64_to_string(radix, v));
        chk!(u == magnitude(v as u128, radix as u128), "an unsigned number is printed with its digits");
        let i = bytes(llrt_i64_to_string(radix, v as i64));
        let mut w = if (v as i64) < 0 { b"-".to_vec() } else { vec![] };
        w.extend(magnitude((v as i64).unsigned_abs() as u128, radix as u128));
        chk!(i == w, "a signed number is printed with its sign and digits");
        let b = llrt_string_to_u64(radix, rs(&u));
        chk!(b.success != 0 && b.value == v, "a printed unsigned number reads back");
        let b = llrt_string_to_i64(radix, rs(&i));
        chk!(b.success != 0 && b.value == v as i64, "a printed signed number reads back");
    }
    reach!("text");
});
/// The number a text denotes.
fn parse(t: &[u8], radix: u32, signed: bool) -> Option<i128> {
    let (neg, d) = match t { [b'-', r @ ..] if signed => (true, r), _ => (false, t) };
    if d.is_empty() { return None }
    let mut v: i128 = 0;
    for c in d {
        let x = (*c as char).to_digit(36).filter(|_| c.is_ascii())?;
        if x >= radix { return None }
        v = (v * radix as i128 + x as i128).min(1 << 100);
    }
    let v = if neg { -v } else { v };
    let r = if signed { i64::MIN as i128..=i64::MAX as i128 } else { 0..=u64::MAX as i128 };
    r.contains(&v).then_some(v)
}
fn numeral<S: Src>(s: &mut S, radix: u64) -> Vec<u8> {
    let mut t = vec![];
    if s.below(3) == 0 { t.push(b'-') }
    for _ in 0..if s.below(4) == 0 { s.below(70) } else { 0 } { t.push(b'0') }
    match s.below(8) {
        0 | 1 => t.extend(magnitude((i64::MAX as u128 + 1 + s.below(5) as u128) - 2, radix as u128)),
        2 | 3 => t.extend(magnitude((u64::MAX as u128 + s.below(5) as u128) - 2, radix as u128)),
        // a first digit, or the last, too many
        4 => { t.extend(magnitude(u64::MAX as u128, radix as u128)); t.push(b"0123456789abcdefghijklmnopqrstuvwxyz"[s.below(radix) as usize]); }
        5 => t.extend(magnitude(((s.u64() as u128) << 3) + s.below(8) as u128, radix as u128)),
        6 => {}
        _ => { let v = value(s, radix); t.extend(magnitude(v as u128, radix as u128)) }
    }
    if s.below(3) == 0 { t.make_ascii_uppercase() }
    if s.below(4) == 0 {
        let c = if s.below(2) == 0 { *b"+- _.@/:`{[\0\n\xe9".get(s.below(14) as usize).unwrap_or(&b'~') } else { s.below(256) as u8 };
        let i = s.below(t.len() as u64 + 1) as usize;
        if s.below(2) == 0 || i == t.len() { t.insert(i, c) } else { t[i] = c }
    }
    t
}
kit::obligation!(from_text, native, |s| {
    let radix = 2 + s.below(35) as u8;
    let t = numeral(s, radix as u64);
    note(|| format!("{} in radix {}", show(&t), radix));
    unsafe {
        let u = llrt_string_to_u64(radix, rs(&t)).get();
        chk!(u.map(|v| v as i128) == parse(&t, radix as u32, false), "a text denotes an unsigned number exactly when it is one that fits");
        let i = llrt_string_to_i64(radix, rs(&t)).get();
        chk!(i.map(|v| v as i128) == parse(&t, radix as u32, true), "a text denotes a signed number exactly when it is one that fits");
    }
    reach!("numeral");
});
/// A number with so many digits, as C prints it.
fn general(v: f64, digits: i32) -> String {
    if v.is_nan() { return if v.is_sign_negative() { "-nan" } else { "nan" }.into() }
    if v.is_infinite() { return if v < 0.0 { "-inf" } else { "inf" }.into() }
    let e = format!("{:.*e}", digits as usize - 1, v);
    let (m, x) = e.split_once('e').unwrap();
    let x: i32 = x.parse().unwrap();
    let strip = |t: String| if t.contains('.') { t.trim_end_matches('0').trim_end_matches('.').to_string() } else { t };
    if x < -4 || x >= digits { format!("{}e{}{:02}", strip(m.into()), if x < 0 { '-' } else { '+' }, x.abs()) } else { strip(format!("{:.*}", (digits - 1 - x) as usize, v)) }
}
fn float<S: Src>(s: &mut S) -> f64 {
    match s.below(5) {
        0 => s.u64() as f64,
        1 => (s.below(2_000_000) as f64 - 1e6) / [1.0, 2.0, 10.0, 100.0, 3.0, 65536.0][s.below(6) as usize],
        2 => [0.0, -0.0, f64::INFINITY, f64::NEG_INFINITY, f64::MAX, f64::MIN_POSITIVE, 1e16, 9999999999999999.0, 1e-4, 9.9999e-5, 1e22, 1e23, 0.1, 123456.5, 99999999.5, 16777217.0][s.below(16) as usize],
        _ => { let v = f64::from_bits(s.u64()); if v.is_nan() { 1.5 } else { v } }
    }
}
kit::obligation!(float_text, native, |s| {
    let v = float(s);
    note(|| format!("{:?}", v));
    unsafe {
        let t = bytes(llrt_f64_to_string(v));
        chk!(t == general(v, 16).as_bytes(), "a number is printed with sixteen digits, correctly rounded");
        let f = v as f32;
        let t = bytes(llrt_f32_to_string(f));
        chk!(t == general(f as f64, 8).as_bytes(), "a number is printed with eight digits, correctly rounded");
        if v.is_normal() || v == 0.0 {
            let t = general(v, 16);
            let b = llrt_string_to_f64(rs(t.as_bytes())).get();
            let w: f64 = t.parse().unwrap();
            if w.is_infinite() || w.is_subnormal() { chk!(b.is_none() || b == Some(w), "a text that is out of range is refused"); }
            else { chk!(b.map(f64::to_bits) == Some(w.to_bits()), "a printed number reads back as the nearest"); }
        }
        if f.is_normal() || f == 0.0 {
            let t = general(f as f64, 8);
            let b = llrt_string_to_f32(rs(t.as_bytes())).get();
            let w: f32 = t.parse().unwrap();
            if w.is_infinite() || w.is_subnormal() { chk!(b.is_none() || b == Some(w), "a text that is out of range is refused"); }
            else { chk!(b.map(f32::to_bits) == Some(w.to_bits()), "a printed number reads back as the nearest"); }
        }
    }
    reach!("float");
});
kit::obligation!(text_float, native, |s| {
    // a decimal numeral, whole or damaged
    let mut t = String::new();
    if s.below(3) == 0 { t.push('-') }
    let m = if s.below(4) == 0 { 45 } else { 6 };
    let n = s.below(m);
    let lead = if n > 0 { s.below(9) + 1 } else { 0 };
    t += &lead.to_string();
    for _ in 1..n { t.push((b'0' + s.below(10) as u8) as char) }
    if s.below(2) == 0 { t.push('.'); for _ in 0..1 + s.below(12) { t.push((b'0' + s.below(10) as u8) as char) } }
    if s.below(2) == 0 { t.push('e'); if s.bool() { t.push(if s.bool() { '-' } else { '+' }) } let m = if s.below(4) == 0 { 400 } else { 40 }; t += &s.below(m).to_string(); }
    let bad = s.below(4) == 0;
    if bad {
        let junk = ["@", "z", "..", "e", "-", " ", "\0", "_", ",", "é", "ee1", "f", "L"];
        let j = junk[s.below(13) as usize];
        t = match s.below(3) { 0 => format!("{}{}", t, j), 1 => j.to_string(), _ => { let i = s.below(t.len() as u64) as usize; if i == 0 { format!("{}{}", t, j) } else { format!("{}{}{}", &t[..i], j, &t[i..]) } } };
    }
    note(|| format!("{:?}", t));
    let ok = !bad || { let d = t.strip_prefix('-').unwrap_or(&t); d.starts_with(|c: char| c.is_ascii_digit()) && t.parse::<f64>().is_ok() };
    unsafe {
        let (a, b) = (llrt_string_to_f64(rs(t.as_bytes())).get(), llrt_string_to_f32(rs(t.as_bytes())).get());
        if !ok {
            chk!(a.is_none() && b.is_none(), "a text that is no number is refused");
            reach!("bad");
        } else if t.len() < 64 && !(t.starts_with("00") || t.starts_with("-00")) {
            let (w, x): (f64, f32) = (t.parse().unwrap(), t.parse().unwrap());
            let zero = !t.split('e').next().unwrap().contains(|c: char| ('1'..='9').contains(&c));
            if w.is_normal() || zero { chk!(a.map(f64::to_bits) == Some(w.to_bits()), "a text denotes the nearest number"); }
            else { chk!(a.is_none() || !w.is_infinite() && a == Some(w), "a text that is out of range is refused"); }
            if x.is_normal() || zero { chk!(b.map(f32::to_bits) == Some(x.to_bits()), "a text denotes the nearest number"); }
            else { chk!(b.is_none() || !x.is_infinite() && b == Some(x), "a text that is out of range is refused"); }
            reach!("number");
        } else if a.is_some() || b.is_some() {
            let (w, x): (f64, f32) = (t.parse().unwrap(), t.parse().unwrap());
            chk!(a.is_none() || a == Some(w), "a text denotes the nearest number");
            chk!(b.is_none() || b == Some(x), "a text denotes the nearest number");
        }
    }
});
fn string<S: Src>(s: &mut S) -> Vec<u8> {
    let m = if s.below(4) == 0 { 300 } else { 12 };
    let n = s.below(m) as usize;
    let few = s.bool();
    (0..n).map(|_| if few { b"a\0\xff"[s.below(3) as usize] } else { s.below(256) as u8 }).collect()
}
kit::obligation!(strings, native, |s| {
    let mut a = string(s);
    let mut b = match s.below(4) { 0 => a.clone(), 1 => { let n = s.below(a.len() as u64 + 1) as usize; a[..n].to_vec() } _ => string(s) };
    if s.bool() && !b.is_empty() { let i = s.below(b.len() as u64) as usize; b[i] = b[i].wrapping_add(1 + s.below(255) as u8) }
    if s.bool() { std::mem::swap(&mut a, &mut b) }
    note(|| format!("{} and {}", show(&a), show(&b)));
    unsafe {
        let e = llrt_string_eq(rs(&a), rs(&b));
        chk!((e & 0xff != 0) == (a == b) && e & !1 == 0, "strings are equal when their bytes are");
        let c = llrt_string_cmp(rs(&a), rs(&b));
        chk!(c == match a.cmp(&b) { std::cmp::Ordering::Less => -1, std::cmp::Ordering::Equal => 0, _ => 1 }, "strings are ordered by their bytes, a prefix first");
        let (a0, b0) = (a.clone(), b.clone());
        let r = bytes(llrt_string_concat(rs(&a), rs(&b)));
        chk!(r == [&a[..], &b[..]].concat(), "a concatenation has the bytes of both strings in order");
        chk!(a == a0 && b == b0, "a concatenation leaves its arguments alone");
        let r1 = llrt_string_concat(rs(&a), rs(&b));
        let r2 = llrt_string_concat(rs(&b), rs(&a));
        chk!(bytes(r1) == [&a[..], &b[..]].concat() && bytes(r2) == [&b[..], &a[..]].concat(), "results do not share their bytes");
    }
    reach!("strings");
});
kit::obligation!(ids, native, |s| {
    thread_local! { static SEEN: std::cell::RefCell<std::collections::HashSet<Vec<u8>>> = Default::default(); }
    let m = if s.below(50) == 0 { 3000 } else { 20 };
    let n = 1 + s.below(m);
    note(|| format!("{} identifiers", n));
    for _ in 0..n {
        let t = bytes(unsafe { llrt_string_genid() });
        chk!(t.len() >= 2 && t.len() < 24 && t[0] == b'@' && t[1..].iter().all(|c| c.is_ascii_digit()), "an identifier is an at sign and a number");
        chk!(SEEN.with(|x| x.borrow_mut().insert(t)), "every identifier is new");
    }
    reach!("ids");
});
kit::obligation!(symbols, native, |s| {
    let i = s.below(64) as usize;
    let all: Vec<(&str, u64)> = llrt::symbols().into_iter().collect();
    macro_rules! want { ($($f:ident)*) => { vec![$((stringify!($f), $f as usize as u64)),*] } }
    let want: Vec<(&str, u64)> = want!(llrt_init llrt_args llrt_symbols llrt_panic llrt_exit llrt_spawn_process llrt_execute_process llrt_wait llrt_time llrt_getcwd llrt_string_genid llrt_string_eq llrt_string_cmp llrt_string_concat llrt_f32_to_string llrt_f64_to_string llrt_i64_to_string llrt_u64_to_string llrt_string_to_i64 llrt_string_to_u64 llrt_string_to_f32 llrt_string_to_f64 llrt_readdir llrt_stdin llrt_stdout llrt_stderr llrt_current_errno llrt_xxh_seed);
    if i >= want.len() { discard() }
    note(|| format!("{}", want[i].0));
    chk!(all.iter().filter(|(n, _)| *n == want[i].0).map(|x| x.1).collect::<Vec<_>>() == [want[i].1], "a symbol names its function");
    reach!("symbol");
});
kit::obligation!(surroundings, native, |s| {
    // arguments: all but the program's own name
    let args: Vec<Vec<u8>> = (0..s.below(5)).map(|_| string(s).into_iter().filter(|c| *c != 0).collect()).collect();
    note(|| format!("arguments {:?}", args.iter().map(|a| show(a)).collect::<Vec<_>>()));
    let c: Vec<std::ffi::CString> = args.iter().map(|a| std::ffi::CString::new(a.clone()).unwrap()).collect();
    let mut p: Vec<*const u8> = c.iter().map(|c| c.as_ptr() as *const u8).collect();
    p.push(std::ptr::null());
    unsafe {
        if !args.is_empty() {
            llrt_init(args.len() as i32, p.as_ptr());
            let a = llrt_args();
            chk!(a.argc as usize == args.len() - 1, "every argument but the first is there");
            for i in 0..a.argc as usize { chk!(bytes(*a.argv.add(i)) == args[i + 1], "arguments are handed over in order"); }
        }
        chk!(bytes(llrt_getcwd()) == std::os::unix::ffi::OsStrExt::as_bytes(std::env::current_dir().unwrap().as_os_str()), "the working directory");
        let (a, b) = (llrt_xxh_seed(), llrt_xxh_seed());
        chk!(a != b, "hash seeds differ");
        if s.below(8) == 0 {
            // a directory's entries
            let d = std::env::temp_dir().join(format!("dir{}", std::process::id()));
            let _ = std::fs::remove_dir_all(&d);
            std::fs::create_dir_all(&d).unwrap();
            let mut want = std::collections::BTreeSet::from([b".".to_vec(), b"..".to_vec()]);
            for _ in 0..s.below(6) { let n = format!("f{}", "x".repeat(s.below(40) as usize)); std::fs::write(d.join(&n), "").unwrap(); want.insert(n.into_bytes()); }
            let cd = std::ffi::CString::new(d.to_str().unwrap()).unwrap();
            extern "C" { fn opendir(n: *const i8) -> *const u8; fn closedir(d: *const u8) -> i32; }
            let h = opendir(cd.as_ptr());
            let mut got = std::collections::BTreeSet::new();
            loop { let e = llrt_readdir(h); if e.len == 0 { break } chk!(got.insert(bytes(e)), "a directory entry is given once"); }
            closedir(h);
            std::fs::remove_dir_all(&d).unwrap();
            chk!(got == want, "a directory's entries are given");
        }
    }
    reach!("surroundings");
});
kit::obligation!(processes, native, |s| {
    if s.below(4) != 0 { discard() }
    extern "C" { fn fclose(f: *const u8) -> i32; fn fwrite(p: *const u8, n: usize, m: usize, f: *const u8) -> usize; fn fread(p: *mut u8, n: usize, m: usize, f: *const u8) -> usize; }
    let (spawn, code, missing) = (s.bool(), s.below(256) as i32, s.below(5) == 0);
    let input: Vec<u8> = (0..s.below(200)).map(|_| s.below(256) as u8).collect();
    note(|| format!("{} a process that {} with input {}", if spawn { "spawn" } else { "execute" }, if missing { "does not exist".into() } else { format!("exits with {}", code) }, show(&input)));
    let prog = if missing { "/nonexistent/program\0".as_bytes() } else { "/bin/sh\0".as_bytes() };
    let script = if spawn { format!("cat; echo err >&2; exit {}\0", code) } else { format!("exit {}\0", code) };
    let argv = [prog.as_ptr(), b"-c\0".as_ptr(), script.as_ptr(), std::ptr::null()];
    unsafe {
        let p = if spawn { llrt_spawn_process(prog.as_ptr(), argv.as_ptr()) } else { llrt_execute_process(prog.as_ptr(), argv.as_ptr()) };
        if missing {
            chk!(p.err == 2, "a program that does not exist gives the error");
            let mut st = 0; extern "C" { fn waitpid(p: i32, s: *mut i32, o: i32) -> i32; } waitpid(-1, &mut st, 0);
            reach!("missing");
            return;
        }
        chk!(p.err == 0 && p.pid > 0, "a program that exists is started");
        if spawn {
            chk!(fwrite(input.as_ptr(), 1, input.len(), p.cin) == input.len(), "the input is accepted");
            fclose(p.cin);
            let mut out = vec![0u8; 1024];
            let n = fread(out.as_mut_ptr(), 1, 1024, p.cout);
            chk!(out[..n] == input[..], "the process reads its input and its output is given");
            let n = fread(out.as_mut_ptr(), 1, 1024, p.cerr);
            chk!(&out[..n] == b"err\n", "the process's error output is given");
            fclose(p.cout);
            fclose(p.cerr);
        }
        chk!(llrt_wait(p.pid) == code, "the exit status is given");
    }
    reach!("process");
});
pub fn entries() -> Vec<Entry> {
    vec![
        kit::entry!("C22", c22::to_text, 4, native, "values drawn at random and around powers of the radix, all radices"),
        kit::entry!("C22", c22::from_text, 4, native, "numerals of at most 140 characters"),
        kit::entry!("C22", c22::float_text, 3, native, "numbers drawn at random"),
        kit::entry!("C22", c22::text_float, 3, native, "numerals of at most 80 characters"),
        kit::entry!("C22", c22::strings, 3, native, "strings of at most 300 bytes"),
        kit::entry!("C22", c22::ids, 1, native, "runs of at most 3000 identifiers"),
        kit::entry!("C22", c22::symbols, 1, native, "every symbol"),
        kit::entry!("C22", c22::surroundings, 1, native, "at most 4 arguments and 6 files"),
        kit::entry!("C22", c22::processes, 1, native, "inputs of at most 200 bytes"),
    ]
}
