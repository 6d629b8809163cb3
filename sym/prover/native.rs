//! Runs the prover command natively in a scenario: s[0] arguments (2 or 3), s[1] length of the input argument, s[2]
//! of the source, s[3] compiled entries, s[4] steps of the run, s[5] rows kept free, s[6] parameters stored, s[7] least k, s[8] blinding factors;
//! then input bytes, source bytes and compiled entries, one per word.
static mut S: &[u64] = &[];
static mut O: [u64; 4] = [0; 4]; // does not fit, transactions written, wrong, last transaction right
#[used]
pub static KEEP: extern "C" fn() -> u64 = prov::w_main;
unsafe fn part(i: usize) -> &'static [u64] {
    let (a, b, c) = (if S[0] > 2 { S[1] as usize } else { 0 }, S[2] as usize, S[3] as usize);
    match i { 0 => &S[9..9 + a], 1 => &S[9 + a..9 + a + b], _ => &S[9 + a + b..9 + a + b + c] }
}
unsafe fn raw<T>(p: *const u8, n: usize) -> &'static [T] { std::slice::from_raw_parts(p as *const T, n) }
#[no_mangle]
pub unsafe extern "C" fn vf_nargs() -> usize { S[0] as usize }
#[no_mangle]
pub unsafe extern "C" fn vf_arglen(i: usize) -> usize { if i == 2 { part(0).len() } else { 2 } }
#[no_mangle]
pub unsafe extern "C" fn vf_arg(i: usize, b: *mut u8) {
    if i == 2 { for (k, x) in part(0).iter().enumerate() { *b.add(k) = *x as u8 } } else { *b = b'a' + i as u8; *b.add(1) = b'.'; }
}
#[no_mangle]
pub unsafe extern "C" fn vf_open(p: *const u8, n: usize) -> u64 {
    let b: &[u8] = raw(p, n);
    if b == b"b." { 0 } else if n > 8 && b[n - 9] == 255 { if S[6] == 1 { 2 } else { 3 } } else { 1 }
}
#[no_mangle]
pub unsafe extern "C" fn vf_srclen() -> usize { S[2] as usize }
#[no_mangle]
pub unsafe extern "C" fn vf_src(b: *mut u8) { for (k, x) in part(1).iter().enumerate() { *b.add(k) = *x as u8 } }
#[no_mangle]
pub unsafe extern "C" fn vf_compile(p: *const u8, n: usize, o: *mut u16) -> usize {
    let b: &[u8] = raw(p, n);
    if !b.iter().map(|x| *x as u64).eq(part(1).iter().copied()) { O[2] += 1 }
    for (k, x) in part(2).iter().enumerate() { *o.add(k) = *x as u16 }
    part(2).len()
}
unsafe fn same(f: &[[u64; 4]], w: &[u64]) -> bool { f.len() == w.len() && f.iter().zip(w).all(|(a, b)| *a == [*b, 0, 0, 0]) }
#[no_mangle]
pub unsafe extern "C" fn vf_run(c: *const u8, n: usize, i: *const u8, m: usize) -> u64 {
    if same(raw(c, n), part(2)) && same(raw(i, m), part(0)) { 1 } else { O[2] += 1; 0 }
}
#[no_mangle]
pub unsafe extern "C" fn vf_rows(w: u64) -> usize {
    (match w { 0 | 2 => S[4] + 1, 1 => S[4] + 1 + S[3], 3 => part(0).len() as u64, 5 => S[3], _ => 0 }) as usize
}
#[no_mangle]
pub unsafe extern "C" fn vf_blinding() -> usize { S[8] as usize }
#[no_mangle]
pub unsafe extern "C" fn vf_fits(k: u64) -> u64 {
    if k >= S[7] && k < 40 && S[4] + 1 + S[3] + S[5] <= 1 << k { 1 } else { O[0] += 1; 0 }
}
#[no_mangle]
pub unsafe extern "C" fn vf_instances(p: *const u8, n: usize) -> u64 {
    let v: &[&[&[[u64; 4]]]] = raw(p, n);
    let w = |x: &[u64]| { let mut r = vec![x.len() as u64]; r.extend(x); r };
    (n == 1 && v[0].len() == 2 && same(v[0][0], &w(part(2))) && same(v[0][1], &w(part(0)))) as u64
}
#[no_mangle]
pub unsafe extern "C" fn vf_tx(p: *const u8, n: usize) {
    let v: &[(*const u8, usize)] = raw(p, n);
    let b = |i: usize| -> &[u8] { raw(v[i].0, v[i].1) };
    O[3] = (n >= 5
        && b(0).len() == 17 && b(0)[0] == 101 && b(0)[5..] == [42, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0]
        && b(1).len() == 15 && b(1)[..2] == [103, 2] && b(1)[2..6] == b(0)[1..5] && b(1)[6..] == [42, 0, 0, 0, 0, 0, 0, 0, 1]
        && b(2).len() == 14 && b(2)[0] == 99 && b(2)[1..5] == b(0)[1..5] && b(2)[5..] == [42, 0, 0, 0, 0, 0, 0, 0, 1]
        && b(3).iter().copied().eq(part(2).iter().flat_map(|x| [*x as u8, (*x >> 8) as u8]))
        && b(4).iter().map(|x| *x as u64).eq(part(0).iter().copied())) as u64;
}
#[no_mangle]
pub unsafe extern "C" fn vf_written(p: *const u8, n: usize, tx: u64) { if tx == 1 { O[1] += 1 } }
#[no_mangle]
pub unsafe extern "C" fn w_native(s: *const u64, n: *const u64, out: *mut u64) -> u64 {
    S = std::slice::from_raw_parts(s, *n as usize);
    std::panic::set_hook(Box::new(|_| {}));
    let r = std::panic::catch_unwind(|| prov::w_main());
    *out = r.unwrap_or(1000);
    for i in 0..4 { *out.add(1 + i) = O[i] }
    0
}
