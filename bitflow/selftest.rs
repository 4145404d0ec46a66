// Obligations with known answers. ok_*: must be analysed without events. bad_<kind>_*: must report an event of that kind.
pub fn ob_ok_add(x: u8) { let y = (x as u16) + 1; bf_check(y > x as u16, "grows"); bf_cover("end"); }
pub fn ob_ok_loop(x: [u8; 5]) { let mut n = 0u32; for b in x.iter() { if *b & 0x80 != 0 { n += 1; } } bf_check(n <= 5, "count"); bf_cover("end"); }
pub fn ob_ok_popcount(x: u16) { let mut n = 0u32; let mut y = x; while y != 0 { y &= y - 1; n += 1; } bf_eq(n, x.count_ones(), "popcount"); bf_cover("end"); }
pub fn ob_ok_vec(x: [u32; 4], n: u8) { bf_assume(n <= 4); let v: Vec<u32> = x[..n as usize].to_vec(); let mut it = v.iter().rev(); if n > 0 { bf_eq(*it.next().unwrap(), x[n as usize - 1], "last"); bf_cover("some"); } bf_eq(v.len(), n as usize, "len"); bf_cover("end"); }
pub fn ob_ok_string(x: u8) { bf_assume(x < 0x80); let s = String::from_utf8(std::vec![x, 0x41]); bf_check(s.is_ok(), "ascii"); bf_cover("end"); }
pub fn ob_bad_panic_macro(x: u32) { if x == 7 { panic!("seven"); } }
pub fn ob_bad_panic_noarg() { let v: Vec<u32> = Vec::new(); if v.is_empty() { panic!("always") } }
pub fn ob_bad_panic_fmt(x: u32) { if x == 7 { panic!("seven {}", x); } }
pub fn ob_bad_panic_assert(x: u8, y: u8) { assert!(x ^ y != 0x56); }
pub fn ob_bad_panic_asserteq(x: u32, y: u32) { assert_eq!(x & 1, y & 1); }
pub fn ob_bad_panic_debug_assert(x: u32) { debug_assert!(x != 9); }
pub fn ob_bad_panic_unwrap(x: u8) { let v: Option<u8> = if x == 3 { None } else { Some(x) }; v.unwrap(); }
pub fn ob_bad_panic_expect(x: u8) { let v: Result<u8, u8> = if x == 3 { Err(1) } else { Ok(x) }; v.expect("no"); }
pub fn ob_bad_panic_index(x: [u8; 4], i: u8) { bf_assume(i <= 4); let v = &x[..]; bf_check(v[i as usize] < 255 || true, ""); }
pub fn ob_bad_panic_slice(x: [u8; 4], i: u8) { bf_assume(i <= 5); let v = &x[..i as usize]; bf_check(v.len() < 9, ""); }
pub fn ob_bad_panic_overflow(x: u8) { let y = x + 1; bf_check(y < 255 || true, ""); }
pub fn ob_bad_panic_sub(x: usize) { let y = x - 1; bf_check(y != 3 || true, ""); }
pub fn ob_bad_panic_mul(x: u8) { let y = x * 2; bf_check(y != 3 || true, ""); }
pub fn ob_bad_panic_shift(x: u32) { bf_assume(x <= 32); let y = 1u32 << x; bf_check(y != 3 || true, ""); }
pub fn ob_bad_panic_div(x: u32) { let y = 100 / x; bf_check(y != 101, ""); }
pub fn ob_bad_panic_unreachable(x: u8) { match x & 3 { 0 | 1 | 2 => {} _ => unreachable!() } }
pub fn ob_bad_panic_refcell(x: u8) { let v = std::vec![1u8, 2, 3]; let i = (x & 3) as usize; bf_check(*v.get(i).unwrap() < 4, ""); }
pub fn ob_bad_panic_ux(x: u8) { bf_eq(u8::from(u7::new(x)), x, ""); }
pub fn ob_bad_panic_chunks(x: [u8; 3], n: u8) { bf_assume(n < 2); let c = x.chunks(n as usize).count(); bf_check(c < 4, ""); }
pub fn ob_bad_panic_copy(x: [u8; 3], n: u8) { bf_assume(n < 5); let mut d = [0u8; 4]; d[..3].copy_from_slice(&x); let e = d; let m = n as usize; if m > 3 { d[..2].copy_from_slice(&e[..3]); } }
pub fn ob_bad_panic_utf8(x: [u8; 2]) { let s = String::from_utf8(x.to_vec()).unwrap(); bf_check(s.len() == 2, ""); }
pub fn ob_bad_obligation_add(x: u8) { bf_check(x.wrapping_add(1) > x, "wraps"); }
pub fn ob_bad_obligation_eq(x: u32, y: u32) { bf_eq(x | y, x ^ y, "differs"); }
pub fn ob_bad_obligation_one(x: [u32; 2]) { bf_check(!(x[0] == 0xDEAD_BEEF && x[1] == 0x1234_5678), "one point in 2^64"); }
pub fn ob_bad_obligation_loop(x: [u8; 6]) { let mut n = 0u32; for b in x.iter() { if *b == 0x80 { n += 1; } } bf_check(n != 6, "count"); }
pub fn ob_bad_obligation_const() { bf_eq(1 + 1, 3, "arithmetic"); }
