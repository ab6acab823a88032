//! SHA-256 compression (state as eight native little-endian words, as the sha2 crate keeps it).
pub fn compress(state: &[u8], block: &[u8]) -> [u8; 32] {
    let frac = |p: u64, cube: bool| -> u32 { // first 32 fractional bits of the square or cube root
        let mut lo = 0u128; let mut hi = 1u128 << 36;
        while lo + 1 < hi { let m = (lo + hi) / 2; let ok = if cube { // m^3 <= p * 2^96
                mul3(m, p) } else { m * m <= (p as u128) << 64 }; if ok { lo = m } else { hi = m } }
        lo as u32
    };
    fn mul3(m: u128, p: u64) -> bool { // m < 2^36, m^3 < 2^108 fits
        m * m * m <= (p as u128) << 96
    }
    thread_local! { static KS: std::cell::RefCell<Vec<u32>> = const { std::cell::RefCell::new(Vec::new()) }; }
    let k: Vec<u32> = KS.with(|c| { let mut c = c.borrow_mut(); if c.is_empty() { let mut n = 2u64; while c.len() < 64 { if (2..n).all(|d| n % d != 0) { c.push(frac(n, true)); } n += 1; } } c.clone() });
    let mut w = [0u32; 64];
    for i in 0..16 { w[i] = u32::from_be_bytes(block[i * 4..i * 4 + 4].try_into().unwrap()); }
    for i in 16..64 {
        let s0 = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ (w[i - 15] >> 3);
        let s1 = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ (w[i - 2] >> 10);
        w[i] = w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1);
    }
    let s: Vec<u32> = (0..8).map(|i| u32::from_le_bytes(state[i * 4..i * 4 + 4].try_into().unwrap())).collect();
    let (mut a, mut b, mut c, mut d, mut e, mut f, mut g, mut h) = (s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7]);
    for i in 0..64 {
        let t1 = h.wrapping_add(e.rotate_right(6) ^ e.rotate_right(11) ^ e.rotate_right(25)).wrapping_add((e & f) ^ (!e & g)).wrapping_add(k[i]).wrapping_add(w[i]);
        let t2 = (a.rotate_right(2) ^ a.rotate_right(13) ^ a.rotate_right(22)).wrapping_add((a & b) ^ (a & c) ^ (b & c));
        h = g; g = f; f = e; e = d.wrapping_add(t1); d = c; c = b; b = a; a = t1.wrapping_add(t2);
    }
    let mut o = [0u8; 32];
    for (i, x) in [a, b, c, d, e, f, g, h].iter().enumerate() { o[i * 4..i * 4 + 4].copy_from_slice(&s[i].wrapping_add(*x).to_le_bytes()); }
    o
}
#[test]
fn empty() {
    let iv: [u32; 8] = [0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19];
    let s: Vec<u8> = iv.iter().flat_map(|x| x.to_le_bytes()).collect();
    let mut b = [0u8; 64]; b[0] = 0x80;
    let o = compress(&s, &b);
    assert_eq!(&o[..4], &0xe3b0c442u32.to_le_bytes());
    assert_eq!(&o[28..], &0x7852b855u32.to_le_bytes());
}
