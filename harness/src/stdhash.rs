//! Keccak-256 (original padding) and SHA-256, written from their definitions.

pub fn keccak256(data: &[u8]) -> [u8; 32] {
    const RATE: usize = 136;
    let mut s = [[0u64; 5]; 5]; // s[x][y]
    let mut m = data.to_vec();
    m.push(1);
    while m.len() % RATE != 0 { m.push(0); }
    let last = m.len() - 1;
    m[last] |= 0x80;
    for block in m.chunks(RATE) {
        for (i, w) in block.chunks(8).enumerate() { s[i % 5][i / 5] ^= u64::from_le_bytes([w[0], w[1], w[2], w[3], w[4], w[5], w[6], w[7]]); }
        permute(&mut s);
    }
    let mut r = [0u8; 32];
    for i in 0..4 { r[8 * i..8 * i + 8].copy_from_slice(&s[i][0].to_le_bytes()); }
    r
}

fn permute(s: &mut [[u64; 5]; 5]) {
    // rotations and round constants from their recurrences
    let mut rot = [[0u32; 5]; 5];
    let (mut x, mut y) = (1, 0);
    for t in 0..24u32 { rot[x][y] = ((t + 1) * (t + 2) / 2) % 64; let ny = (2 * x + 3 * y) % 5; x = y; y = ny; }
    let mut lfsr = 1u8;
    for _ in 0..24 {
        let c: Vec<u64> = (0..5).map(|x| (0..5).fold(0, |a, y| a ^ s[x][y])).collect();
        for x in 0..5 { let d = c[(x + 4) % 5] ^ c[(x + 1) % 5].rotate_left(1); for y in 0..5 { s[x][y] ^= d; } }
        let mut b = [[0u64; 5]; 5];
        for x in 0..5 { for y in 0..5 { b[y][(2 * x + 3 * y) % 5] = s[x][y].rotate_left(rot[x][y]); } }
        for x in 0..5 { for y in 0..5 { s[x][y] = b[x][y] ^ (!b[(x + 1) % 5][y] & b[(x + 2) % 5][y]); } }
        let mut rc = 0u64;
        for j in 0..7 {
            if lfsr & 1 == 1 { rc |= 1u64 << ((1u32 << j) - 1); }
            lfsr = (lfsr << 1) ^ if lfsr & 0x80 != 0 { 0x71 } else { 0 };
        }
        s[0][0] ^= rc;
    }
}

/// first 32 bits of the fractional part of the k-th root of p
fn frac_root(p: u128, k: u32) -> u32 {
    // the largest r with r^k <= p * 2^(32 k)
    let (mut lo, mut hi) = (0u128, 1u128 << 36);
    while lo + 1 < hi {
        let m = (lo + hi) / 2;
        let ok = if k == 2 { m * m <= p << 64 } else { m * m * m <= p << 96 };
        if ok { lo = m } else { hi = m }
    }
    lo as u32
}

pub fn sha256(data: &[u8]) -> [u8; 32] {
    let primes: Vec<u128> = (2u128..320).filter(|n| (2..*n).all(|d| n % d != 0)).take(64).collect();
    thread_local! { static K: std::cell::RefCell<Vec<u32>> = std::cell::RefCell::new(vec![]); }
    let k = K.with(|k| { let mut k = k.borrow_mut(); if k.is_empty() { *k = primes.iter().map(|p| frac_root(*p, 3)).collect(); } k.clone() });
    let mut h: Vec<u32> = primes.iter().take(8).map(|p| frac_root(*p, 2)).collect();
    let mut m = data.to_vec();
    m.push(0x80);
    while m.len() % 64 != 56 { m.push(0); }
    m.extend_from_slice(&(data.len() as u64 * 8).to_be_bytes());
    for block in m.chunks(64) {
        let mut w: Vec<u32> = block.chunks(4).map(|b| u32::from_be_bytes([b[0], b[1], b[2], b[3]])).collect();
        for i in 16..64 {
            let s0 = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ w[i - 15] >> 3;
            let s1 = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ w[i - 2] >> 10;
            w.push(w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1));
        }
        let mut v = h.clone();
        for i in 0..64 {
            let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
            let ch = v[4] & v[5] ^ !v[4] & v[6];
            let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(k[i]).wrapping_add(w[i]);
            let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
            let t2 = s0.wrapping_add(v[0] & v[1] ^ v[0] & v[2] ^ v[1] & v[2]);
            v = vec![t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
        }
        for i in 0..8 { h[i] = h[i].wrapping_add(v[i]); }
    }
    let mut r = [0u8; 32];
    for i in 0..8 { r[4 * i..4 * i + 4].copy_from_slice(&h[i].to_be_bytes()); }
    r
}

#[cfg(test)]
mod tests {
    #[test]
    fn vectors() {
        let x = |b: &[u8]| b.iter().map(|x| format!("{:02x}", x)).collect::<String>();
        assert_eq!(x(&super::keccak256(b"")), "c5d2460186f7233c927e7db2dcc703c0e500b653ca82273b7bfad8045d85a470");
        assert_eq!(x(&super::keccak256(b"abc")), "4e03657aea45a94fc7d47ba826c8d667c0d1e6e33a64a036ec44f58fa12d6c45");
        assert_eq!(x(&super::sha256(b"")), "e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855");
        assert_eq!(x(&super::sha256(b"abc")), "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad");
    }
}
