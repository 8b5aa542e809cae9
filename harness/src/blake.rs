//! Blake2s from RFC 7693 with key and personalisation, Keccak-256 and SHA-256: independent of the crates used by the library.
const IV: [u32; 8] = [0x6A09E667, 0xBB67AE85, 0x3C6EF372, 0xA54FF53A, 0x510E527F, 0x9B05688C, 0x1F83D9AB, 0x5BE0CD19];
const SIGMA: [[usize; 16]; 10] = [
    [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15],
    [14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3],
    [11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4],
    [7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8],
    [9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13],
    [2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9],
    [12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11],
    [13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10],
    [6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5],
    [10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0],
];

fn compress(h: &mut [u32; 8], block: &[u8; 64], t: u64, last: bool) {
    let mut m = [0u32; 16];
    for i in 0..16 {
        m[i] = u32::from_le_bytes([block[4 * i], block[4 * i + 1], block[4 * i + 2], block[4 * i + 3]]);
    }
    let mut v = [0u32; 16];
    v[..8].copy_from_slice(h);
    v[8..].copy_from_slice(&IV);
    v[12] ^= t as u32;
    v[13] ^= (t >> 32) as u32;
    if last { v[14] = !v[14]; }
    fn g(v: &mut [u32; 16], a: usize, b: usize, c: usize, d: usize, x: u32, y: u32) {
        v[a] = v[a].wrapping_add(v[b]).wrapping_add(x);
        v[d] = (v[d] ^ v[a]).rotate_right(16);
        v[c] = v[c].wrapping_add(v[d]);
        v[b] = (v[b] ^ v[c]).rotate_right(12);
        v[a] = v[a].wrapping_add(v[b]).wrapping_add(y);
        v[d] = (v[d] ^ v[a]).rotate_right(8);
        v[c] = v[c].wrapping_add(v[d]);
        v[b] = (v[b] ^ v[c]).rotate_right(7);
    }
    for s in SIGMA.iter() {
        g(&mut v, 0, 4, 8, 12, m[s[0]], m[s[1]]);
        g(&mut v, 1, 5, 9, 13, m[s[2]], m[s[3]]);
        g(&mut v, 2, 6, 10, 14, m[s[4]], m[s[5]]);
        g(&mut v, 3, 7, 11, 15, m[s[6]], m[s[7]]);
        g(&mut v, 0, 5, 10, 15, m[s[8]], m[s[9]]);
        g(&mut v, 1, 6, 11, 12, m[s[10]], m[s[11]]);
        g(&mut v, 2, 7, 8, 13, m[s[12]], m[s[13]]);
        g(&mut v, 3, 4, 9, 14, m[s[14]], m[s[15]]);
    }
    for i in 0..8 { h[i] ^= v[i] ^ v[i + 8]; }
}

pub fn blake2s(key: &[u8], personal: &[u8; 8], data: &[u8]) -> [u8; 32] {
    let mut h = IV;
    h[0] ^= 0x01010000 ^ ((key.len() as u32) << 8) ^ 32;
    h[6] ^= u32::from_le_bytes([personal[0], personal[1], personal[2], personal[3]]);
    h[7] ^= u32::from_le_bytes([personal[4], personal[5], personal[6], personal[7]]);
    let mut input = vec![];
    if !key.is_empty() {
        let mut k = key.to_vec();
        k.resize(64, 0);
        input.extend(k);
    }
    input.extend_from_slice(data);
    let total = input.len();
    let mut off = 0;
    loop {
        let rest = total - off;
        let mut block = [0u8; 64];
        if rest > 64 {
            block.copy_from_slice(&input[off..off + 64]);
            off += 64;
            compress(&mut h, &block, off as u64, false);
        } else {
            block[..rest].copy_from_slice(&input[off..]);
            compress(&mut h, &block, total as u64, true);
            break;
        }
    }
    let mut out = [0u8; 32];
    for i in 0..8 { out[4 * i..4 * i + 4].copy_from_slice(&h[i].to_le_bytes()); }
    out
}

pub fn hodor_hash(data: &[u8]) -> [u8; 32] {
    blake2s(b"Squeamish Ossifrage", b"Shaftoe\0", data)
}

const RC: [u64; 24] = [
    0x0000000000000001, 0x0000000000008082, 0x800000000000808a, 0x8000000080008000, 0x000000000000808b, 0x0000000080000001,
    0x8000000080008081, 0x8000000000008009, 0x000000000000008a, 0x0000000000000088, 0x0000000080008009, 0x000000008000000a,
    0x000000008000808b, 0x800000000000008b, 0x8000000000008089, 0x8000000000008003, 0x8000000000008002, 0x8000000000000080,
    0x000000000000800a, 0x800000008000000a, 0x8000000080008081, 0x8000000000008080, 0x0000000080000001, 0x8000000080008008];

fn keccak_f(a: &mut [[u64; 5]; 5]) {
    for rc in RC.iter() {
        let mut c = [0u64; 5];
        for x in 0..5 { c[x] = a[x][0] ^ a[x][1] ^ a[x][2] ^ a[x][3] ^ a[x][4]; }
        for x in 0..5 {
            let d = c[(x + 4) % 5] ^ c[(x + 1) % 5].rotate_left(1);
            for y in 0..5 { a[x][y] ^= d; }
        }
        let mut b = [[0u64; 5]; 5];
        let (mut x, mut y) = (1usize, 0usize);
        b[0][0] = a[0][0];
        for t in 0..24u32 {
            let r = ((t + 1) * (t + 2) / 2) % 64;
            let v = a[x][y].rotate_left(r);
            let (nx, ny) = (y, (2 * x + 3 * y) % 5);
            b[nx][ny] = v;
            x = nx;
            y = ny;
        }
        for x in 0..5 { for y in 0..5 { a[x][y] = b[x][y] ^ (!b[(x + 1) % 5][y] & b[(x + 2) % 5][y]); } }
        a[0][0] ^= rc;
    }
}

pub fn keccak256(data: &[u8]) -> [u8; 32] {
    let rate = 136;
    let mut p = data.to_vec();
    p.push(1);
    while p.len() % rate != 0 { p.push(0); }
    let l = p.len();
    p[l - 1] |= 0x80;
    let mut a = [[0u64; 5]; 5];
    for chunk in p.chunks(rate) {
        for i in 0..rate / 8 {
            let mut w = [0u8; 8];
            w.copy_from_slice(&chunk[8 * i..8 * i + 8]);
            a[i % 5][i / 5] ^= u64::from_le_bytes(w);
        }
        keccak_f(&mut a);
    }
    let mut out = [0u8; 32];
    for i in 0..4 { out[8 * i..8 * i + 8].copy_from_slice(&a[i % 5][i / 5].to_le_bytes()); }
    out
}

pub fn sha256(data: &[u8]) -> [u8; 32] {
    // constants from their definition: fractional parts of roots of the first primes
    fn primes(n: usize) -> Vec<u64> {
        let mut v: Vec<u64> = vec![];
        let mut k = 2u64;
        while v.len() < n { if v.iter().all(|p| k % p != 0) { v.push(k); } k += 1; }
        v
    }
    fn root_frac(p: u64, cube: bool) -> u32 {
        // floor(2^32 * frac(p^(1/2) or p^(1/3))) by binary search over integers
        let (mut lo, mut hi) = (0u128, 1u128 << 40);
        let n = if cube { (p as u128) << 96 } else { (p as u128) << 64 };
        while lo + 1 < hi {
            let m = (lo + hi) / 2;
            let v = if cube { m.checked_mul(m).and_then(|x| x.checked_mul(m)) } else { m.checked_mul(m) };
            match v { Some(v) if v <= n => lo = m, _ => hi = m }
        }
        lo as u32
    }
    let pr = primes(64);
    let mut h: Vec<u32> = pr.iter().take(8).map(|p| root_frac(*p, false)).collect();
    let k: Vec<u32> = pr.iter().map(|p| root_frac(*p, true)).collect();
    let mut m = data.to_vec();
    m.push(0x80);
    while m.len() % 64 != 56 { m.push(0); }
    m.extend_from_slice(&((data.len() as u64) * 8).to_be_bytes());
    for chunk in m.chunks(64) {
        let mut w = [0u32; 64];
        for i in 0..16 { w[i] = u32::from_be_bytes([chunk[4 * i], chunk[4 * i + 1], chunk[4 * i + 2], chunk[4 * i + 3]]); }
        for i in 16..64 {
            let s0 = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ (w[i - 15] >> 3);
            let s1 = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ (w[i - 2] >> 10);
            w[i] = w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1);
        }
        let mut v = h.clone();
        for i in 0..64 {
            let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
            let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
            let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(k[i]).wrapping_add(w[i]);
            let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
            let maj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
            let t2 = s0.wrapping_add(maj);
            v = vec![t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
        }
        for i in 0..8 { h[i] = h[i].wrapping_add(v[i]); }
    }
    let mut out = [0u8; 32];
    for i in 0..8 { out[4 * i..4 * i + 4].copy_from_slice(&h[i].to_be_bytes()); }
    out
}

fn h(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }

/// published answers, so that a mistake here cannot pass for a mistake of the library
pub fn self_test() {
    assert_eq!(h(&keccak256(b"")), "c5d2460186f7233c927e7db2dcc703c0e500b653ca82273b7bfad8045d85a470");
    assert_eq!(h(&sha256(b"abc")), "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad");
    assert_eq!(h(&blake2s(b"", &[0; 8], b"abc")), "508c5e8c327c14e2e1a72ba34eeb452f37458b209ed63a294d999b4c86675982");
}
