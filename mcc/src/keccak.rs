//! Keccak-256 written from the specification (FIPS 202 permutation, original
//! padding 0x01), sharing nothing with the library's dependency.
fn f1600(a: &mut [[u64; 5]; 5]) {
    // a[x][y]; round constants and rotation offsets from their definitions
    let mut lfsr: u8 = 1;
    for _ in 0..24 {
        // theta
        let c: [u64; 5] = std::array::from_fn(|x| a[x][0] ^ a[x][1] ^ a[x][2] ^ a[x][3] ^ a[x][4]);
        for x in 0..5 {
            let d = c[(x + 4) % 5] ^ c[(x + 1) % 5].rotate_left(1);
            for y in 0..5 {
                a[x][y] ^= d;
            }
        }
        // rho and pi
        let (mut x, mut y) = (1usize, 0usize);
        let mut cur = a[x][y];
        for t in 0..24u32 {
            let (nx, ny) = (y, (2 * x + 3 * y) % 5);
            let tmp = a[nx][ny];
            a[nx][ny] = cur.rotate_left(((t + 1) * (t + 2) / 2) % 64);
            cur = tmp;
            (x, y) = (nx, ny);
        }
        // chi
        for y in 0..5 {
            let r: [u64; 5] = std::array::from_fn(|x| a[x][y]);
            for x in 0..5 {
                a[x][y] = r[x] ^ (!r[(x + 1) % 5] & r[(x + 2) % 5]);
            }
        }
        // iota
        for j in 0..7 {
            let bit = lfsr & 1;
            lfsr = (lfsr << 1) ^ (if lfsr & 0x80 != 0 { 0x71 } else { 0 });
            if bit == 1 {
                a[0][0] ^= 1u64 << ((1u32 << j) - 1);
            }
        }
    }
}
pub fn keccak256(data: &[u8]) -> [u8; 32] {
    const RATE: usize = 136;
    let mut m = data.to_vec();
    m.push(1);
    while m.len() % RATE != 0 {
        m.push(0);
    }
    *m.last_mut().unwrap() |= 0x80;
    let mut a = [[0u64; 5]; 5];
    for block in m.chunks(RATE) {
        for (i, w) in block.chunks(8).enumerate() {
            a[i % 5][i / 5] ^= u64::from_le_bytes(w.try_into().unwrap());
        }
        f1600(&mut a);
    }
    let mut o = [0; 32];
    for i in 0..4 {
        o[8 * i..8 * i + 8].copy_from_slice(&a[i][0].to_le_bytes());
    }
    o
}
