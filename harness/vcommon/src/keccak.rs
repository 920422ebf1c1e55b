//! Keccak-256 written from the specification (1600-bit state, rate 136, 0x01 padding);
//! the reference for every hash in the repository.
pub fn keccak256(data: &[u8]) -> [u8; 32] {
    let mut st = [[0_u64; 5]; 5]; // st[x][y]
    let mut msg = data.to_vec();
    msg.push(1);
    while msg.len() % 136 != 0 {
        msg.push(0);
    }
    *msg.last_mut().unwrap() |= 0x80;
    for block in msg.chunks(136) {
        for i in 0..17 {
            let mut w = [0_u8; 8];
            w.copy_from_slice(&block[8 * i..8 * i + 8]);
            st[i % 5][i / 5] ^= u64::from_le_bytes(w);
        }
        permute(&mut st);
    }
    let mut out = [0_u8; 32];
    for i in 0..4 {
        out[8 * i..8 * i + 8].copy_from_slice(&st[i % 5][i / 5].to_le_bytes());
    }
    out
}
/// first 20 bytes, rest zero
pub fn masked(data: &[u8]) -> [u8; 32] {
    let mut h = keccak256(data);
    h[20..].iter_mut().for_each(|b| *b = 0);
    h
}
const ROT: [[u32; 5]; 5] = {
    // rho offsets by the (t+1)(t+2)/2 walk
    let mut r = [[0_u32; 5]; 5];
    let (mut x, mut y) = (1_usize, 0_usize);
    let mut t = 0;
    while t < 24 {
        r[x][y] = ((t + 1) * (t + 2) / 2 % 64) as u32;
        let (nx, ny) = (y, (2 * x + 3 * y) % 5);
        x = nx;
        y = ny;
        t += 1;
    }
    r
};
const RC: [u64; 24] = {
    // iota constants from the degree-8 LFSR
    let mut rc = [0_u64; 24];
    let mut lfsr = 1_u8;
    let mut i = 0;
    while i < 24 {
        let mut j = 0;
        while j < 7 {
            if lfsr & 1 == 1 {
                rc[i] |= 1_u64 << ((1_u32 << j) - 1);
            }
            let hi = lfsr & 0x80 != 0;
            lfsr <<= 1;
            if hi {
                lfsr ^= 0x71;
            }
            j += 1;
        }
        i += 1;
    }
    rc
};
fn permute(a: &mut [[u64; 5]; 5]) {
    for rc in RC {
        let mut c = [0_u64; 5];
        for x in 0..5 {
            c[x] = a[x][0] ^ a[x][1] ^ a[x][2] ^ a[x][3] ^ a[x][4];
        }
        for x in 0..5 {
            let d = c[(x + 4) % 5] ^ c[(x + 1) % 5].rotate_left(1);
            for y in 0..5 {
                a[x][y] ^= d;
            }
        }
        let mut b = [[0_u64; 5]; 5];
        for x in 0..5 {
            for y in 0..5 {
                b[y][(2 * x + 3 * y) % 5] = a[x][y].rotate_left(ROT[x][y]);
            }
        }
        for x in 0..5 {
            for y in 0..5 {
                a[x][y] = b[x][y] ^ (!b[(x + 1) % 5][y] & b[(x + 2) % 5][y]);
            }
        }
        a[0][0] ^= rc;
    }
}
#[cfg(test)]
mod tests {
    #[test]
    fn known() {
        let h: String = super::keccak256(b"").iter().map(|b| format!("{:02x}", b)).collect();
        assert_eq!(h, "c5d2460186f7233c927e7db2dcc703c0e500b653ca82273b7bfad8045d85a470");
    }
}
