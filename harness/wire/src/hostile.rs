//! Hostile byte strings: structured mutations of valid encodings and noise.
use mon::Rng;

pub fn mutate(r: &mut Rng, base: &[u8], other: &[u8]) -> Vec<u8> {
    let mut b = base.to_vec();
    let rounds = if r.chance(1, 6) { r.range(2, 5) } else { 1 };
    for _ in 0..rounds {
        let n = b.len();
        match r.below(12) {
            0 if n > 0 => {
                let i = r.below(n as u64) as usize;
                b[i] ^= 1 << r.below(8);
            }
            1 if n > 0 => {
                let i = r.below(n as u64) as usize;
                b[i] = *r.pick(&[0, 1, 2, 0x7f, 0x80, 0x81, 0xfb, 0xfc, 0xfd, 0xfe, 0xff]);
            }
            2 if n > 0 => b.truncate(r.below(n as u64) as usize),
            3 => {
                let extra = r.range(1, 12);
                b.extend(r.bytes(extra));
            }
            4 if n > 0 => {
                let i = r.below(n as u64) as usize;
                b.remove(i);
            }
            5 => {
                let i = r.below(n as u64 + 1) as usize;
                b.insert(i, r.next() as u8);
            }
            // claim an absurd length / widest integer at some position
            6 | 7 => {
                let i = r.below(n as u64 + 1) as usize;
                let v: u64 = match r.below(6) {
                    0 => u64::MAX,
                    1 => i64::MAX as u64,
                    2 => 1 << r.below(64),
                    3 => u32::MAX as u64,
                    4 => (1 << 31) - 1,
                    _ => r.next(),
                };
                let mut ins = match r.below(4) {
                    0 => vec![0xfe, v as u8, (v >> 8) as u8],
                    1 => [&[0xfd][..], &(v as u32).to_le_bytes()].concat(),
                    _ => [&[0xfc][..], &v.to_le_bytes()].concat(),
                };
                if r.bool() && n > 0 {
                    let i = i.min(n - 1);
                    let tail = b.split_off(i + 1);
                    b.pop();
                    b.append(&mut ins);
                    b.extend(tail);
                } else {
                    let tail = b.split_off(i);
                    b.append(&mut ins);
                    b.extend(tail);
                }
            }
            8 => {
                let i = r.below(n as u64 + 1) as usize;
                let j = r.below(other.len() as u64 + 1) as usize;
                b.truncate(i);
                b.extend(&other[j..]);
            }
            9 if n > 1 => {
                let (i, j) = (r.below(n as u64) as usize, r.below(n as u64) as usize);
                b.swap(i, j);
            }
            10 if n > 0 => {
                let i = r.below(n as u64) as usize;
                let k = r.range(1, 6).min(n - i);
                let seg = b[i..i + k].to_vec();
                let tail = b.split_off(i);
                b.extend(&seg);
                b.extend(tail);
            }
            _ => {
                let k = r.range(0, 24);
                b = r.bytes(k);
                // small values are the interesting ones
                for x in b.iter_mut() {
                    if r.chance(2, 3) {
                        *x &= 3;
                    }
                }
            }
        }
    }
    b
}
