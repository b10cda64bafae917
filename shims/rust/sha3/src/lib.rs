//! Offline stand-in for the part of the crate sha3 that is used: Keccak-256.
const RC: [u64; 24] = [
    0x0000000000000001, 0x0000000000008082, 0x800000000000808a, 0x8000000080008000, 0x000000000000808b, 0x0000000080000001,
    0x8000000080008081, 0x8000000000008009, 0x000000000000008a, 0x0000000000000088, 0x0000000080008009, 0x000000008000000a,
    0x000000008000808b, 0x800000000000008b, 0x8000000000008089, 0x8000000000008003, 0x8000000000008002, 0x8000000000000080,
    0x000000000000800a, 0x800000008000000a, 0x8000000080008081, 0x8000000000008080, 0x0000000080000001, 0x8000000080008008,
];
fn permute(a: &mut [u64; 25]) {
    for rc in RC {
        let mut c = [0u64; 5];
        for x in 0..5 { c[x] = a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20]; }
        for x in 0..5 {
            let d = c[(x + 4) % 5] ^ c[(x + 1) % 5].rotate_left(1);
            for y in 0..5 { a[x + 5 * y] ^= d; }
        }
        let (mut x, mut y, mut cur) = (1usize, 0usize, a[1]);
        for t in 0..24u32 {
            let (nx, ny) = (y, (2 * x + 3 * y) % 5);
            let next = a[nx + 5 * ny];
            a[nx + 5 * ny] = cur.rotate_left(((t + 1) * (t + 2) / 2) % 64);
            cur = next;
            x = nx;
            y = ny;
        }
        for y in 0..5 {
            let r = [a[5 * y], a[5 * y + 1], a[5 * y + 2], a[5 * y + 3], a[5 * y + 4]];
            for x in 0..5 { a[5 * y + x] = r[x] ^ (!r[(x + 1) % 5] & r[(x + 2) % 5]); }
        }
        a[0] ^= rc;
    }
}

#[repr(transparent)]
pub struct Output([u8; 32]);
impl<'a> From<&'a mut [u8; 32]> for &'a mut Output {
    fn from(b: &'a mut [u8; 32]) -> Self { unsafe { &mut *(b as *mut [u8; 32] as *mut Output) } }
}

pub trait Digest: Sized {
    fn new() -> Self;
    fn update(&mut self, data: impl AsRef<[u8]>);
    fn finalize_into(self, out: &mut Output);
}
pub struct Keccak256(Vec<u8>);
impl Digest for Keccak256 {
    fn new() -> Self { Self(Vec::new()) }
    fn update(&mut self, data: impl AsRef<[u8]>) { self.0.extend_from_slice(data.as_ref()); }
    fn finalize_into(mut self, out: &mut Output) {
        self.0.push(1);
        while self.0.len() % 136 != 0 { self.0.push(0); }
        *self.0.last_mut().unwrap() |= 0x80;
        let mut a = [0u64; 25];
        for block in self.0.chunks(136) {
            for (i, w) in block.chunks(8).enumerate() { a[i] ^= u64::from_le_bytes(w.try_into().unwrap()); }
            permute(&mut a);
        }
        for i in 0..4 { out.0[8 * i..8 * i + 8].copy_from_slice(&a[i].to_le_bytes()); }
    }
}
