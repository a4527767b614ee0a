fn splitmix(x: u64) -> u64 {
    let mut z = x.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

/// Deterministic RNG handed to the code under test.
#[derive(Clone, Debug)]
pub struct DetRng(u64);

impl DetRng {
    pub fn new(seed: u64) -> Self {
        DetRng(splitmix(seed ^ 0xABCD_EF01))
    }
}

impl rand::RngCore for DetRng {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        splitmix(self.0)
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for chunk in dest.chunks_mut(8) {
            let b = self.next_u64().to_le_bytes();
            chunk.copy_from_slice(&b[..chunk.len()]);
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
impl rand::CryptoRng for DetRng {}

pub fn hash64<T: AsRef<[u8]>>(t: T) -> u64 {
    let h = blake3::hash(t.as_ref());
    u64::from_le_bytes(h.as_bytes()[..8].try_into().unwrap())
}
