#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { (self.next() % n.max(1) as u64) as usize }
    pub fn u128(&mut self) -> u128 { (self.next() as u128) << 64 | self.next() as u128 }
}

/// A pool of raw keys of `bits` bits which collide in their high and low parts: a base, and
/// relatives of it which differ in few places.
pub fn pool(r: &mut Rng, bits: u32, n: usize) -> Vec<u128> {
    let mask: u128 = if bits >= 128 { u128::MAX } else { (1 << bits) - 1 };
    let mut out: Vec<u128> = vec![];
    let base = match r.below(4) { 0 => 0, 1 => mask, 2 => 1u128 << bits.saturating_sub(1), _ => r.u128() } & mask;
    out.push(base);
    let mut tries = 0;
    while out.len() < n && tries < 20 * n {
        tries += 1;
        let b = out[r.below(out.len())];
        let unit = if bits < 8 { 1 } else { 8u32.min(bits) };
        let x = match r.below(6) {
            0 => b.wrapping_add(1),
            1 => b.wrapping_sub(1),
            2 => r.u128(),
            _ => {
                let u = (r.below((bits / unit).max(1) as usize) as u32) * unit;
                let um: u128 = ((1u128 << unit) - 1) << u;
                let val = match r.below(6) { 0 => 0, 1 => 1, 2 => (1u128 << unit) - 1, 3 => 1u128 << (unit - 1), 4 => (1u128 << (unit - 1)) - 1, _ => r.u128() };
                (b & !um) | ((val << u) & um)
            }
        } & mask;
        if !out.contains(&x) { out.push(x); }
    }
    out
}

/// 100 to 256 keys which differ only in their first or last byte, or up to 700 which differ only in
/// ten neighbouring bits, in random, ascending or descending order.
pub fn bulk_pool(r: &mut Rng, bits: u32) -> Vec<u128> {
    let mask: u128 = if bits >= 128 { u128::MAX } else { (1 << bits) - 1 };
    let u = if r.below(3) == 0 { 0 } else { bits - 8 };
    let wide = bits >= 16 && r.below(4) == 0;
    let (u, n) = if wide { (if u == 0 { 0 } else { bits - 10 }, 1024u128) } else { (u, 256) };
    let base = r.u128() & mask & !((n - 1) << u);
    let mut v: Vec<u128> = (0..n).map(|i| base | i << u).collect();
    if r.below(4) != 0 { for i in (1..v.len()).rev() { let j = r.below(i + 1); v.swap(i, j); } }
    if r.below(3) == 0 { v.reverse(); }
    v.truncate(if wide { 257 + r.below(450) } else if r.below(2) == 0 { 256 } else { 100 + r.below(157) });
    v
}
