//! Small deterministic PRNG (splitmix64 seeded xoshiro256**).

#[derive(Clone, Debug)]
pub struct Rng {
	s: [u64; 4],
}

pub fn mix(mut z: u64) -> u64 {
	z = z.wrapping_add(0x9E3779B97F4A7C15);
	z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
	z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
	z ^ (z >> 31)
}

/// Stable hash of a byte string (FNV-1a, mixed).
pub fn hash_bytes(data: &[u8]) -> u64 {
	let mut h: u64 = 0xcbf29ce484222325;
	for b in data {
		h ^= *b as u64;
		h = h.wrapping_mul(0x100000001b3);
	}
	mix(h)
}

impl Rng {
	pub fn new(seed: u64) -> Self {
		let mut x = seed;
		let mut s = [0; 4];
		for v in &mut s {
			x = x.wrapping_add(0x9E3779B97F4A7C15);
			*v = mix(x);
		}
		Self { s }
	}

	pub fn u64(&mut self) -> u64 {
		let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
		let t = self.s[1] << 17;
		self.s[2] ^= self.s[0];
		self.s[3] ^= self.s[1];
		self.s[1] ^= self.s[2];
		self.s[0] ^= self.s[3];
		self.s[2] ^= t;
		self.s[3] = self.s[3].rotate_left(45);
		r
	}

	pub fn u32(&mut self) -> u32 {
		(self.u64() >> 32) as u32
	}

	/// Uniform in 0..n (n > 0).
	pub fn below(&mut self, n: usize) -> usize {
		debug_assert!(n > 0);
		((self.u64() as u128 * n as u128) >> 64) as usize
	}

	/// Uniform in lo..=hi.
	pub fn range(&mut self, lo: usize, hi: usize) -> usize {
		lo + self.below(hi - lo + 1)
	}

	/// True with probability `num/den`.
	pub fn chance(&mut self, num: usize, den: usize) -> bool {
		self.below(den) < num
	}

	pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
		&items[self.below(items.len())]
	}

	pub fn fork(&mut self) -> Rng {
		Rng::new(self.u64())
	}

	pub fn bytes(&mut self, n: usize) -> Vec<u8> {
		let mut out = Vec::with_capacity(n + 8);
		while out.len() < n {
			out.extend_from_slice(&self.u64().to_le_bytes());
		}
		out.truncate(n);
		out
	}

	/// Index drawn with the given weights.
	pub fn weighted(&mut self, weights: &[usize]) -> usize {
		let total: usize = weights.iter().sum();
		let mut x = self.below(total.max(1));
		for (i, w) in weights.iter().enumerate() {
			if x < *w {
				return i;
			}
			x -= w;
		}
		weights.len() - 1
	}
}
