//! Helpers shared by the checks.

use crate::report::Obs;
use crate::rng::Rng;
use crate::sim::Sim;

/// Run an async case on a fresh current_thread runtime (reused per worker thread).
pub fn block_on<F: std::future::Future>(fut: F) -> F::Output {
	thread_local! {
		static RT: tokio::runtime::Runtime = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
	}
	RT.with(|rt| rt.block_on(fut))
}

/// Panics inside simulated tasks are violations when they come from the crate.
pub fn check_panics(sim: &Sim, obs: &mut Obs) {
	for p in sim.0.panics.borrow().iter() {
		if crate::report::in_repo(&p.location) || p.task.starts_with("peer") {
			obs.violate("panic", format!("task {} panicked at {}: {}", p.task, p.location, p.message));
		} else {
			obs.inconclusive = Some(format!("harness task {} panicked at {}: {}", p.task, p.location, p.message));
		}
	}
}

/// Body with a unique id and derived contents: any corruption is recognisable.
pub fn tagged_body(uid: u64, len: usize) -> Vec<u8> {
	let mut out = Vec::with_capacity(len + 8);
	let mut r = Rng::new(uid ^ 0x5bd1e995);
	out.extend_from_slice(&uid.to_le_bytes());
	while out.len() < len {
		out.extend_from_slice(&r.u64().to_le_bytes());
	}
	out.truncate(len);
	out
}

pub fn uid_of(body: &[u8]) -> Option<u64> {
	body.get(..8).map(|b| u64::from_le_bytes(b.try_into().unwrap()))
}

/// First difference between two lists, for messages.
pub fn first_diff<T: PartialEq + std::fmt::Debug>(expected: &[T], got: &[T]) -> Option<String> {
	for (i, e) in expected.iter().enumerate() {
		match got.get(i) {
			None => return Some(format!("item {i} missing ({} of {} received): expected {e:?}", got.len(), expected.len())),
			Some(g) if g != e => return Some(format!("item {i} differs: expected {e:?}, got {g:?}")),
			_ => {}
		}
	}
	if got.len() > expected.len() {
		return Some(format!("extra item {}: {:?}", expected.len(), got[expected.len()]));
	}
	None
}

/// Interesting body sizes up to a limit.
pub fn size(rng: &mut Rng, max: usize) -> usize {
	let s = match rng.below(12) {
		0 => 0,
		1 => 1,
		2 => rng.below(16),
		3..=6 => rng.below(64),
		7 => rng.below(300),
		8 => rng.below(5000),
		9 => max,
		10 => max.saturating_sub(1 + rng.below(20)),
		_ => rng.below(max + 1),
	};
	s.min(max)
}

pub fn any_u32(rng: &mut Rng) -> u32 {
	match rng.below(6) {
		0 => rng.below(5) as u32,
		1 => u32::MAX - rng.below(3) as u32,
		2 => 1 << rng.below(32),
		3 => 0x01020304,
		_ => rng.u32(),
	}
}

pub fn any_i32(rng: &mut Rng) -> i32 {
	match rng.below(6) {
		0 => rng.below(5) as i32,
		1 => -(rng.below(4) as i32),
		2 => i32::MIN + rng.below(2) as i32,
		3 => i32::MAX,
		_ => rng.u32() as i32,
	}
}
