//! C16 at the level of transports: read and write futures are polled a few times, dropped and created again.

use crate::kit::*;
use crate::report::*;
use crate::rng::{hash_bytes, Rng};
use crate::sim::driver_turn;
use crate::util::*;
use crate::wire::*;
use fizyr_rpc::transport::*;
use std::collections::VecDeque;
use std::future::Future;
use std::os::fd::AsRawFd;
use std::pin::Pin;
use std::task::{Context, Poll, Waker};

/// Poll a future at most `n` times, with turns of the I/O driver in between.
async fn poll_some<F: Future + Unpin>(fut: &mut F, n: usize, turns: bool) -> Option<F::Output> {
	for _ in 0..n {
		if turns {
			driver_turn().await;
		}
		let mut cx = Context::from_waker(Waker::noop());
		if let Poll::Ready(x) = Pin::new(&mut *fut).poll(&mut cx) {
			return Some(x);
		}
	}
	None
}

async fn case<K: Kit>(seed: u64) -> Obs {
	let mut rng = Rng::new(seed);
	let mut obs = Obs::default();
	let mut cfg = Cfg::default();
	cfg.endian = *rng.pick(&[ECfg::Little, ECfg::Big, ECfg::Native]);
	let (a, b) = K::pair();
	if rng.chance(1, 2) && !K::TCP {
		set_bufs(a.as_raw_fd(), 4608, 0);
		set_bufs(b.as_raw_fd(), 4608, 0);
	}
	let raw = Raw::new(b, K::DATAGRAM, cfg.end());
	let mut transport = K::transport(a, &cfg);
	let (mut read, mut write) = transport.split();
	let n = 3 + rng.below(12);
	let mk = |rng: &mut Rng, i: usize| Frame::new(rng.below(5) as u32, any_u32(rng), any_i32(rng), tagged_body(i as u64, size(rng, 6000)));
	let inbound: Vec<Frame> = (0..n).map(|i| mk(&mut rng, i)).collect();
	let outbound: Vec<Frame> = (0..n).map(|i| mk(&mut rng, 1000 + i)).collect();
	// Pieces to feed.
	let mut pieces: VecDeque<Vec<u8>> = VecDeque::new();
	if K::DATAGRAM {
		pieces.extend(inbound.iter().map(|f| f.datagram(cfg.end())));
	} else {
		let all: Vec<u8> = inbound.iter().flat_map(|f| f.stream(cfg.end())).collect();
		let mut at = 0;
		let style = rng.below(3);
		while at < all.len() {
			let k = match style {
				0 => 1 + rng.below(8),
				1 => 1 + rng.below(400),
				_ => 1 + rng.below(5000),
			}
			.min(all.len() - at);
			pieces.push_back(all[at..at + k].to_vec());
			at += k;
		}
	}
	obs.sample = format!("{} {} messages each way, {} pieces", K::NAME, n, pieces.len());
	obs.signature = Some(hash_bytes(&seed.to_le_bytes()));
	let mut got: Vec<Frame> = vec![];
	let mut arrived: Vec<Frame> = vec![];
	let mut next_out = 0;
	let mut idle = 0;
	let mut dropped_reads = 0;
	let mut dropped_writes = 0;
	let mut failure = None;
	while got.len() < n || next_out < n || arrived.len() < n {
		idle += 1;
		if idle > 20_000 {
			failure = Some(format!("no progress: {} of {n} read, {next_out} of {n} written, {} of {n} arrived", got.len(), arrived.len()));
			break;
		}
		match rng.below(4) {
			0 => {
				for _ in 0..1 + rng.below(4) {
					let Some(p) = pieces.front_mut() else { break };
					match raw.try_send_some(p, &[]) {
						Ok(k) if k == p.len() || K::DATAGRAM => {
							pieces.pop_front();
							idle = 0;
						}
						Ok(k) => {
							p.drain(..k);
							idle = 0;
						}
						Err(_) => break,
					}
				}
			}
			1 => {
				for e in raw.drain() {
					match e {
						RawEvent::Frame(f, _) => arrived.push(f),
						e => failure = Some(format!("what was written is wrong after {} messages: {e:?}", arrived.len())),
					}
					idle = 0;
				}
			}
			2 if got.len() < n => {
				let mut fut = read.read_msg();
				match poll_some(&mut fut, rng.below(4), rng.chance(2, 3)).await {
					None => dropped_reads += 1,
					Some(Ok(m)) => {
						got.push(frame_of::<K>(m));
						idle = 0;
					}
					Some(Err(e)) => failure = Some(format!("read_msg fails after {} messages: {e}", got.len())),
				}
			}
			3 if next_out < n => {
				// The same values, but in a new place every time.
				let f = outbound[next_out].clone();
				let (h, body) = (header(f.ty, f.id, f.svc), K::body(f.body));
				let mut fut = write.write_msg(&h, &body);
				match poll_some(&mut fut, rng.below(4), rng.chance(2, 3)).await {
					None => dropped_writes += 1,
					Some(Ok(())) => {
						next_out += 1;
						idle = 0;
					}
					Some(Err(e)) => failure = Some(format!("write_msg fails after {next_out} messages: {e}")),
				}
			}
			_ => driver_turn().await,
		}
		if failure.is_some() {
			break;
		}
		if idle > 200 && K::TCP {
			std::thread::sleep(std::time::Duration::from_micros(50));
		}
	}
	obs.count("dropped_reads", dropped_reads);
	obs.count("dropped_writes", dropped_writes);
	obs.count("raw_messages", got.len() as u64 + arrived.len() as u64);
	let label = obs.sample.clone();
	if let Some(f) = failure {
		obs.violate("raw-cancel", format!("{label}: {f}"));
	} else if let Some(d) = first_diff(&inbound, &got) {
		obs.violate("raw-read", format!("{label}: {}", &d[..d.len().min(300)]));
	} else if let Some(d) = first_diff(&outbound, &arrived) {
		obs.violate("raw-write", format!("{label}: {}", &d[..d.len().min(300)]));
	}
	obs
}

pub fn run(rep: &Report, quick: u64) {
	rep.rule("rawcancel: read_msg() and write_msg() futures of the transports are polled up to three times, dropped and created again, with fragmented input; both directions must carry exactly the messages");
	let t = rep.settings.thorough();
	let n = if t { quick * 40 } else { quick };
	let secs = if t { 200.0 } else { 40.0 };
	rep.run_cases("rawcancel", n, secs, 8, |seed| {
		block_on(async move {
			match seed % 3 {
				0 => case::<UnixS>(seed).await,
				1 => case::<Tcp>(seed).await,
				_ => case::<Seq>(seed).await,
			}
		})
	});
	rep.require("dropped_reads", 2000);
	rep.require("dropped_writes", 2000);
}
