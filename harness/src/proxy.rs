//! Man in the middle between two peers: forwards bytes/datagrams in arbitrary pieces and records them.

use crate::kit::Raw;
use crate::rng::Rng;
use crate::sim::yields;
use std::cell::RefCell;
use std::os::fd::AsRawFd;
use std::rc::Rc;

#[derive(Debug, Clone)]
pub struct PumpCfg {
	/// Maximum bytes to take per read.
	pub max_read: usize,
	/// Maximum bytes per write.
	pub max_write: usize,
	/// Maximum number of scheduler yields between operations.
	pub delay: usize,
	/// Stop (cut the connection) after this many bytes / datagrams.
	pub cut_after: Option<usize>,
}

impl PumpCfg {
	pub fn random(rng: &mut Rng) -> Self {
		let pick = |rng: &mut Rng| match rng.below(6) {
			0 => 1,
			1 => 2 + rng.below(6),
			2 => 13 + rng.below(8),
			3 => 50 + rng.below(200),
			4 => 1000 + rng.below(4000),
			_ => 1 << 17,
		};
		PumpCfg {
			max_read: pick(rng),
			max_write: pick(rng),
			delay: if rng.chance(1, 2) { 0 } else { rng.below(6) },
			cut_after: None,
		}
	}
	pub fn transparent() -> Self {
		PumpCfg { max_read: 1 << 17, max_write: 1 << 17, delay: 0, cut_after: None }
	}
}

/// Everything seen in one direction.
#[derive(Default)]
pub struct WireLog {
	pub bytes: Vec<u8>,
	pub datagrams: Vec<(Vec<u8>, usize)>,
	pub eof: bool,
	pub error: Option<String>,
}

/// Forward from `from` to `to` until the end of the stream.
pub async fn pump(from: Rc<Raw>, to: Rc<Raw>, cfg: PumpCfg, mut rng: Rng, log: Rc<RefCell<WireLog>>) {
	let mut total = 0;
	loop {
		if cfg.delay > 0 {
			yields(rng.below(cfg.delay + 1)).await;
		}
		let n = if from.datagram { 1 << 18 } else { 1 + rng.below(cfg.max_read) };
		let (data, fds) = match from.recv_some(n).await {
			Ok(x) => x,
			Err(e) => {
				log.borrow_mut().error = Some(e.to_string());
				break;
			}
		};
		if data.is_empty() {
			log.borrow_mut().eof = true;
			break;
		}
		if from.datagram {
			log.borrow_mut().datagrams.push((data.clone(), fds.len()));
			let raw: Vec<_> = fds.iter().map(|x| x.as_raw_fd()).collect();
			if to.send_some(&data, &raw).await.is_err() {
				break;
			}
			total += 1;
			if cfg.cut_after.map_or(false, |c| total >= c) {
				break;
			}
		} else {
			log.borrow_mut().bytes.extend_from_slice(&data);
			let mut pos = 0;
			let mut end = data.len();
			if let Some(c) = cfg.cut_after {
				end = end.min(c - total);
			}
			while pos < end {
				let n = (1 + rng.below(cfg.max_write)).min(end - pos);
				match to.send_some(&data[pos..pos + n], &[]).await {
					Ok(k) => pos += k,
					Err(e) => {
						log.borrow_mut().error = Some(e.to_string());
						to.shutdown_write();
						return;
					}
				}
				if cfg.delay > 0 {
					yields(rng.below(cfg.delay + 1)).await;
				}
			}
			total += end;
			if cfg.cut_after.map_or(false, |c| total >= c) {
				break;
			}
		}
	}
	to.shutdown_write();
}
