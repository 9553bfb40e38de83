//! C06 when the process is running out of descriptors: a message is received with all its descriptors or not at all.
//! The limit applies to the whole process, so the cases run in a single-threaded child process.

use crate::kit::*;
use crate::report::{Obs, Report};
use crate::rng::{hash_bytes, Rng};
use crate::util::block_on;
use crate::wire::*;
use fizyr_rpc::transport::{Transport, TransportReadHalf};
use fizyr_rpc::*;
use std::os::fd::AsRawFd;
use std::time::Duration;

fn set_limit(n: u64) {
	unsafe {
		let mut l: libc::rlimit = std::mem::zeroed();
		libc::getrlimit(libc::RLIMIT_NOFILE, &mut l);
		l.rlim_cur = n.min(l.rlim_max);
		assert!(libc::setrlimit(libc::RLIMIT_NOFILE, &l) == 0);
	}
}

/// The limit with which exactly `k` more descriptors can be opened.
fn limit_for(k: usize) -> u64 {
	let mut open = std::collections::BTreeSet::new();
	for fd in 0..4000 {
		if unsafe { libc::fcntl(fd, libc::F_GETFD) } >= 0 {
			open.insert(fd);
		}
	}
	let (mut free, mut n) = (0, 0);
	while free < k {
		if !open.contains(&n) {
			free += 1;
		}
		n += 1;
	}
	n as u64
}

fn ids(b: &UnixBody) -> Vec<(u64, u64)> {
	b.fds.iter().map(|f| identity(f.as_raw_fd())).collect()
}

async fn case(seed: u64) -> (String, Option<String>, u64) {
	let mut rng = Rng::new(seed);
	let mut cfg = Cfg::default();
	cfg.fds_read = rng.range(1, 20) as u32;
	cfg.max_read = 200;
	let (a, b) = Seq::pair();
	let raw = Raw::new(b, true, cfg.end());
	let peer = rng.chance(1, 2);
	let mut transport = None;
	let mut handle = None;
	let mut task = None;
	if peer {
		let (p, h) = Peer::new(Seq::transport(a, &cfg));
		handle = Some(h);
		task = Some(tokio::spawn(p.run()));
	} else {
		transport = Some(Seq::transport(a, &cfg));
	}
	let mut trace = format!("peer={peer} limit={} ", cfg.fds_read);
	let mut dropped = 0;
	let mut all = vec![];
	for _ in 0..rng.range(1, 6) {
		let n = rng.below(cfg.fds_read as usize + 1);
		let k = if rng.chance(1, 4) { n + rng.below(3) } else { rng.below(n + 1) };
		let (fds, want): (Vec<_>, Vec<_>) = (0..n).map(|_| memfd("scarce")).unzip();
		all.extend(want.iter().copied());
		let raws: Vec<_> = fds.iter().map(|f| f.as_raw_fd()).collect();
		let body = { let n = rng.below(50); rng.bytes(n) };
		let after = rng.bytes(9);
		let mut e = Frame::new(STREAM, 0, 7, body.clone()).encode(cfg.end(), true);
		raw.try_send_some(&e, &raws).expect("send");
		e = Frame::new(STREAM, 0, 8, after.clone()).encode(cfg.end(), true);
		raw.try_send_some(&e, &[]).expect("send");
		drop(fds);
		trace += &format!("[{n} descriptors, room for {k}] ");
		set_limit(limit_for(k));
		let mut got = vec![];
		let mut bad = None;
		for _ in 0..2 {
			let r = tokio::time::timeout(Duration::from_secs(20), async {
				match (&mut transport, &mut handle) {
					(Some(t), _) => {
						let (mut r, _) = t.split();
						r.read_msg().await.map_err(|e| e.into_inner().to_string())
					}
					(_, Some(h)) => match h.recv_message().await {
						Ok(ReceivedMessage::Stream(m)) => Ok(m),
						Ok(_) => Err("not a stream message".into()),
						Err(e) => Err(e.to_string()),
					},
					_ => unreachable!(),
				}
			})
			.await;
			match r {
				Err(_) => {
					bad = Some("receiving does not complete".to_string());
					break;
				}
				Ok(r) => got.push(r),
			}
		}
		set_limit(u64::MAX);
		if bad.is_some() {
			return (trace, bad, dropped);
		}
		match &got[0] {
			Ok(m) if m.header.service_id == 7 => {
				let g = ids(&m.body);
				if g != want || m.body.data != body {
					return (trace, Some(format!("a message with {n} descriptors was delivered with {} (same files, in order: {})", g.len(), g == want)), dropped);
				}
			}
			Err(_) if k < n => dropped += 1,
			r => return (trace, Some(format!("a message with {n} descriptors with room for {k}: {:?}", r.as_ref().map(|m| m.header.service_id))), dropped),
		}
		match &got[1] {
			Ok(m) if m.header.service_id == 8 && m.body.data == after && m.body.fds.is_empty() => {}
			r => return (trace, Some(format!("the message after it: {:?}", r.as_ref().map(|m| m.header.service_id))), dropped),
		}
		drop(got);
		let left: usize = census(&want).iter().sum();
		if left != 0 {
			return (trace, Some(format!("{left} descriptors stayed open")), dropped);
		}
	}
	drop(transport);
	drop(handle);
	if let Some(t) = task {
		if tokio::time::timeout(Duration::from_secs(20), t).await.is_err() {
			return (trace, Some("the peer does not end".into()), dropped);
		}
	}
	(trace, None, dropped)
}

/// The child process.
pub fn child(seed: u64, n: u64) {
	crate::sim::install_panic_hook();
	set_limit(u64::MAX);
	for i in 0..n {
		let s = crate::rng::mix(seed.wrapping_add(i)) >> 1;
		let (trace, bad, dropped) = block_on(case(s));
		println!("{}", serde_json::json!({"seed": s, "trace": trace, "bad": bad, "dropped": dropped}));
	}
}

pub fn run(rep: &Report, quick: u64) {
	rep.rule("scarce: the process may open only a few more descriptors than it has; a message with descriptors is delivered with all of them or dropped with an error, and the next message is delivered; distinct = histories");
	let n = if rep.settings.thorough() { quick * 40 } else { quick };
	rep.run_cases("scarce", n, if rep.settings.thorough() { 200.0 } else { 60.0 }, 4, |seed| {
		let mut obs = Obs::default();
		let exe = std::env::current_exe().unwrap();
		let out = std::process::Command::new(exe).args(["__scarce", &seed.to_string(), "40"]).output();
		let Ok(out) = out else {
			obs.inconclusive = Some("no child process".into());
			return obs;
		};
		let mut lines = 0;
		for l in String::from_utf8_lossy(&out.stdout).lines() {
			let Ok(v) = serde_json::from_str::<serde_json::Value>(l) else { continue };
			lines += 1;
			let trace = v["trace"].as_str().unwrap_or("");
			obs.count("histories_short_of_descriptors", 1);
			obs.count("dropped_for_lack_of_descriptors", v["dropped"].as_u64().unwrap_or(0));
			obs.sample = trace.to_string();
			obs.signature = Some(hash_bytes(format!("{trace}{}", obs.signature.unwrap_or(0)).as_bytes()));
			if let Some(b) = v["bad"].as_str() {
				obs.violate("scarce", format!("{b}; history: {trace}"));
			}
		}
		if lines != 40 && obs.violations.is_empty() {
			let err = String::from_utf8_lossy(&out.stderr).chars().take(300).collect::<String>();
			if err.contains("/repo/") {
				obs.violate("panic", format!("the child process ended after {lines} cases: {err}"));
			} else {
				obs.inconclusive = Some(format!("child process: {err}"));
			}
		}
		obs
	});
	rep.require("dropped_for_lack_of_descriptors", 500);
}
