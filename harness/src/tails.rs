//! C14: long queues in front of an orderly end, on the scheduler of tokio (with its cooperative budget), also while the
//! peer is stuck in a write because the remote is slow to read.

use crate::kit::*;
use crate::report::*;
use crate::rng::{hash_bytes, Rng};
use crate::util::*;
use crate::wire::*;
use fizyr_rpc::*;
use std::os::fd::AsRawFd;
use std::time::Duration;

const PATIENCE: Duration = Duration::from_secs(25);

async fn all_frames(raw: &Raw) -> (Vec<Frame>, String) {
	let mut out = vec![];
	loop {
		match raw.recv_event().await {
			RawEvent::Frame(f, _) => out.push(f),
			RawEvent::Eof(0) => return (out, String::new()),
			// A reset comes without a clean end, but only after what was sent before it.
			RawEvent::Error(e) if e.kind() == std::io::ErrorKind::ConnectionReset => return (out, String::new()),
			RawEvent::Eof(n) => return (out, format!("{n} bytes of an incomplete message at the end")),
			e => return (out, format!("{e:?}")),
		}
	}
}

/// Many messages arrive and then the connection ends.
async fn incoming<K: Kit>(seed: u64) -> Obs where K::T: Send, K::B: Send + Sync {
	let mut rng = Rng::new(seed);
	let mut obs = Obs::default();
	let cfg = Cfg::default();
	let (a, b) = K::pair();
	let small = rng.chance(1, 2);
	set_bufs(a.as_raw_fd(), if small { 4096 } else { 0 }, 0);
	// Sometimes everything is in the socket before the peer runs at all.
	let late = rng.chance(1, 3);
	if late {
		set_bufs(b.as_raw_fd(), 1 << 22, 0);
		set_bufs(a.as_raw_fd(), 0, 1 << 22);
	}
	let (p, h) = Peer::new(K::transport(a, &cfg));
	let raw = Raw::new(b, K::DATAGRAM, cfg.end());
	let mut peer = Some(p);
	let mut run = if late { None } else { Some(tokio::spawn(peer.take().unwrap().run())) };
	let (mut read, write) = h.split();
	let mut sent = None;
	if !late && rng.chance(2, 3) {
		// An open request to send updates to.
		let w = write.clone();
		let t = tokio::spawn(async move { w.send_request(1, K::body(vec![])).await });
		let RawEvent::Frame(_, _) = raw.recv_event().await else {
			obs.inconclusive = Some("no request".into());
			return obs;
		};
		sent = t.await.unwrap().ok();
	}
	// Sends that get stuck.
	let mut stuck = vec![];
	let blocked = rng.chance(1, 2);
	if blocked {
		let n = rng.range(1, 200);
		let len = if rng.chance(1, 2) { 8000 } else { rng.below(8192) };
		for i in 0..n {
			let w = write.clone();
			let body = tagged_body(i as u64, len);
			stuck.push((i as u64, tokio::spawn(async move { w.send_stream(5, K::body(body)).await })));
		}
		for _ in 0..rng.below(400) {
			tokio::task::yield_now().await;
		}
	}
	let n = if rng.chance(1, 2) { rng.range(1, 300) } else { rng.range(100, 3000) };
	let n = if late { n.min(400) } else { n };
	let mut main = vec![];
	let mut updates = vec![];
	let mut answer = None;
	let before_yield = rng.below(200);
	for i in 0..n {
		let body = tagged_body(i as u64, 8 + rng.below(20));
		let f = match (&sent, rng.below(3)) {
			(Some(s), 0) => {
				let f = Frame::new(RESP_UPDATE, s.request_id(), 9, body);
				updates.push(f.clone());
				f
			}
			(_, 1) => {
				let f = Frame::new(REQUEST, 1000 + i as u32, 9, body);
				main.push(f.clone());
				f
			}
			_ => {
				let f = Frame::new(STREAM, 0, 9, body);
				main.push(f.clone());
				f
			}
		};
		if tokio::time::timeout(PATIENCE, raw.send_frame(&f)).await.map(|r| r.is_err()).unwrap_or(true) {
			obs.inconclusive = Some("the remote cannot send".into());
			return obs;
		}
		if before_yield > 100 && i % before_yield == 0 {
			tokio::task::yield_now().await;
		}
	}
	if let (Some(s), true) = (&sent, rng.chance(1, 2)) {
		let f = Frame::new(RESPONSE, s.request_id(), 9, vec![1; 9]);
		let _ = tokio::time::timeout(PATIENCE, raw.send_frame(&f)).await;
		answer = Some(f);
	}
	raw.shutdown_write();
	obs.sample = format!("{}: {} messages, {} updates, then the remote ends its sending; peer late: {late}, blocked in a write: {blocked} ({} sends)", K::NAME, main.len(), updates.len(), stuck.len());
	obs.signature = Some(hash_bytes(format!("{} {seed}", obs.sample).as_bytes()));
	if late {
		run = Some(tokio::spawn(peer.take().unwrap().run()));
	}
	for _ in 0..rng.below(60) {
		tokio::task::yield_now().await;
	}
	// Now the remote reads.
	let drain = tokio::task::spawn_local(async move {
		let r = tokio::time::timeout(PATIENCE, all_frames(&raw)).await;
		(raw, r)
	});
	let mut got = vec![];
	let end = loop {
		match tokio::time::timeout(PATIENCE, read.recv_message()).await {
			Err(_) => break "nothing more comes and no end either".to_string(),
			Ok(Err(e)) if e.is_connection_aborted() => break String::new(),
			Ok(Err(e)) => break format!("error {e}"),
			Ok(Ok(ReceivedMessage::Stream(m))) => got.push(frame_of::<K>(m)),
			Ok(Ok(ReceivedMessage::Request(r, b))) => got.push(Frame::new(REQUEST, r.request_id(), r.service_id(), K::data(&b).to_vec())),
		}
	};
	if !end.is_empty() {
		obs.violate("tail-end", format!("{}: after {} of {} messages: {end}", obs.sample, got.len(), main.len()));
		return obs;
	}
	if let Some(d) = first_diff(&main, &got) {
		obs.violate("tail-lost", format!("{}: {d}", obs.sample));
		return obs;
	}
	obs.count("tail_messages", got.len() as u64);
	if let Some(mut s) = sent {
		let r = tokio::time::timeout(PATIENCE, async {
			let mut u = vec![];
			while let Some(m) = s.recv_update().await {
				u.push(frame_of::<K>(m));
			}
			(u, s.recv_response().await.ok().map(frame_of::<K>))
		})
		.await;
		match r {
			Err(_) => obs.violate("tail-end", format!("{}: receiving from the request does not complete", obs.sample)),
			Ok((u, a)) => {
				if let Some(d) = first_diff(&updates, &u) {
					obs.violate("tail-lost", format!("{}: updates: {d}", obs.sample));
				} else if a != answer {
					obs.violate("tail-lost", format!("{}: the response: expected {answer:?}, got {a:?}", obs.sample));
				}
				obs.count("tail_updates", u.len() as u64);
			}
		}
	}
	// What was acknowledged has arrived.
	let Ok(Ok((_raw, Ok((wire, problem))))) = tokio::time::timeout(PATIENCE, drain).await else {
		obs.violate("tail-end", format!("{}: the remote does not see the end", obs.sample));
		return obs;
	};
	if !problem.is_empty() {
		obs.violate("tail-wire", format!("{}: {problem}", obs.sample));
	}
	let on_wire: Vec<u64> = wire.iter().filter_map(|f| uid_of(&f.body)).collect();
	for (uid, t) in stuck {
		if let Ok(Ok(Ok(()))) = tokio::time::timeout(PATIENCE, t).await {
			obs.count("stuck_sends_acknowledged", 1);
			if !wire.is_empty() && wire[0].body.len() >= 8 && !on_wire.contains(&uid) {
				obs.violate("ack-lost", format!("{}: stream {uid} was acknowledged and is not on the wire", obs.sample));
			}
		}
	}
	if let Some(r) = run {
		let _ = tokio::time::timeout(PATIENCE, r).await;
	}
	obs
}

/// Many messages are sent and then the sender ends the connection; the remote reads later.
async fn outgoing<K: Kit>(seed: u64) -> Obs where K::T: Send, K::B: Send + Sync {
	let mut rng = Rng::new(seed);
	let mut obs = Obs::default();
	let cfg = Cfg::default();
	let (a, b) = K::pair();
	if rng.chance(1, 2) {
		set_bufs(a.as_raw_fd(), 4096, 0);
	}
	let (p, h) = Peer::new(K::transport(a, &cfg));
	let raw = Raw::new(b, K::DATAGRAM, cfg.end());
	let run = tokio::spawn(p.run());
	let (read, write) = h.split();
	let mut rcvd = vec![];
	let mut read = Some(read);
	for i in 0..rng.below(3) {
		let _ = raw.send_frame(&Frame::new(REQUEST, i as u32, 1, vec![])).await;
		match tokio::time::timeout(PATIENCE, read.as_mut().unwrap().recv_message()).await {
			Ok(Ok(ReceivedMessage::Request(r, _))) => rcvd.push(r),
			_ => {
				obs.inconclusive = Some("no request".into());
				return obs;
			}
		}
	}
	let n = rng.range(1, 600);
	let max = if rng.chance(1, 2) { 40 } else { 8192 };
	let slow = rng.below(3);
	let mut plan = vec![];
	for i in 0..n {
		let body = tagged_body(i as u64, 8 + rng.below(max - 7));
		plan.push((rng.below(10), body));
	}
	let how = rng.below(5);
	let concurrent = rng.chance(1, 2);
	obs.sample = format!("{}: {n} messages up to {max} bytes, then end {how}, concurrent: {concurrent}, remote {slow}", K::NAME);
	obs.signature = Some(hash_bytes(format!("{} {seed}", obs.sample).as_bytes()));
	let reader = tokio::task::spawn_local(async move {
		for _ in 0..slow * 100 {
			tokio::task::yield_now().await;
		}
		let mut out = vec![];
		loop {
			if slow == 2 && out.len() % 7 == 0 {
				tokio::task::yield_now().await;
			}
			match raw.recv_event().await {
				RawEvent::Frame(f, _) => out.push(f),
				RawEvent::Eof(0) => return (out, String::new()),
				e => return (out, format!("{e:?}")),
			}
		}
	});
	let mut acked = vec![];
	if concurrent {
		let mut tasks = vec![];
		for (i, (k, body)) in plan.into_iter().enumerate() {
			let w = write.clone();
			let r = if k < 4 && !rcvd.is_empty() { Some(rcvd[i % rcvd.len()].write_handle()) } else { None };
			tasks.push(tokio::spawn(async move {
				match r {
					Some(r) => r.send_update(3, K::body(body)).await.is_ok(),
					None if k == 9 => w.send_request(4, K::body(body)).await.is_ok(),
					None => w.send_stream(5, K::body(body)).await.is_ok(),
				}
			}));
		}
		// Only some of them are waited for.
		let wait = if rng.chance(1, 2) { tasks.len() } else { rng.below(tasks.len() + 1) };
		for _ in 0..rng.below(50) {
			tokio::task::yield_now().await;
		}
		let c = write.close_handle();
		let mut ended = false;
		let total = tasks.len();
		let mut write = Some(write);
		for (i, t) in tasks.into_iter().enumerate() {
			if i >= wait && !ended {
				ended = true;
				if how < 3 {
					c.close();
				} else {
					read = None;
					rcvd.clear();
					write = None;
				}
			}
			match tokio::time::timeout(PATIENCE, t).await {
				Ok(Ok(true)) => acked.push(i as u64),
				Ok(_) => {}
				Err(_) => {
					obs.foreign.push(Violation::new("send-hangs", format!("send {i} of {total} does not complete")));
					obs.inconclusive = Some("a send does not complete".into());
					return obs;
				}
			}
		}
		if !ended {
			c.close();
		}
		drop(write);
	} else {
		let mut next = rcvd.len();
		for (i, (k, body)) in plan.into_iter().enumerate() {
			let r = tokio::time::timeout(PATIENCE, async {
				if k < 4 && !rcvd.is_empty() {
					rcvd[i % rcvd.len()].send_update(3, K::body(body)).await.is_ok()
				} else if k == 9 {
					write.send_request(4, K::body(body)).await.is_ok()
				} else if k == 8 && next > 0 && i * 2 > n {
					next -= 1;
					rcvd[next].send_response(6, K::body(body)).await.is_ok()
				} else {
					write.send_stream(5, K::body(body)).await.is_ok()
				}
			})
			.await;
			match r {
				Ok(true) => acked.push(i as u64),
				Ok(false) => {}
				Err(_) => {
					obs.inconclusive = Some("a send does not complete".into());
					return obs;
				}
			}
		}
		match how {
			0 => write.close(),
			1 => read.as_ref().unwrap().close(),
			2 => write.close_handle().close(),
			3 => {
				read = None;
				drop(write);
			}
			_ => {
				drop(write);
				read = None;
			}
		}
	}
	drop(read);
	match tokio::time::timeout(PATIENCE, reader).await {
		Ok(Ok((wire, problem))) => {
			if !problem.is_empty() {
				obs.violate("tail-wire", format!("{}: at the end of the connection the remote got {problem} after {} messages", obs.sample, wire.len()));
				return obs;
			}
			let got: std::collections::BTreeSet<u64> = wire.iter().filter_map(|f| uid_of(&f.body)).collect();
			if got.len() != wire.len() {
				obs.violate("duplicate", format!("{}: {} different messages among {} on the wire", obs.sample, got.len(), wire.len()));
			}
			if let Some(u) = acked.iter().find(|u| !got.contains(u)) {
				obs.violate("ack-lost", format!("{}: message {u} was acknowledged and did not arrive ({} of {} arrived)", obs.sample, got.len(), acked.len()));
			}
			if !concurrent {
				let order: Vec<u64> = wire.iter().filter_map(|f| uid_of(&f.body)).collect();
				if order.windows(2).any(|w| w[0] >= w[1]) {
					obs.violate("order", format!("{}: messages sent one after the other arrive out of order", obs.sample));
				}
			}
			obs.count("acknowledged_before_end", acked.len() as u64);
		}
		_ => obs.inconclusive = Some("the remote does not see the end".into()),
	}
	let _ = tokio::time::timeout(PATIENCE, run).await;
	obs
}

pub fn run(rep: &Report, quick: u64) {
	rep.rule("tails: up to 3000 queued messages in front of an orderly end (of the remote, with the peer possibly stuck in a write; or of the local side with a slow remote), on tokio's own scheduler; distinct = cases");
	let t = rep.settings.thorough();
	let n = if t { quick * 40 } else { quick };
	let secs = if t { 300.0 } else { 60.0 };
	rep.run_cases("tails-in", n, secs, 8, |seed| {
		block_on(tokio::task::LocalSet::new().run_until(async move {
			match seed % 3 {
				0 => incoming::<UnixS>(seed).await,
				1 => incoming::<Tcp>(seed).await,
				_ => incoming::<Seq>(seed).await,
			}
		}))
	});
	rep.run_cases("tails-out", n, secs, 8, |seed| {
		block_on(tokio::task::LocalSet::new().run_until(async move {
			match seed % 3 {
				0 => outgoing::<UnixS>(seed).await,
				1 => outgoing::<Tcp>(seed).await,
				_ => outgoing::<Seq>(seed).await,
			}
		}))
	});
	rep.require("tail_messages", 50_000);
	rep.require("tail_updates", 10_000);
	rep.require("stuck_sends_acknowledged", 1000);
	rep.require("acknowledged_before_end", 50_000);
}
