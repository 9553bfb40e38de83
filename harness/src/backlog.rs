//! Things that pile up. C08, C18: far more messages than a 16-bit counter can count, queued for sending or waiting to be
//! received. C12: requests that are on their way through a peer when its read handle is dropped.

use crate::kit::*;
use crate::report::*;
use crate::rng::{hash_bytes, Rng};
use crate::sim::*;
use crate::util::*;
use crate::wire::*;
use fizyr_rpc::*;
use std::collections::BTreeSet;
use std::future::Future;
use std::os::fd::AsRawFd;
use std::pin::Pin;
use std::rc::Rc;
use std::time::Duration;

const PATIENCE: Duration = Duration::from_secs(60);

fn tag(n: u64) -> Vec<u8> {
	n.to_le_bytes().to_vec()
}

/// Send everything, many messages in each write.
async fn feed(raw: &Raw, frames: impl Iterator<Item = Frame>) -> Result<(), String> {
	let mut buf = vec![];
	for f in frames {
		if raw.datagram {
			raw.send_frame(&f).await.map_err(|e| format!("the connection is gone: {e}"))?;
		} else {
			buf.extend_from_slice(&f.encode(raw.end, false));
			if buf.len() > 50_000 {
				raw.send_all(&buf).await.map_err(|e| format!("the connection is gone: {e}"))?;
				buf.clear();
			}
		}
	}
	if !buf.is_empty() {
		raw.send_all(&buf).await.map_err(|e| format!("the connection is gone: {e}"))?;
	}
	Ok(())
}

async fn next(raw: &Raw) -> Result<Frame, String> {
	match raw.recv_event().await {
		RawEvent::Frame(f, _) => Ok(f),
		e => Err(format!("on the wire: {e:?}")),
	}
}

/// `updates`: on one request in each direction; otherwise requests and streams.
async fn volume<K: Kit>(rng: &mut Rng, obs: &mut Obs, updates: bool) -> Result<String, String>
where
	K::T: Send,
	K::B: Send + Sync,
{
	let n = *rng.pick(&[66_000u64, 66_000, 70_000, 132_000]) + rng.below(1000) as u64;
	let incoming = rng.chance(1, 2);
	let cfg = Cfg::default();
	let what = format!("{}: {n} {} {}", K::NAME, if updates { "updates" } else { "requests and streams" }, if incoming { "waiting to be received" } else { "waiting to be sent" });
	let fail = |e: String| format!("{what}: {e}");
	let (a, b) = K::pair();
	let raw = Raw::new(b, K::DATAGRAM, cfg.end());
	let mut h = Peer::spawn(K::transport(a, &cfg));
	// One open request in each direction.
	let mut s = h.send_request(1, K::body(vec![1])).await.map_err(|e| fail(e.to_string()))?;
	next(&raw).await.map_err(fail)?;
	raw.send_frame(&Frame::new(0, 77, 2, vec![2])).await.map_err(|e| fail(e.to_string()))?;
	let mut r = match h.recv_message().await {
		Ok(ReceivedMessage::Request(r, _)) => r,
		_ => return Err(fail("a request does not arrive".into())),
	};
	let requester = rng.chance(1, 2);
	let id = s.request_id();
	if incoming {
		let salt = rng.u64();
		let kind = move |i: u64| if updates { if requester { 3 } else { 2 } } else if (salt ^ i.wrapping_mul(0x9e37_79b9_7f4a_7c15)) >> 61 == 0 { 0 } else { 4 };
		let fence = h.send_request(9, K::body(vec![])).await.map_err(|e| fail(e.to_string()))?;
		next(&raw).await.map_err(fail)?;
		let mut fence = fence;
		let fid = fence.request_id();
		let frames = (0..n).map(|i| {
			let ty = kind(i);
			let id = match ty {
				0 => 1_000_000 + i as u32,
				2 => 77,
				3 => id,
				_ => 0,
			};
			Frame::new(ty, id, (i % 1000) as i32, tag(i))
		});
		let mut last = vec![Frame::new(1, fid, 3, vec![])];
		if updates && requester {
			last.insert(0, Frame::new(1, id, 4, tag(n)));
		}
		let w = {
		let mut jam: Vec<Pin<Box<dyn Future<Output = Result<(), Error>> + '_>>> = vec![];
		if rng.chance(1, 2) {
			// The peer is stuck in a write, and takes in all of it before it can handle any of it.
			set_bufs(raw.raw_fd(), 0, 60_000);
			obs.count("jams", 1);
			for _ in 0..400 {
				jam.push(Box::pin(h.send_stream(6, K::body(vec![6; 3000]))));
			}
			std::future::poll_fn(|cx| {
				jam.retain_mut(|f| f.as_mut().poll(cx).is_pending());
				std::task::Poll::Ready(())
			})
			.await;
		}
		if jam.is_empty() {
			let (f, w) = tokio::join!(feed(&raw, frames.chain(last)), fence.recv_response());
			f.map_err(fail)?;
			w
		} else {
			feed(&raw, frames.chain(last)).await.map_err(fail)?;
			tokio::time::sleep(Duration::from_millis(20)).await;
			for _ in 0..jam.len() {
				let f = next(&raw).await.map_err(fail)?;
				if f.svc != 6 || f.body.len() != 3000 {
					return Err(fail(format!("type {} service {} with {} bytes on the wire", f.ty, f.svc, f.body.len())));
				}
			}
			for f in jam {
				f.await.map_err(|e| fail(e.to_string()))?;
			}
			fence.recv_response().await
		}
		};
		w.map_err(|e| fail(format!("the response to another request does not arrive: {e}")))?;
		for i in 0..n {
			let (svc, got, request) = match (updates, requester) {
				(true, true) => match s.recv_update().await {
					Some(m) => (m.header.service_id, m.body, false),
					None => return Err(fail(format!("no update after {i} of them"))),
				},
				(true, false) => match r.recv_update().await {
					Some(m) => (m.header.service_id, m.body, false),
					None => return Err(fail(format!("no update after {i} of them"))),
				},
				_ => match h.recv_message().await {
					Ok(ReceivedMessage::Request(r, b)) => (r.service_id(), b, true),
					Ok(ReceivedMessage::Stream(m)) => (m.header.service_id, m.body, false),
					Err(e) => return Err(fail(format!("after {i} of them: {e}"))),
				},
			};
			if K::data(&got) != &tag(i)[..] || svc != (i % 1000) as i32 || request != (kind(i) == 0) {
				return Err(fail(format!("received number {:?} (service {svc}, request {request}) in place of number {i}", uid_of(K::data(&got)))));
			}
		}
		if updates && requester {
			match s.recv_response().await {
				Ok(m) if K::data(&m.body) == &tag(n)[..] => (),
				Ok(_) => return Err(fail("another response".into())),
				Err(e) => return Err(fail(format!("the response does not arrive: {e}"))),
			}
		}
	} else {
		// The peer does not run before all of them have been handed over.
		let mut list: Vec<Pin<Box<dyn Future<Output = Result<(), Error>> + '_>>> = vec![];
		for i in 0..n {
			let body = K::body(tag(i));
			let svc = (i % 1000) as i32;
			let h = &h;
			list.push(match (updates, requester) {
				(true, true) => Box::pin(s.send_update(svc, body)),
				(true, false) => Box::pin(r.send_update(svc, body)),
				_ if i % 16 == 3 => Box::pin(async move { h.send_request(svc, body).await.map(drop) }),
				_ => Box::pin(h.send_stream(svc, body)),
			});
		}
		let mut done = vec![false; n as usize];
		let mut early = None;
		std::future::poll_fn(|cx| {
			for (i, f) in list.iter_mut().enumerate() {
				if let std::task::Poll::Ready(x) = f.as_mut().poll(cx) {
					done[i] = true;
					if let Err(e) = x {
						early.get_or_insert((i, e.to_string()));
					}
				}
			}
			std::task::Poll::Ready(())
		})
		.await;
		if let Some((i, e)) = early {
			return Err(fail(format!("number {i} is refused: {e}")));
		}
		let send = async {
			for (i, f) in list.iter_mut().enumerate() {
				if !done[i] {
					f.as_mut().await.map_err(|e| format!("number {i} is refused: {e}"))?;
				}
			}
			Ok::<_, String>(())
		};
		let recv = async {
			for i in 0..n {
				let f = next(&raw).await?;
				let ty = match (updates, requester) {
					(true, true) => 2,
					(true, false) => 3,
					_ if i % 16 == 3 => 0,
					_ => 4,
				};
				if f.body != tag(i) || f.ty != ty || f.svc != (i % 1000) as i32 || updates && f.id != if requester { id } else { 77 } {
					return Err(format!("{f:?} on the wire in place of number {i}"));
				}
			}
			Ok(())
		};
		let (a, b) = tokio::join!(send, recv);
		b.map_err(fail)?;
		a.map_err(fail)?;
	}
	obs.count("volume_messages", n);
	obs.counts.entry("max_backlog".into()).and_modify(|v| *v = (*v).max(n)).or_insert(n);
	Ok(what)
}

async fn volume_case<K: Kit>(seed: u64, updates: bool) -> Obs
where
	K::T: Send,
	K::B: Send + Sync,
{
	let mut rng = Rng::new(seed);
	let mut obs = Obs::default();
	match tokio::time::timeout(PATIENCE, volume::<K>(&mut rng, &mut obs, updates)).await {
		Ok(Ok(s)) => obs.sample = s,
		Ok(Err(e)) => obs.violate("volume", e),
		Err(_) => obs.violate("volume-hang", format!("{}: no end after {PATIENCE:?}", K::NAME)),
	}
	obs.signature = Some(hash_bytes(format!("{}{seed}", obs.sample).as_bytes()));
	obs
}

pub fn run_volume(rep: &Report, updates: bool, quick: u64) {
	rep.rule("volume: 66 000 to 133 000 messages queued for sending before the peer runs, or received by it before the user reads the first; distinct = cases");
	let t = rep.settings.thorough();
	rep.run_cases("volume", if t { quick * 15 } else { quick }, if t { 200.0 } else { 90.0 }, 4, |seed| {
		block_on(async move {
			match seed % 3 {
				0 => volume_case::<UnixS>(seed, updates).await,
				1 => volume_case::<Tcp>(seed, updates).await,
				_ => volume_case::<Seq>(seed, updates).await,
			}
		})
	});
	rep.require("max_backlog", 66_000);
}

/// A peer that is stuck in a write takes requests in, and its read handle is dropped before it gets to them.
async fn unattended<K: Kit>(seed: u64) -> Obs {
	let mut rng = Rng::new(seed);
	let mut obs = Obs::default();
	let sim = Sim::new(rng.u64());
	let cfg = Cfg::default();
	let (a, b) = K::pair();
	// With tiny buffers, TCP itself stalls for seconds.
	let size = if K::TCP { 60_000 } else { 4096 };
	set_bufs(a.as_raw_fd(), size, 0);
	set_bufs(b.as_raw_fd(), 0, size);
	if K::TCP {
		sim.0.idle_grace_us.set(50_000);
	}
	let raw = Rc::new(Raw::new(b, K::DATAGRAM, cfg.end()));
	let (peer, handle) = Peer::new(K::transport(a, &cfg));
	let run = sim.spawn("peer", peer.run());
	let (read, write) = handle.split();
	// Fill up the connection until the peer can not write any more.
	let stuck = rng.chance(5, 6);
	let mut sends = vec![];
	let mut number = 0u64;
	if stuck {
		loop {
			for _ in 0..20 {
				let w = write.clone();
				let mut body = tag(number);
				body.resize(3000, 7);
				number += 1;
				sends.push(sim.spawn("send", async move { w.send_stream(1, K::body(body)).await.is_ok() }));
			}
			sim.settle(200_000).await;
			if sends.iter().any(|s| !s.is_done()) {
				break;
			}
			if number > 20_000 {
				obs.inconclusive = Some("the connection takes everything".into());
				sim.clear();
				return obs;
			}
		}
	}
	// Requests, streams and messages for requests that do not exist.
	let n = rng.range(1, 40);
	let mut ids = vec![];
	let mut trace = vec![];
	let before = rng.below(n + 1);
	for i in 0..n {
		if i == before {
			trace.push("drop".to_string());
		}
		match rng.below(6) {
			0 => {
				trace.push("stream".into());
				let _ = raw.try_send_some(&Frame::new(4, 0, 1, vec![1; 5]).encode(raw.end, raw.datagram), &[]);
			}
			1 => {
				trace.push("unmatched".into());
				let f = Frame::new(*rng.pick(&[1, 2, 3]), 0x7000_0000 + i as u32, 1, vec![1; 5]);
				let _ = raw.try_send_some(&f.encode(raw.end, raw.datagram), &[]);
			}
			_ => {
				let id = 5000 + i as u32;
				let f = Frame::new(0, id, rng.below(100) as i32, vec![1; rng.below(20)]);
				let bytes = f.encode(raw.end, raw.datagram);
				match raw.try_send_some(&bytes, &[]) {
					Ok(n) if n == bytes.len() => ids.push((id, i < before)),
					r => {
						obs.inconclusive = Some(format!("the remote can not send: {r:?}"));
						sim.clear();
						return obs;
					}
				}
				trace.push(format!("request {id}"));
			}
		}
		if i + 1 == before {
			// All that was sent so far is inside the peer, and stays there, because it is stuck.
			if rng.chance(3, 4) {
				sim.settle(200_000).await;
			}
		}
	}
	// Not stuck, the requests from before the drop are in the hands of the read handle.
	let counted: Vec<u32> = if stuck { ids.iter().map(|x| x.0).collect() } else { ids.iter().filter(|x| !x.1).map(|x| x.0).collect() };
	let label = format!("{} stuck={stuck} {}", K::NAME, trace.join(", "));
	obs.sample = label.clone();
	obs.signature = Some(hash_bytes(label.as_bytes()));
	if stuck {
		// Everything above was sent while the peer was stuck; it is not handed to anybody before the drop.
		if rng.chance(1, 2) {
			sim.settle(200_000).await;
		}
		if sends.iter().all(|s| s.is_done()) {
			// Then the peer may have got to the requests as well.
			obs.inconclusive = Some("the peer is not stuck any more".into());
			sim.clear();
			return obs;
		}
		drop(read);
	} else {
		// Without a jam, drop first.
		drop(read);
		sim.settle(200_000).await;
	}
	if rng.chance(1, 2) {
		sim.settle(200_000).await;
	}
	let got: Rc<std::cell::RefCell<Vec<Frame>>> = Default::default();
	let bad: Rc<std::cell::RefCell<Option<String>>> = Default::default();
	let (raw2, got2, bad2) = (raw.clone(), got.clone(), bad.clone());
	let want: BTreeSet<u32> = counted.iter().copied().collect();
	let enough = number as usize + want.len();
	let pull = move || {
		for e in raw2.drain() {
			match e {
				RawEvent::Frame(f, _) => got2.borrow_mut().push(f),
				e => *bad2.borrow_mut() = Some(format!("{e:?}")),
			}
		}
		got2.borrow().len() >= enough || bad2.borrow().is_some()
	};
	if K::TCP {
		sim.0.idle_grace_us.set(5_000_000);
	}
	sim.settle_until(2_000_000, &pull).await;
	if K::TCP {
		sim.0.idle_grace_us.set(20_000);
	}
	sim.settle_until(2_000_000, || {
		pull();
		false
	})
	.await;
	check_panics(&sim, &mut obs);
	if let Some(e) = bad.borrow().clone() {
		obs.violate("unattended-end", format!("{label}: on the wire: {e}"));
	}
	if run.is_done() {
		obs.violate("unattended-ended", format!("{label}: the peer ended although a write handle is left"));
	}
	// The sends come from many tasks.
	let mut seen = BTreeSet::new();
	let mut streams = 0u64;
	let mut answered = BTreeSet::new();
	for f in got.borrow().iter() {
		match f.ty {
			4 if f.body.len() == 3000 && uid_of(&f.body).is_some_and(|u| u < number && seen.insert(u)) => streams += 1,
			1 if f.svc == -1 && answered.insert(f.id) && ids.iter().any(|x| x.0 == f.id) => (),
			_ => {
				obs.violate("unattended-wire", format!("{label}: unexpected on the wire: type {} id {} service {} with {} bytes", f.ty, f.id, f.svc, f.body.len()));
				break;
			}
		}
	}
	if obs.violations.is_empty() {
		if streams != number || sends.iter().any(|s| s.take() != Some(true)) {
			obs.violate("unattended-sends", format!("{label}: {streams} of {number} messages were sent"));
		}
		let missing: Vec<_> = want.difference(&answered).collect();
		if !missing.is_empty() {
			obs.violate("unattended-unanswered", format!("{label}: requests {missing:?} are not answered, and nobody can receive them"));
		}
	}
	obs.count("answered_after_a_jam", if stuck { answered.len() as u64 } else { 0 });
	drop(write);
	sim.clear();
	obs
}

pub fn run_unattended(rep: &Report, quick: u64) {
	rep.rule("unattended: the peer is stuck in a write while requests arrive and its read handle is dropped: each of them is answered with an error once the remote reads; distinct = histories");
	let t = rep.settings.thorough();
	rep.run_cases("unattended", if t { quick * 20 } else { quick }, if t { 100.0 } else { 40.0 }, 8, |seed| {
		block_on(async move {
			match seed % 6 {
				0 => unattended::<Tcp>(seed).await,
				1 | 2 | 3 => unattended::<UnixS>(seed).await,
				_ => unattended::<Seq>(seed).await,
			}
		})
	});
	rep.require("answered_after_a_jam", 1000);
}
