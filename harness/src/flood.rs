//! C17: a remote that sends without pause (its data never runs dry) must not keep anything else from making progress.
//! Progress is measured in polls of the peer task, never in time.

use crate::kit::*;
use crate::report::*;
use crate::rng::{hash_bytes, Rng};
use crate::sim::*;
use crate::util::*;
use crate::wire::*;
use fizyr_rpc::*;
use std::cell::{Cell, RefCell};
use std::collections::VecDeque;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;

/// Polls of the peer task within which a probe must complete.
const BOUND: u64 = 4000;

struct Counted<F> {
	inner: Pin<Box<F>>,
	polls: Rc<Cell<u64>>,
}

impl<F: Future> Future for Counted<F> {
	type Output = F::Output;
	fn poll(mut self: Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<F::Output> {
		self.polls.set(self.polls.get() + 1);
		self.inner.as_mut().poll(cx)
	}
}

#[derive(Debug, Clone, Copy, PartialEq)]
enum Flood {
	Streams,
	Requests,
	/// Updates for a request that is open here.
	OpenUpdates,
	/// Updates that match no request.
	Unmatched,
	Mixed,
	/// No inbound flood, only a flood of local sends.
	None,
}

/// The remote: floods, and reads everything it is sent.
struct Pump {
	raw: Raw,
	rng: Rng,
	mode: Flood,
	open: Vec<u32>,
	/// Bytes (stream) or datagrams waiting to be sent.
	out: VecDeque<Vec<u8>>,
	offset: usize,
	next_id: u32,
	sent: u64,
	received: u64,
	on: bool,
	drain: bool,
	eof: bool,
	big: bool,
	bad: Option<String>,
	got: Vec<Frame>,
}

impl Pump {
	fn frame(&mut self) -> Frame {
		let mode = match self.mode {
			Flood::Mixed => *self.rng.pick(&[Flood::Streams, Flood::Requests, Flood::OpenUpdates, Flood::Unmatched]),
			m => m,
		};
		let n = if self.big && self.rng.chance(1, 4) { self.rng.below(3000) } else { self.rng.below(12) };
		let body = vec![7u8; n];
		self.next_id += 1;
		match mode {
			Flood::Requests => Frame::new(0, self.next_id, 5, body),
			Flood::OpenUpdates if !self.open.is_empty() => Frame::new(3, *self.rng.pick(&self.open), 5, body),
			Flood::Unmatched => Frame::new(if self.rng.chance(1, 2) { 2 } else { 3 }, 0xf000_0000 + self.next_id, 5, body),
			_ => Frame::new(4, 0, 5, body),
		}
	}

	fn queue(&mut self, f: Frame) {
		let b = f.encode(self.raw.end, self.raw.datagram);
		self.out.push_back(b);
	}

	fn turn(&mut self) {
		if self.drain {
			for e in self.raw.drain() {
				match e {
					RawEvent::Frame(f, _) => {
						self.received += 1;
						if self.got.len() < 100_000 {
							self.got.push(f);
						}
					}
					RawEvent::Eof(0) => self.eof = true,
					RawEvent::Eof(n) => self.bad = Some(format!("stream ended with {n} bytes of an incomplete message")),
					RawEvent::Error(_) => self.eof = true,
					RawEvent::Bad(e) => self.bad = Some(e),
				}
				if self.eof || self.bad.is_some() {
					self.drain = false;
				}
			}
		}
		for _ in 0..4000 {
			if self.on && self.out.len() < 2 {
				if self.raw.datagram {
					let f = self.frame();
					self.queue(f);
				} else {
					// Many messages in one write.
					let mut b = vec![];
					for _ in 0..(1 + self.rng.below(200)) {
						b.extend_from_slice(&self.frame().encode(self.raw.end, false));
						self.sent += 1;
					}
					self.out.push_back(b);
				}
			}
			let Some(front) = self.out.front() else { break };
			match self.raw.try_send_some(&front[self.offset..], &[]) {
				Ok(n) => {
					self.offset += n;
					if self.raw.datagram {
						self.sent += 1;
					}
					if self.raw.datagram || self.offset == front.len() {
						self.offset = 0;
						self.out.pop_front();
					}
				}
				Err(_) => break,
			}
		}
	}
}

/// With `end_only`, nothing is tested but the end of the connection.
async fn case<K: Kit>(seed: u64, end_only: bool) -> Obs {
	let mut rng = Rng::new(seed);
	let mut obs = Obs::default();
	let sim = Sim::new(rng.u64());
	let mut cfg = Cfg::default();
	cfg.endian = *rng.pick(&[ECfg::Little, ECfg::Native]);
	let mode = *rng.pick(&[Flood::Streams, Flood::Requests, Flood::OpenUpdates, Flood::Unmatched, Flood::Mixed, Flood::Mixed, Flood::None]);
	let unread = rng.chance(1, 4);
	let drop_read = rng.chance(1, 5);
	let local = if mode == Flood::None { 100 + rng.below(200) } else if rng.chance(1, 3) { 1 + rng.below(250) } else { 0 };
	let label = format!("{} {mode:?} unread={unread} drop_read={drop_read} local={local}", K::NAME);
	obs.sample = label.clone();
	obs.signature = Some(hash_bytes(format!("{label}{}", seed % 64).as_bytes()));

	let (a, b) = K::pair();
	use std::os::fd::AsRawFd;
	let size = *rng.pick(&[0, 0, 8192, 100_000]);
	set_bufs(b.as_raw_fd(), size, 0);
	if K::TCP {
		// Without limits, megabytes of small messages are in flight ahead of a probe.
		set_bufs(b.as_raw_fd(), 60_000, 0);
		set_bufs(a.as_raw_fd(), 0, 60_000);
		sim.0.idle_grace_us.set(100_000);
	}
	let raw = Raw::new(b, K::DATAGRAM, cfg.end());
	let (peer, handle) = Peer::new(K::transport(a, &cfg));
	let polls = Rc::new(Cell::new(0u64));
	let run = sim.spawn("peer", Counted { inner: Box::pin(peer.run()), polls: polls.clone() });
	let pump = Rc::new(RefCell::new(Pump {
		raw,
		rng: rng.fork(),
		mode,
		open: vec![],
		out: VecDeque::new(),
		offset: 0,
		next_id: 0,
		sent: 0,
		received: 0,
		on: false,
		drain: true,
		eof: false,
		big: rng.chance(1, 2),
		bad: None,
		got: vec![],
	}));
	let (read, write) = handle.split();
	let close = write.close_handle();

	// Open some requests in both directions before the flood starts.
	let opened: Rc<RefCell<Vec<SentRequestHandle<K::B>>>> = Default::default();
	let received: Rc<RefCell<Vec<ReceivedRequestHandle<K::B>>>> = Default::default();
	{
		let (opened2, received2, w) = (opened.clone(), received.clone(), write.clone());
		for i in 0..3 {
			pump.borrow_mut().queue(Frame::new(0, 0xe000_0000 + i, 1, vec![]));
		}
		let h = sim.spawn("setup", async move {
			let mut read = read;
			for _ in 0..3 {
				opened2.borrow_mut().push(w.send_request(1, K::body(vec![])).await.unwrap());
			}
			for _ in 0..3 {
				match read.recv_message().await {
					Ok(ReceivedMessage::Request(r, _)) => received2.borrow_mut().push(r),
					e => panic!("{e:?}"),
				}
			}
			read
		});
		pump.borrow_mut().turn();
		let p2 = pump.clone();
		sim.settle_until(100_000, || {
			p2.borrow_mut().turn();
			h.is_done()
		})
		.await;
		let Some(read) = h.take() else {
			obs.violate("setup", format!("{label}: the connection does not work before the flood"));
			return obs;
		};
		let ids: Vec<u32> = opened.borrow().iter().map(|r| r.request_id()).collect();
		// The first one is the target of the flood, the others wait for a response.
		pump.borrow_mut().open = ids[..1].to_vec();
		let count = Rc::new(Cell::new(0u64));
		let mut owner = None;
		if drop_read {
			drop(read);
		} else if !unread {
			let count = count.clone();
			owner = Some(sim.spawn("receiver", async move {
				let mut read = read;
				loop {
					match read.recv_message().await {
						Ok(_) => count.set(count.get() + 1),
						Err(e) if e.is_connection_aborted() => break,
						Err(_) => count.set(count.get() + 1),
					}
				}
			}));
		} else {
			// Never read, but kept.
			owner = Some(sim.spawn("owner", async move {
				let _read = read;
				std::future::pending::<()>().await
			}));
		}

		// Flood.
		pump.borrow_mut().on = mode != Flood::None;
		let stop_local = Rc::new(Cell::new(false));
		for i in 0..local {
			let w = write.clone();
			let stop = stop_local.clone();
			sim.spawn("local flood", async move {
				while !stop.get() {
					if w.send_stream(i as i32, K::body(vec![1; 20])).await.is_err() {
						break;
					}
				}
			});
		}
		let pump2 = pump.clone();
		let start = polls.get();
		sim.settle_until(100_000, || {
			pump2.borrow_mut().turn();
			polls.get() - start > 60
		})
		.await;

		// Probes.
		let mut sent = opened.borrow_mut().drain(1..).collect::<Vec<_>>();
		let flooded = opened.borrow_mut().pop().unwrap();
		let mut rcvd = std::mem::take(&mut *received.borrow_mut());
		let n = if end_only { 0 } else { 2 + rng.below(3) };
		for _ in 0..n {
			let before = (polls.get(), count.get());
			let what = *rng.pick(&["send_stream", "send_request", "send_update", "send_response", "recv_message", "recv_response", "recv_update", "flooded_update"]);
			let mut probe: Option<Handle<bool>> = None;
			match what {
				"send_stream" => {
					let w = write.clone();
					probe = Some(sim.spawn("probe", async move { w.send_stream(9, K::body(vec![1])).await.is_ok() }));
				}
				"send_request" => {
					let w = write.clone();
					probe = Some(sim.spawn("probe", async move { w.send_request(9, K::body(vec![1])).await.is_ok() }));
				}
				"send_update" => {
					let w = flooded.write_handle();
					probe = Some(sim.spawn("probe", async move { w.send_update(9, K::body(vec![1])).await.is_ok() }));
				}
				"send_response" => {
					let Some(r) = rcvd.pop() else { continue };
					probe = Some(sim.spawn("probe", async move { r.send_response(9, K::body(vec![1])).await.is_ok() }));
				}
				"recv_response" => {
					let Some(mut r) = sent.pop() else { continue };
					pump.borrow_mut().queue(Frame::new(1, r.request_id(), 3, vec![]));
					probe = Some(sim.spawn("probe", async move { r.recv_response().await.is_ok() }));
				}
				"recv_update" => {
					let Some(mut r) = rcvd.pop() else { continue };
					pump.borrow_mut().queue(Frame::new(2, r.request_id(), 3, vec![]));
					probe = Some(sim.spawn("probe", async move { r.recv_update().await.is_some() }));
				}
				"recv_message" => {
					if unread || drop_read || mode == Flood::None || mode == Flood::OpenUpdates {
						continue;
					}
				}
				_ => continue,
			}
			let pump2 = pump.clone();
			let r = sim
				.settle_until(BOUND * 600, || {
					pump2.borrow_mut().turn();
					polls.get() - before.0 > BOUND || probe.as_ref().map(|p| p.is_done()).unwrap_or(count.get() > before.1 + 200)
				})
				.await;
			let used = polls.get() - before.0;
			obs.count("probes", 1);
			obs.count(&format!("probe_{what}"), 1);
			obs.counts.entry("max_polls_of_a_probe".into()).and_modify(|v| *v = (*v).max(used)).or_insert(used);
			let done = probe.as_ref().map(|p| p.is_done()).unwrap_or(count.get() > before.1 + 200);
			if !done && (used > BOUND || r == Settled::Quiescent) {
				obs.violate(
					format!("starved-{what}"),
					format!("{label}: {what} did not complete within {used} polls of the peer; the remote sent {} messages meanwhile", pump.borrow().sent),
				);
				break;
			} else if !done {
				obs.inconclusive = Some("poll limit".into());
				break;
			}
			if let Some(p) = probe {
				if p.take() != Some(true) {
					obs.violate(format!("failed-{what}"), format!("{label}: {what} failed during the flood"));
					break;
				}
			}
		}
		obs.count("flood_messages", pump.borrow().sent);
		if let Some(e) = pump.borrow().bad.clone() {
			obs.violate("wire", format!("{label}: {e}"));
		}
		if obs.violations.is_empty() && obs.inconclusive.is_none() {
			// A close takes effect too, and so does dropping all handles.
			let before = polls.get();
			let end = if rng.chance(1, 2) { "close()" } else { "all handles were dropped" };
			if end == "close()" {
				close.close();
			} else {
				stop_local.set(true);
				if let Some(o) = &owner {
					o.cancel();
				}
				drop(write);
			}
			let pump2 = pump.clone();
			let r = sim
				.settle_until(BOUND * 600, || {
					pump2.borrow_mut().turn();
					polls.get() - before > BOUND || run.is_done()
				})
				.await;
			obs.count(if end == "close()" { "probe_close" } else { "probe_drop_all" }, 1);
			if !run.is_done() {
				if polls.get() - before > BOUND || r == Settled::Quiescent {
					obs.violate("starved-close", format!("{label}: the peer did not stop within {} polls after {end}", polls.get() - before));
				} else {
					obs.inconclusive = Some("poll limit".into());
				}
			} else {
				// Everything that is still waiting completes.
				stop_local.set(true);
				sim.settle(200_000).await;
				let left: Vec<_> = sim.unfinished().into_iter().filter(|n| n != "owner").collect();
				if !left.is_empty() {
					obs.violate("hang-after-close", format!("{label}: still waiting after the end: {left:?}"));
				}
			}
		}
		drop(flooded);
	}
	check_panics(&sim, &mut obs);
	sim.clear();
	obs
}

type Fut<T> = Pin<Box<dyn Future<Output = T>>>;

/// One end of a connection between two real peers.
struct Side<K: Kit> {
	write: PeerWriteHandle<K::B>,
	read: Option<PeerReadHandle<K::B>>,
	sent: Vec<SentRequestHandle<K::B>>,
	rcvd: Vec<ReceivedRequestHandle<K::B>>,
	/// Streams and updates received.
	got: Rc<Cell<(u64, u64)>>,
}

/// Both sides have far more to send than the buffers between them hold, and all of it is queued at once.
async fn mutual<K: Kit>(seed: u64) -> Obs {
	let mut rng = Rng::new(seed ^ 0x5ca1ab1e);
	let mut obs = Obs::default();
	let sim = Sim::new(rng.u64());
	let cfg = Cfg::default();
	let (a, b) = K::pair();
	use std::os::fd::AsRawFd;
	if K::TCP || rng.chance(2, 3) {
		// With tiny buffers, TCP itself stalls for seconds (timers for window updates).
		let size = if K::TCP { 60_000 } else { *rng.pick(&[4096, 8192, 30_000]) };
		for fd in [a.as_raw_fd(), b.as_raw_fd()] {
			set_bufs(fd, size, size);
		}
	}
	if K::TCP {
		sim.0.idle_grace_us.set(5_000_000);
	}
	let requests = rng.below(4);
	let unread = rng.chance(1, 4);
	let updates_unread = rng.chance(1, 3);
	let max_body = *rng.pick(&[0, 64, 1000, 4000]);
	let counts: Vec<usize> = (0..2).map(|_| *rng.pick(&[300, 700, 1500, 4000]) / if max_body > 500 { 2 } else { 1 }).collect();
	let label = format!("{} mutual: {counts:?} messages up to {max_body} bytes, {requests} requests, unread={unread} updates_unread={updates_unread}", K::NAME);
	obs.sample = label.clone();
	obs.signature = Some(hash_bytes(format!("{label}{}", seed % 16).as_bytes()));

	let mut sides: Vec<Side<K>> = vec![];
	let mut runs = vec![];
	for (i, fd) in [a, b].into_iter().enumerate() {
		let (peer, handle) = Peer::new(K::transport(fd, &cfg));
		runs.push(sim.spawn(if i == 0 { "peer a" } else { "peer b" }, peer.run()));
		let (read, write) = handle.split();
		sides.push(Side { write, read: Some(read), sent: vec![], rcvd: vec![], got: Default::default() });
	}
	for i in 0..2 {
		let mut read = sides[1 - i].read.take().unwrap();
		let w = sides[i].write.clone();
		let h = sim.spawn("setup", async move {
			let (mut sent, mut rcvd) = (vec![], vec![]);
			for _ in 0..requests {
				sent.push(w.send_request(1, K::body(vec![])).await.expect("send_request"));
				match read.recv_message().await {
					Ok(ReceivedMessage::Request(r, _)) => rcvd.push(r),
					e => panic!("{e:?}"),
				}
			}
			(sent, rcvd, read)
		});
		sim.settle_until(200_000, || h.is_done()).await;
		let Some((sent, rcvd, read)) = h.take() else {
			obs.violate("setup", format!("{label}: the connection does not work before the load"));
			sim.clear();
			return obs;
		};
		sides[i].sent = sent;
		sides[1 - i].rcvd = rcvd;
		sides[1 - i].read = Some(read);
	}

	// Receivers.
	for side in &mut sides {
		let mut read = side.read.take().unwrap();
		let got = side.got.clone();
		sim.spawn("receiver", async move {
			if unread {
				let _read = read;
				return std::future::pending().await;
			}
			loop {
				match read.recv_message().await {
					Ok(ReceivedMessage::Stream(_)) => got.set((got.get().0 + 1, got.get().1)),
					Err(e) if e.is_connection_aborted() => break,
					_ => break,
				}
			}
		});
	}
	// Senders: everything queued at once, or a number of tasks that send one after another.
	let mut expected = [(0u64, 0u64); 2];
	let mut senders = vec![];
	for i in 0..2 {
		let tasks = if rng.chance(1, 2) { 1 } else { rng.range(2, 20) };
		let queue = tasks == 1 || rng.chance(1, 2);
		let mut lists: Vec<Vec<Fut<bool>>> = (0..tasks).map(|_| vec![]).collect();
		for n in 0..counts[i] {
			let body = vec![i as u8; rng.below(max_body + 1)];
			let what = rng.below(4);
			let f: Fut<bool> = if what == 0 && !sides[i].sent.is_empty() {
				expected[1 - i].1 += 1;
				let w = rng.pick(&sides[i].sent).write_handle();
				Box::pin(async move { w.send_update(2, K::body(body)).await.is_ok() })
			} else if what == 1 && !sides[i].rcvd.is_empty() {
				expected[1 - i].1 += 1;
				let w = rng.pick(&sides[i].rcvd).write_handle();
				Box::pin(async move { w.send_update(2, K::body(body)).await.is_ok() })
			} else {
				expected[1 - i].0 += 1;
				let w = sides[i].write.clone();
				Box::pin(async move { w.send_stream(2, K::body(body)).await.is_ok() })
			};
			lists[n % tasks].push(f);
		}
		for mut list in lists {
			senders.push(sim.spawn(if i == 0 { "sender a" } else { "sender b" }, async move {
				let mut done = vec![None; list.len()];
				if queue {
					std::future::poll_fn(|cx| {
						for (f, d) in list.iter_mut().zip(&mut done) {
							if let std::task::Poll::Ready(x) = f.as_mut().poll(cx) {
								*d = Some(x);
							}
						}
						std::task::Poll::Ready(())
					})
					.await;
				}
				for (f, d) in list.iter_mut().zip(&mut done) {
					if d.is_none() {
						*d = Some(f.as_mut().await);
					}
				}
				done.iter().all(|d| *d == Some(true))
			}));
		}
	}
	for side in &mut sides {
		for mut r in std::mem::take(&mut side.sent) {
			let got = side.got.clone();
			sim.spawn("requester", async move {
				if updates_unread {
					let _r = r;
					return std::future::pending().await;
				}
				while r.recv_update().await.is_some() {
					got.set((got.get().0, got.get().1 + 1));
				}
			});
		}
		for mut r in std::mem::take(&mut side.rcvd) {
			let got = side.got.clone();
			sim.spawn("responder", async move {
				if updates_unread {
					let _r = r;
					return std::future::pending().await;
				}
				while r.recv_update().await.is_some() {
					got.set((got.get().0, got.get().1 + 1));
				}
			});
		}
	}
	let gots = [sides[0].got.clone(), sides[1].got.clone()];
	let r = sim
		.settle_until(20_000_000, || {
			senders.iter().all(|h| h.is_done()) && (0..2).all(|i| (unread || gots[i].get().0 >= expected[i].0) && (updates_unread || gots[i].get().1 >= expected[i].1))
		})
		.await;
	obs.count("mutual_messages", (counts[0] + counts[1]) as u64);
	check_panics(&sim, &mut obs);
	let stuck: Vec<_> = sim.unfinished().into_iter().filter(|n| n.starts_with("sender")).collect();
	if r != Settled::Quiescent {
		obs.inconclusive = Some("poll limit".into());
	} else if !stuck.is_empty() {
		obs.violate("mutual-deadlock", format!("{label}: nothing makes progress any more and {stuck:?} are still waiting; received {:?} of {expected:?}", [sides[0].got.get(), sides[1].got.get()]));
	} else {
		for h in &senders {
			if h.take() != Some(true) {
				obs.violate("mutual-failed", format!("{label}: a send failed"));
				break;
			}
		}
		for i in 0..2 {
			let (s, u) = sides[i].got.get();
			if !unread && s != expected[i].0 || !updates_unread && u != expected[i].1 {
				obs.violate("mutual-lost", format!("{label}: side {i} received {s} streams and {u} updates of {:?}", expected[i]));
				break;
			}
		}
	}
	sim.clear();
	obs
}

pub fn run(rep: &Report, quick: u64) {
	rep.rule("mutual: two real peers that both queue hundreds to thousands of messages (streams, updates of open requests) with small socket buffers: all sends complete and everything is received");
	let t = rep.settings.thorough();
	rep.run_cases("mutual", if t { quick * 10 } else { quick / 5 }, if t { 300.0 } else { 60.0 }, 8, |seed| {
		block_on(async move {
			match seed % 3 {
				0 => mutual::<UnixS>(seed).await,
				1 => mutual::<Tcp>(seed).await,
				_ => mutual::<Seq>(seed).await,
			}
		})
	});
	rep.require("mutual_messages", 100_000);
	rep.rule("flood: while the socket is refilled before every poll of the peer, each probe (send, receive, close) must complete within 4000 polls of the peer task");
	let t = rep.settings.thorough();
	rep.run_cases("flood", if t { quick * 40 } else { quick }, if t { 300.0 } else { 60.0 }, 8, |seed| {
		block_on(async move {
			match seed % 3 {
				0 => case::<UnixS>(seed, false).await,
				1 => case::<Tcp>(seed, false).await,
				_ => case::<Seq>(seed, false).await,
			}
		})
	});
	rep.require("probes", 1000);
}

/// Only the end of a connection whose remote sends without pause.
pub fn run_ends(rep: &Report, quick: u64) {
	rep.rule("flood-end: while the socket is refilled before every poll of the peer, close() and dropping all handles end the peer within 4000 polls of its task");
	let t = rep.settings.thorough();
	rep.run_cases("flood-end", if t { quick * 40 } else { quick }, if t { 200.0 } else { 40.0 }, 8, |seed| {
		block_on(async move {
			match seed % 3 {
				0 => case::<UnixS>(seed, true).await,
				1 => case::<Tcp>(seed, true).await,
				_ => case::<Seq>(seed, true).await,
			}
		})
	});
	rep.require("probe_close", 50);
	rep.require("probe_drop_all", 50);
}
