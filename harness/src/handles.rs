//! C15: random histories of creating, splitting, cloning, dropping and closing handles; after every step the connection
//! must be up and usable exactly if the read handle or a write handle is left and nobody closed it.

use crate::kit::*;
use crate::report::*;
use crate::rng::{hash_bytes, Rng};
use crate::sim::*;
use crate::util::*;
use crate::wire::*;
use fizyr_rpc::*;
use std::os::fd::AsRawFd;
use std::time::Duration;

struct World<K: Kit> {
	sim: Sim,
	rng: Rng,
	obs: Obs,
	raw: Raw,
	end: End,
	whole: Option<PeerHandle<K::B>>,
	read: Option<PeerReadHandle<K::B>>,
	writes: Vec<PeerWriteHandle<K::B>>,
	closers: Vec<PeerCloseHandle<K::B>>,
	sent: Vec<SentRequestHandle<K::B>>,
	sent_w: Vec<SentRequestWriteHandle<K::B>>,
	rcvd: Vec<ReceivedRequestHandle<K::B>>,
	rcvd_w: Vec<ReceivedRequestWriteHandle<K::B>>,
	run: Option<Handle<()>>,
	closed: bool,
	socket: (u64, u64),
	frames: Vec<Frame>,
	eof: bool,
	next: u32,
	trace: Vec<String>,
}

impl<K: Kit> World<K> {
	fn fail(&mut self, key: &str, d: String) {
		let t = self.trace.join("; ");
		self.obs.violate(key, format!("{}: {d}; history: {t}", K::NAME));
	}

	fn failed(&self) -> bool {
		!self.obs.violations.is_empty()
	}

	fn alive(&self) -> bool {
		!self.closed && (self.whole.is_some() || self.read.is_some() || !self.writes.is_empty())
	}

	fn collect(&mut self) {
		if self.eof {
			return;
		}
		for e in self.raw.drain() {
			match e {
				RawEvent::Frame(f, _) => self.frames.push(f),
				RawEvent::Eof(0) | RawEvent::Error(_) => self.eof = true,
				RawEvent::Eof(n) => self.fail("wire", format!("{n} bytes of an incomplete message")),
				RawEvent::Bad(e) => self.fail("wire", e),
			}
		}
	}

	/// Settle until the condition holds (with some real time, because a close may have a delay).
	async fn until(&mut self, mut done: impl FnMut(&mut Self) -> bool) -> bool {
		for i in 0..60 {
			self.sim.settle(100_000).await;
			self.collect();
			if done(self) {
				return true;
			}
			std::thread::sleep(Duration::from_millis(i));
		}
		false
	}

	async fn settle(&mut self) {
		self.sim.settle(100_000).await;
		if K::TCP {
			std::thread::sleep(Duration::from_micros(300));
			self.sim.settle(100_000).await;
		}
		self.collect();
		let sim = self.sim.clone();
		check_panics(&sim, &mut self.obs);
	}

	/// Run a single call to its end.
	async fn call<T: 'static>(&mut self, what: &str, f: impl std::future::Future<Output = T> + 'static) -> Option<T> {
		let h = self.sim.spawn(what, f);
		self.until(|_| h.is_done()).await;
		let r = h.take();
		if r.is_none() {
			h.cancel();
			self.fail("hang", format!("{what} does not complete"));
		}
		r
	}

	async fn send(&mut self, f: Frame) {
		let _ = self.raw.try_send_some(&f.encode(self.end, K::DATAGRAM), &[]);
	}

	/// Compare with the model and use what is there.
	async fn check(&mut self) {
		self.settle().await;
		if self.failed() {
			return;
		}
		if !self.alive() {
			let ended = {
				let run = self.run.as_ref().map(|h| h.id);
				let _ = run;
				self.until(|w| w.eof && w.run.as_ref().map(|h| h.is_done()).unwrap_or(true)).await
			};
			if !ended {
				let d = format!("the peer does not end (task ended: {:?}, remote saw the end: {})", self.run.as_ref().map(|h| h.is_done()), self.eof);
				return self.fail("does-not-end", d);
			}
			if census(&[self.socket])[0] != 0 {
				return self.fail("socket-open", "the socket is still open".into());
			}
			self.obs.count("ends", 1);
			return;
		}
		if self.eof || self.run.as_ref().map(|h| h.is_done()).unwrap_or(false) {
			return self.fail("ends-early", "the connection ended although handles are left".into());
		}
		self.obs.count("alive_checks", 1);
		if !self.rng.chance(2, 3) {
			return;
		}
		// Sending.
		self.next += 1;
		let tag = self.next;
		if let Some(h) = self.whole.take() {
			if let Some((h, ok)) = self.call("send_stream", async move { let ok = h.send_stream(tag as i32, K::body(vec![])).await.is_ok(); (h, ok) }).await {
				self.whole = Some(h);
				self.sent_stream(ok, tag).await;
			}
		} else if !self.writes.is_empty() {
			let i = self.rng.below(self.writes.len());
			let w = self.writes.swap_remove(i);
			if let Some((w, ok)) = self.call("send_stream", async move { let ok = w.send_stream(tag as i32, K::body(vec![])).await.is_ok(); (w, ok) }).await {
				self.writes.push(w);
				self.sent_stream(ok, tag).await;
			}
		}
		if self.failed() {
			return;
		}
		// Receiving.
		self.next += 1;
		let tag = self.next;
		if self.whole.is_some() || self.read.is_some() {
			let request = self.rng.chance(1, 2);
			self.send(Frame::new(if request { 0 } else { 4 }, 0x1000 + tag, tag as i32, vec![])).await;
			let got = if let Some(mut h) = self.whole.take() {
				self.call("recv_message", async move { let m = h.recv_message().await; (m, Some(h), None) }).await
			} else {
				let mut r = self.read.take().unwrap();
				self.call("recv_message", async move { let m = r.recv_message().await; (m, None, Some(r)) }).await
			};
			let Some((m, h, r)) = got else { return };
			self.whole = h;
			self.read = r;
			match m {
				Ok(ReceivedMessage::Request(r, _)) if request && r.service_id() == tag as i32 => {
					if self.rng.chance(1, 2) {
						self.rcvd_w.push(r.write_handle());
					}
					self.rcvd.push(r);
				}
				Ok(ReceivedMessage::Stream(m)) if !request && m.header.service_id == tag as i32 => {}
				m => self.fail("receive", format!("recv_message yields {m:?} instead of message {tag}")),
			}
		} else {
			// Nobody can receive: answered with an error.
			self.send(Frame::new(0, 0x1000 + tag, 1, vec![])).await;
			let id = 0x1000 + tag;
			if !self.until(|w| w.frames.iter().any(|f| f.ty == 1 && f.id == id)).await {
				return self.fail("not-answered", "a request is not answered although there is no read handle".into());
			}
		}
		if self.failed() {
			return;
		}
		// Open requests are usable, whatever handles are left.
		if !self.rcvd_w.is_empty() && self.rng.chance(1, 2) {
			let i = self.rng.below(self.rcvd_w.len());
			let w = self.rcvd_w.swap_remove(i);
			let id = w.request_id();
			let n = self.frames.len();
			if let Some((w, ok)) = self.call("send_update", async move { let ok = w.send_update(1, K::body(vec![])).await.is_ok(); (w, ok) }).await {
				self.rcvd_w.push(w);
				if !ok || !self.until(|w| w.frames[n..].iter().any(|f| f.ty == 3 && f.id == id)).await {
					self.fail("request", "an update of an open request is not sent".into());
				}
			}
		}
		if !self.failed() && !self.sent.is_empty() && self.rng.chance(1, 2) {
			let i = self.rng.below(self.sent.len());
			let mut r = self.sent.swap_remove(i);
			let tag = self.next as i32;
			self.send(Frame::new(3, r.request_id(), tag, vec![])).await;
			if let Some((r, m)) = self.call("recv_update", async move { let m = r.recv_update().await; (r, m) }).await {
				self.sent.push(r);
				if m.map(|m| m.header.service_id) != Some(tag) {
					self.fail("request", "an update of an open request is not received".into());
				}
			}
		}
	}

	async fn sent_stream(&mut self, ok: bool, tag: u32) {
		if !ok {
			return self.fail("send", "send_stream fails although the connection is up".into());
		}
		if !self.until(|w| w.frames.iter().any(|f| f.ty == 4 && f.svc == tag as i32)).await {
			self.fail("send", "a stream message does not arrive".into());
		}
	}

	fn step(&mut self) -> bool {
		let what = self.rng.below(18);
		let name = match what {
			0 if self.whole.is_some() => {
				let (r, w) = self.whole.take().unwrap().split();
				self.read = Some(r);
				self.writes.push(w);
				"split"
			}
			1 | 2 if !self.writes.is_empty() => {
				let w = self.rng.pick(&self.writes).clone();
				self.writes.push(w);
				"clone write"
			}
			3 | 4 | 5 if !self.writes.is_empty() => {
				let i = self.rng.below(self.writes.len());
				drop(self.writes.swap_remove(i));
				"drop write"
			}
			6 if self.read.is_some() && self.rng.chance(1, 2) => {
				self.read = None;
				"drop read"
			}
			7 if self.whole.is_some() && self.rng.chance(1, 6) => {
				self.whole = None;
				"drop whole"
			}
			8 => {
				if let Some(h) = &self.whole {
					self.closers.push(h.close_handle());
				}
				if let Some(h) = &self.read {
					self.closers.push(h.close_handle());
				}
				if let Some(h) = self.writes.last() {
					self.closers.push(h.close_handle());
				}
				"close handles"
			}
			9 if !self.closers.is_empty() => {
				self.closers.pop();
				"drop close handle"
			}
			10 if self.rng.chance(1, 8) && (self.whole.is_some() || self.read.is_some() || !self.writes.is_empty() || !self.closers.is_empty()) => {
				self.closed = true;
				let mut options = vec![];
				if self.whole.is_some() {
					options.extend([0, 1]);
				}
				if self.read.is_some() {
					options.push(2);
				}
				if !self.writes.is_empty() {
					options.push(3);
				}
				if !self.closers.is_empty() {
					options.push(4);
				}
				match *self.rng.pick(&options) {
					0 => self.whole.take().unwrap().close(),
					1 => self.whole.as_ref().unwrap().close_handle().close(),
					2 => self.read.as_ref().unwrap().close(),
					3 => self.writes[0].close(),
					_ => self.closers[0].close(),
				}
				"close"
			}
			11 if !self.sent.is_empty() => {
				let i = self.rng.below(self.sent.len());
				if self.rng.chance(1, 2) {
					let w = self.sent[i].write_handle();
					self.sent_w.push(w.clone());
					self.sent_w.push(w);
					"request write handle"
				} else {
					self.sent.swap_remove(i);
					"drop sent request"
				}
			}
			12 if !self.rcvd.is_empty() => {
				let i = self.rng.below(self.rcvd.len());
				if self.rng.chance(1, 2) {
					let w = self.rcvd[i].write_handle();
					self.rcvd_w.push(w.clone());
					self.rcvd_w.push(w);
					"received write handle"
				} else {
					self.rcvd.swap_remove(i);
					"drop received request"
				}
			}
			13 if !self.rcvd_w.is_empty() && self.rng.chance(1, 3) => {
				self.rcvd_w.pop();
				"drop received write handle"
			}
			15 if !self.writes.is_empty() && self.writes.len() < 100 && self.rng.chance(1, 5) => {
				// As many as do not fit in a small counter.
				let n = match self.rng.below(12) {
					0 => self.rng.range(65_534, 65_538),
					1..=5 => self.rng.range(254, 258),
					_ => self.rng.range(100, 1100),
				};
				while self.writes.len() < n {
					let w = self.rng.pick(&self.writes).clone();
					self.writes.push(w);
				}
				if n > 255 {
					self.obs.count("many_handles", 1);
				}
				if self.rng.chance(1, 2) {
					self.read = None;
				}
				self.trace.push(format!("clone to {n} write handles, read handle: {}", self.read.is_some()));
				return true;
			}
			16 | 17 if self.writes.len() > 10 => {
				let n = self.rng.below(4);
				self.writes.drain(n..);
				self.trace.push(format!("drop all but {n} write handles"));
				return true;
			}
			14 if self.writes.len() >= 2 => {
				if !self.writes[0].same_peer(&self.writes[1]) {
					self.fail("same-peer", "two write handles of the same peer are not the same peer".into());
				}
				return false;
			}
			_ => return false,
		};
		self.trace.push(name.into());
		true
	}
}

async fn case<K: Kit>(seed: u64) -> Obs {
	let mut rng = Rng::new(seed);
	let sim = Sim::new(rng.u64());
	let mut cfg = Cfg::default();
	cfg.endian = *rng.pick(&[ECfg::Little, ECfg::Big]);
	let (a, b) = K::pair();
	let socket = identity(a.as_raw_fd());
	let spawned = rng.chance(1, 3);
	// Sometimes the handles are already used before the peer runs.
	let late_run = !spawned && rng.chance(1, 3);
	let (mut peer, whole, mut run) = if spawned {
		// The task runs on the tokio runtime.
		(None, Peer::spawn(K::transport(a, &cfg)), None)
	} else {
		let (p, h) = Peer::new(K::transport(a, &cfg));
		(Some(p), h, None)
	};
	if !late_run {
		run = peer.take().map(|p| sim.spawn("peer", p.run()));
	}
	if spawned {
		sim.set_idle_turns(40);
	}
	let mut w = World::<K> {
		sim: sim.clone(),
		obs: Obs::default(),
		raw: Raw::new(b, K::DATAGRAM, cfg.end()),
		end: cfg.end(),
		whole: Some(whole),
		read: None,
		writes: vec![],
		closers: vec![],
		sent: vec![],
		sent_w: vec![],
		rcvd: vec![],
		rcvd_w: vec![],
		run,
		closed: false,
		socket,
		frames: vec![],
		eof: false,
		next: 0,
		trace: vec![format!("spawned={spawned} late_run={late_run}")],
		rng,
	};
	if late_run {
		for _ in 0..w.rng.below(12) {
			w.step();
		}
		w.run = peer.take().map(|p| sim.spawn("peer", p.run()));
		w.trace.push("run".into());
	}
	w.check().await;
	let steps = w.rng.range(5, 40);
	for _ in 0..steps {
		if w.failed() || !w.alive() {
			break;
		}
		// Open a request now and then.
		if w.rng.chance(1, 8) && !w.writes.is_empty() && w.sent.len() < 4 {
			let h = w.writes.pop().unwrap();
			if let Some((h, r)) = w.call("send_request", async move { let r = h.send_request(1, K::body(vec![])).await; (h, r) }).await {
				w.writes.push(h);
				match r {
					Ok(r) => w.sent.push(r),
					Err(e) => w.fail("send", format!("send_request fails: {e}")),
				}
			}
			w.trace.push("request".into());
		}
		// Several steps without the peer in between.
		let n = if w.rng.chance(1, 3) { w.rng.range(2, 6) } else { 1 };
		let mut any = false;
		for _ in 0..n {
			if w.alive() {
				any |= w.step();
			}
		}
		if any {
			w.check().await;
		}
	}
	// Request and close handles are still there: they do not keep it up.
	if !w.failed() && w.alive() {
		w.trace.push("drop the rest".into());
		w.whole = None;
		if w.rng.chance(1, 2) {
			w.read = None;
			w.settle().await;
			w.writes.clear();
		} else {
			w.writes.clear();
			w.settle().await;
			w.read = None;
		}
		w.check().await;
	}
	let mut obs = std::mem::take(&mut w.obs);
	obs.count("steps", w.trace.len() as u64);
	obs.sample = format!("{}: {}", K::NAME, w.trace.join("; "));
	obs.signature = Some(hash_bytes(obs.sample.as_bytes()));
	sim.clear();
	drop(w);
	for _ in 0..20 {
		driver_turn().await;
	}
	obs
}

pub fn run(rep: &Report, quick: u64) {
	rep.rule("handles: random histories of splitting, cloning, dropping and closing peer, close and request handles (also before the peer runs, and with Peer::spawn); after every step the connection must be up and usable, or ended with its socket closed, as the handles say; distinct = histories");
	let t = rep.settings.thorough();
	let n = if t { quick * 40 } else { quick };
	let secs = if t { 300.0 } else { 60.0 };
	rep.run_cases("handles", n, secs, 8, |seed| {
		block_on(async move {
			match seed % 5 {
				0 | 1 => case::<UnixS>(seed).await,
				2 => case::<Tcp>(seed).await,
				_ => case::<Seq>(seed).await,
			}
		})
	});
	rep.require("ends", 1000);
	rep.require("alive_checks", 2000);
	rep.require("many_handles", 100);
}
