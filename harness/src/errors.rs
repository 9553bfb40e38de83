//! C21: what the errors of a connection say: an aborted connection is reported when, and only when, the connection ended.

use crate::kit::*;
use crate::report::*;
use crate::rng::{hash_bytes, Rng};
use crate::sim::*;
use crate::util::*;
use crate::wire::*;
use fizyr_rpc::*;
use std::collections::VecDeque;
use std::os::fd::AsRawFd;
use std::time::Duration;

struct Sent<K: Kit> {
	h: SentRequestHandle<K::B>,
	queue: VecDeque<Frame>,
	/// The response has arrived.
	closed: bool,
	/// The response has been received from the handle.
	done: bool,
}

struct Rcvd<K: Kit> {
	h: ReceivedRequestHandle<K::B>,
	done: bool,
}

/// What the next recv_message must give.
#[derive(Debug, Clone)]
enum Next {
	Msg(Frame),
	/// An error that is not the end of the connection.
	Problem(&'static str),
}

struct World<K: Kit> {
	sim: Sim,
	rng: Rng,
	obs: Obs,
	raw: Raw,
	cfg: Cfg,
	read: Option<PeerReadHandle<K::B>>,
	write: PeerWriteHandle<K::B>,
	sent: Vec<Sent<K>>,
	rcvd: Vec<Rcvd<K>>,
	incoming: VecDeque<Next>,
	run: Handle<()>,
	/// IDs used by the remote for its requests.
	remote_ids: Vec<u32>,
	trace: Vec<String>,
}

fn text(rng: &mut Rng, max: usize) -> String {
	let n = match rng.below(6) {
		0 => 0,
		1 => max,
		2 => max.saturating_sub(1),
		_ => rng.below(max.min(60) + 1),
	};
	let mut s = String::new();
	loop {
		let c = match rng.below(8) {
			0 => char::from_u32(rng.below(32) as u32).unwrap(),
			1 => *rng.pick(&['é', 'ß', '\u{a0}', '\u{feff}']),
			2 => *rng.pick(&['€', '中', '\u{2028}', '\u{fffd}']),
			3 => *rng.pick(&['😀', '\u{10ffff}']),
			_ => (b' ' + rng.below(95) as u8) as char,
		};
		if s.len() + c.len_utf8() > n {
			break;
		}
		s.push(c);
	}
	while s.len() < n {
		s.push('x');
	}
	s
}

impl<K: Kit> World<K> {
	fn fail(&mut self, key: &str, d: String) {
		let t = self.trace.join("; ");
		self.obs.violate(key, format!("{}: {d}; history: {t}", K::NAME));
	}

	/// Something that other properties are about: no verdict here.
	fn foreign(&mut self, d: String) {
		if self.obs.inconclusive.is_none() {
			self.obs.foreign.push(Violation::new("not of this property", d.clone()));
			self.obs.inconclusive = Some("departure of another property".into());
			self.trace.push(format!("FOREIGN {d}"));
		}
	}

	fn stop(&self) -> bool {
		!self.obs.violations.is_empty() || self.obs.inconclusive.is_some()
	}

	async fn settle(&mut self) {
		self.sim.settle(100_000).await;
		if K::TCP {
			std::thread::sleep(Duration::from_micros(200));
			self.sim.settle(100_000).await;
		}
		let sim = self.sim.clone();
		check_panics(&sim, &mut self.obs);
	}

	async fn call<T: 'static>(&mut self, what: &str, f: impl std::future::Future<Output = T> + 'static) -> Option<T> {
		let h = self.sim.spawn(what, f);
		for i in 0..60 {
			self.sim.settle(100_000).await;
			if h.is_done() {
				break;
			}
			std::thread::sleep(Duration::from_millis(i));
		}
		let r = h.take();
		if r.is_none() {
			h.cancel();
			self.foreign(format!("{what} does not complete"));
		}
		r
	}

	/// The next message on the wire.
	async fn wire(&mut self) -> Option<Frame> {
		for i in 0..40 {
			let d = self.raw.drain();
			if let Some(e) = d.into_iter().next() {
				return match e {
					RawEvent::Frame(f, _) => Some(f),
					e => {
						self.foreign(format!("unexpected {e:?} on the wire"));
						None
					}
				};
			}
			std::thread::sleep(Duration::from_micros(50 * i));
			self.sim.settle(100_000).await;
		}
		None
	}

	async fn put(&mut self, f: &Frame) {
		let b = f.encode(self.cfg.end(), K::DATAGRAM);
		match self.raw.try_send_some(&b, &[]) {
			Ok(n) if n == b.len() => {}
			r => self.foreign(format!("the remote cannot send: {r:?}")),
		}
	}

	fn body(&mut self) -> Vec<u8> {
		let max = self.cfg.max_read as usize;
		let n = size(&mut self.rng, max);
		self.rng.bytes(n)
	}

	fn describe(r: &Result<ReceivedMessage<K::B>, Error>) -> String {
		match r {
			Ok(m) => format!("a message ({m:?})").chars().take(120).collect(),
			Err(e) => format!("{} error ({e})", err_class(e)),
		}
	}

	/// Receive everything the remote sent so far.
	async fn receive(&mut self, all: bool) {
		while let Some(next) = self.incoming.front().cloned() {
			if self.stop() || (!all && self.rng.chance(1, 6)) {
				return;
			}
			let mut h = self.read.take().unwrap();
			let Some((h, r)) = self.call("recv_message", async move { let r = h.recv_message().await; (h, r) }).await else { return };
			self.read = Some(h);
			self.incoming.pop_front();
			self.obs.count("received", 1);
			match (next, r) {
				(Next::Problem(what), Err(e)) => {
					let c = err_class(&e);
					if c != "other" {
						self.fail("problem-misreported", format!("{what} was reported as {c} ({e})"));
					}
					if e.to_string().is_empty() {
						self.fail("no-text", format!("{what} was reported without any text: {e:?}"));
					}
					self.obs.count("problems_reported", 1);
				}
				(Next::Msg(f), Ok(ReceivedMessage::Request(h, b))) if f.ty == REQUEST && f.id == h.request_id() && f.svc == h.service_id() && f.body == K::data(&b) => {
					self.rcvd.push(Rcvd { h, done: false });
				}
				(Next::Msg(f), Ok(ReceivedMessage::Stream(m))) if f.ty == STREAM => {
					if frame_of::<K>(m) != f {
						self.foreign("another stream message".into());
					}
				}
				(n, Err(e)) if e.is_connection_aborted() => {
					self.fail("aborted-early", format!("recv_message reports an aborted connection on a working connection (expected {n:?})"));
				}
				(n, r) => {
					let d = Self::describe(&r);
					self.foreign(format!("expected {n:?}, got {d}"));
				}
			}
		}
	}

	/// An error of an operation that has nothing to do with the end of the connection.
	fn check_error(&mut self, key: &str, what: &str, r: Result<(), Error>) {
		match r {
			Ok(()) => self.foreign(format!("{what} succeeded")),
			Err(e) => {
				let c = err_class(&e);
				if c != "other" {
					self.fail(key, format!("{what} was reported as {c} ({e})"));
				}
				if e.to_string().is_empty() {
					self.fail("no-text", format!("{what} was reported without any text: {e:?}"));
				}
				self.obs.count(&format!("errors_{key}"), 1);
			}
		}
	}

	async fn remote_sends(&mut self) {
		let svc = any_i32(&mut self.rng);
		let body = self.body();
		let kind = self.rng.below(10);
		let unused = |w: &mut Self| loop {
			let id = any_u32(&mut w.rng);
			if !w.remote_ids.contains(&id) {
				return id;
			}
		};
		match kind {
			0 | 1 => {
				let id = unused(self);
				self.remote_ids.push(id);
				let f = Frame::new(REQUEST, id, svc, body);
				self.trace.push("remote request".into());
				self.put(&f).await;
				self.incoming.push_back(Next::Msg(f));
			}
			2 => {
				let f = Frame::new(STREAM, any_u32(&mut self.rng), svc, body);
				self.trace.push("remote stream".into());
				self.put(&f).await;
				self.incoming.push_back(Next::Msg(f));
			}
			3..=6 => {
				let (f, what) = match self.rng.below(5) {
					0 if !self.rcvd.iter().all(|r| r.done) => {
						let open: Vec<u32> = self.rcvd.iter().filter(|r| !r.done).map(|r| r.h.request_id()).collect();
						(Frame::new(REQUEST, *self.rng.pick(&open), svc, body), "a request with the ID of an open request")
					}
					1 => (Frame::new(REQ_UPDATE, unused(self), svc, body), "an update for a request that is not open"),
					k => {
						let id = loop {
							let id = any_u32(&mut self.rng);
							if !self.sent.iter().any(|s| !s.closed && s.h.request_id() == id) {
								break id;
							}
						};
						if k == 2 {
							(Frame::new(RESP_UPDATE, id, svc, body), "an update for a request that was not sent")
						} else {
							let svc = if self.rng.chance(1, 2) { -1 } else { svc };
							(Frame::new(RESPONSE, id, svc, body), "a response to a request that was not sent")
						}
					}
				};
				self.trace.push(what.into());
				// What is open changes with the next calls, so let it arrive first.
				self.settle().await;
				self.put(&f).await;
				self.settle().await;
				self.incoming.push_back(Next::Problem(what));
			}
			_ if K::DATAGRAM => {
				let n = self.cfg.max_read as usize + 1 + self.rng.below(200);
				let mut f = Frame::new(self.rng.below(5) as u32, any_u32(&mut self.rng), svc, vec![7; n]);
				if f.ty == REQUEST && self.remote_ids.contains(&f.id) {
					f.ty = STREAM;
				}
				self.trace.push(format!("remote message with {n} bytes"));
				self.put(&f).await;
				self.incoming.push_back(Next::Problem("an oversized message"));
			}
			_ => {}
		}
	}

	async fn send_request(&mut self) {
		let w = self.write.clone();
		let svc = any_i32(&mut self.rng);
		let Some(r) = self.call("send_request", async move { w.send_request(svc, K::body(vec![1, 2, 3])).await }).await else { return };
		self.trace.push("send_request".into());
		match r {
			Ok(h) => {
				self.wire().await;
				self.sent.push(Sent { h, queue: VecDeque::new(), closed: false, done: false });
			}
			Err(e) => self.fail("send-failed", format!("send_request reported {} ({e}) on a working connection", err_class(&e))),
		}
	}

	/// The remote sends updates and perhaps the response for a sent request.
	async fn remote_answers(&mut self) {
		let open: Vec<usize> = (0..self.sent.len()).filter(|i| !self.sent[*i].closed).collect();
		if open.is_empty() {
			return;
		}
		let i = *self.rng.pick(&open);
		let id = self.sent[i].h.request_id();
		let n = self.rng.below(4);
		for _ in 0..n {
			let f = Frame::new(RESP_UPDATE, id, any_i32(&mut self.rng), self.body());
			self.put(&f).await;
			self.sent[i].queue.push_back(f);
		}
		let mut what = format!("{n} updates for request {i}");
		if self.rng.chance(1, 2) {
			let f = if self.rng.chance(1, 2) {
				let max = self.cfg.max_read as usize;
				let t = text(&mut self.rng, max);
				self.obs.count("error_responses_in", 1);
				Frame::new(RESPONSE, id, -1, t.into_bytes())
			} else {
				Frame::new(RESPONSE, id, any_i32(&mut self.rng), self.body())
			};
			what += if f.svc == -1 { " and an error response" } else { " and the response" };
			self.put(&f).await;
			self.sent[i].queue.push_back(f);
			self.sent[i].closed = true;
		}
		self.trace.push(what);
		self.settle().await;
	}

	/// Use a sent request.
	async fn use_sent(&mut self) {
		let ready: Vec<usize> = (0..self.sent.len()).filter(|i| !self.sent[*i].queue.is_empty() || self.sent[*i].done).collect();
		if ready.is_empty() {
			return;
		}
		let i = *self.rng.pick(&ready);
		let mut s = self.sent.swap_remove(i);
		if s.done {
			let svc = any_i32(&mut self.rng);
			let Some((h, r)) = self.call("send_update", async move { let r = s.h.send_update(svc, K::body(vec![1])).await; (s.h, r) }).await else { return };
			self.trace.push("update for a finished request".into());
			self.check_error("finished-misreported", "an update for a finished request", r);
			self.sent.push(Sent { h, queue: s.queue, closed: true, done: true });
			return;
		}
		let want = s.queue.front().cloned().unwrap();
		if want.ty == RESP_UPDATE && self.rng.chance(2, 3) {
			let n = self.rng.range(1, 3);
			self.trace.push(format!("recv_response {n} times with an update queued"));
			for _ in 0..n {
				let Some((h, r)) = self.call("recv_response", async move { let r = s.h.recv_response().await; (s.h, r) }).await else { return };
				s.h = h;
				match r {
					Ok(m) => {
						let f = frame_of::<K>(m);
						self.foreign(format!("recv_response gives {f:?} while {want:?} is queued"));
					}
					Err(e) => {
						self.obs.count("wrong_kind", 1);
						if !e.is_unexpected_message_type() || e.is_connection_aborted() || e.is_remote_error() {
							self.fail("wrong-kind-misreported", format!("the response was asked for while an update was queued: reported as {} ({e})", err_class(&e)));
						}
					}
				}
				if self.stop() {
					return;
				}
			}
		}
		if want.ty == RESPONSE && self.rng.chance(1, 3) {
			let Some((h, r)) = self.call("recv_update", async move { let r = s.h.recv_update().await; (s.h, r) }).await else { return };
			s.h = h;
			if r.is_some() {
				self.foreign("an update that was not sent".into());
				return;
			}
		}
		let response = want.ty == RESPONSE;
		let Some((h, r)) = self.call("receive", async move {
			let r = if response { s.h.recv_response().await } else { Ok(s.h.recv_update().await.expect("no update")) };
			(s.h, r)
		}).await else { return };
		s.h = h;
		s.queue.pop_front();
		match r {
			Ok(m) => {
				let f = frame_of::<K>(m);
				if f != want {
					if want.svc == -1 {
						self.fail("error-response-altered", format!("the remote sent {want:?}, received {f:?}"));
					} else {
						self.foreign(format!("the remote sent {want:?}, received {f:?}"));
					}
				}
				if response {
					s.done = true;
				}
				self.obs.count("request_messages", 1);
			}
			Err(e) => self.fail("response-misreported", format!("the response {want:?} had arrived, recv_response reported {} ({e})", err_class(&e))),
		}
		self.sent.push(s);
	}

	async fn use_rcvd(&mut self) {
		if self.rcvd.is_empty() {
			return;
		}
		let i = self.rng.below(self.rcvd.len());
		let r = self.rcvd.swap_remove(i);
		let h = r.h;
		let id = h.request_id();
		let max = self.cfg.max_write as usize;
		if r.done {
			let kind = self.rng.below(3);
			let Some((h, e)) = self.call("late call", async move {
				let e = match kind {
					0 => h.send_update(3, K::body(vec![1])).await,
					1 => h.send_response(3, K::body(vec![1])).await,
					_ => h.send_error_response("late").await,
				};
				(h, e)
			}).await else { return };
			self.trace.push("late call".into());
			self.check_error("finished-misreported", "a call for a finished request", e);
			self.rcvd.push(Rcvd { h, done: true });
			return;
		}
		if self.rng.chance(1, 3) {
			// Too large.
			let kind = self.rng.below(3);
			let n = max + 1 + self.rng.below(100);
			let t = text(&mut self.rng, n);
			let t = if t.len() <= max { "y".repeat(n) } else { t };
			let Some((h, e)) = self.call("oversized call", async move {
				let e = match kind {
					0 => h.send_update(3, K::body(vec![1; n])).await,
					1 => h.send_response(3, K::body(vec![1; n])).await,
					_ => h.send_error_response(&t).await,
				};
				(h, e)
			}).await else { return };
			self.trace.push(format!("oversized call (kind {kind}) for a received request"));
			self.check_error("oversize-misreported", "an oversized message", e);
			self.rcvd.push(Rcvd { h, done: false });
			return;
		}
		let t = text(&mut self.rng, max);
		let err = self.rng.chance(2, 3);
		let bytes = t.clone().into_bytes();
		let Some((h, e)) = self.call("respond", async move {
			let e = if err { h.send_error_response(&t).await } else { h.send_response(5, K::body(vec![4])).await };
			(h, e)
		}).await else { return };
		self.trace.push(if err { format!("error response with {} bytes", bytes.len()) } else { "response".into() });
		if let Err(e) = e {
			self.fail("send-failed", format!("responding reported {} ({e}) on a working connection", err_class(&e)));
			return;
		}
		let got = self.wire().await;
		if err {
			let want = Frame::new(RESPONSE, id, -1, bytes);
			self.obs.count("error_responses_out", 1);
			if got.as_ref() != Some(&want) {
				self.fail("error-response-altered", format!("send_error_response: expected {want:?} on the wire, got {got:?}"));
			}
		}
		self.rcvd.push(Rcvd { h, done: true });
		self.remote_ids.retain(|x| *x != id);
	}

	async fn oversized(&mut self) {
		let n = self.cfg.max_write as usize + 1 + self.rng.below(100);
		let w = self.write.clone();
		let stream = self.rng.chance(1, 2);
		let Some(e) = self.call("oversized call", async move {
			if stream { w.send_stream(3, K::body(vec![1; n])).await } else { w.send_request(3, K::body(vec![1; n])).await.map(|_| ()) }
		}).await else { return };
		self.trace.push(format!("oversized {}", if stream { "stream" } else { "request" }));
		self.check_error("oversize-misreported", "an oversized message", e);
	}

	/// So many open requests in a row that no ID is found.
	async fn exhaust(&mut self) {
		self.trace.push("no free ID".into());
		let start = loop {
			let s = any_u32(&mut self.rng);
			if (0..101).all(|i| !self.sent.iter().any(|x| x.h.request_id() == s.wrapping_add(i))) {
				break s;
			}
		};
		let mut held = vec![];
		fizyr_rpc::verify::set_next_request_id(start);
		for _ in 0..300 {
			let w = self.write.clone();
			let Some(r) = self.call("send_request", async move { w.send_request(1, K::body(vec![])).await }).await else { return };
			match r {
				Ok(h) => {
					self.wire().await;
					held.push(h);
				}
				Err(e) => {
					self.fail("send-failed", format!("send_request reported {} ({e}) on a working connection", err_class(&e)));
					return;
				}
			}
			if held.len() >= 100 && self.rng.chance(1, 3) {
				break;
			}
		}
		let w = self.write.clone();
		fizyr_rpc::verify::set_next_request_id(start);
		let Some(r) = self.call("send_request", async move { w.send_request(1, K::body(vec![])).await.map(|h| { drop(h); }) }).await else { return };
		match r {
			// Another way to look for a free ID is fine too.
			Ok(()) => {
				self.wire().await;
			}
			Err(e) => self.check_error("no-id-misreported", "a request for which no ID is free", Err(e)),
		}
		for h in held {
			let f = Frame::new(RESPONSE, h.request_id(), 0, vec![]);
			self.put(&f).await;
			self.settle().await;
		}
	}

	async fn end(&mut self) {
		// Messages that are still in the socket or the queue when the connection ends.
		if self.rng.chance(1, 2) {
			for _ in 0..self.rng.below(5) {
				self.remote_sends().await;
			}
		}
		let mut unclean: Option<&'static str> = None;
		let mut local = false;
		let pending = if self.rng.chance(1, 3) && self.incoming.is_empty() {
			let mut h = self.read.take().unwrap();
			Some(self.sim.spawn("recv_message", async move { let r = h.recv_message().await; (h, r) }))
		} else {
			None
		};
		if pending.is_some() && self.rng.chance(2, 3) {
			self.settle().await;
		}
		let pick = self.rng.below(9);
		match pick {
			0 | 1 => {
				self.trace.push("the remote ends its sending".into());
				self.raw.shutdown_write();
			}
			2 => {
				self.trace.push("the remote closes".into());
				// Nothing unread is left in the socket of the remote, so this is clean.
				self.raw.drain();
				let (a, _) = K::pair();
				let end = self.cfg.end();
				self.raw = Raw::new(a, K::DATAGRAM, end);
			}
			3 | 4 => {
				// Nothing may be lost in the peer, so let it arrive first.
				self.settle().await;
				if pending.is_none() {
					self.receive(true).await;
				}
				self.trace.push("local close".into());
				local = true;
				let c = self.write.close_handle();
				match self.rng.below(3) {
					0 => c.close(),
					1 => self.write.close(),
					_ => match &self.read {
						Some(r) => r.close(),
						None => c.close(),
					},
				}
			}
			5 if K::TCP => {
				self.settle().await;
				if pending.is_none() {
					self.receive(true).await;
				}
				self.trace.push("the remote resets".into());
				let l = libc::linger { l_onoff: 1, l_linger: 0 };
				unsafe { libc::setsockopt(self.raw.raw_fd(), libc::SOL_SOCKET, libc::SO_LINGER, &l as *const _ as *const _, 8) };
				let (a, _) = K::pair();
				let end = self.cfg.end();
				self.raw = Raw::new(a, K::DATAGRAM, end);
				unclean = Some("a reset by the remote");
			}
			_ => {
				let mut f = Frame::new(5 + self.rng.u32() % 1000, 1, 2, vec![3; 9]);
				if self.rng.chance(1, 3) {
					f.ty = u32::MAX - self.rng.below(3) as u32;
				}
				let mut b = f.encode(self.cfg.end(), K::DATAGRAM);
				let what = if K::DATAGRAM {
					if self.rng.chance(1, 2) {
						b.truncate(1 + self.rng.below(11));
						"a datagram without a complete header"
					} else {
						"an unknown message type"
					}
				} else {
					match self.rng.below(3) {
						0 => {
							let n = self.rng.below(12) as u32;
							b[..4].copy_from_slice(&self.cfg.end().put(n));
							"a message without a complete header"
						}
						1 => {
							let n = self.cfg.max_read + 13 + self.rng.below(1000) as u32;
							b = Frame::new(self.rng.below(5) as u32, 1, 2, vec![]).encode(self.cfg.end(), false);
							b[..4].copy_from_slice(&self.cfg.end().put(n));
							"an oversized message"
						}
						_ => "an unknown message type",
					}
				};
				self.trace.push(format!("the remote sends {what}"));
				let _ = self.raw.try_send_some(&b, &[]);
				if self.rng.chance(1, 2) {
					self.trace.push("and ends its sending".into());
					self.raw.shutdown_write();
				}
				unclean = Some(what);
			}
		}
		let first = match pending {
			Some(p) => {
				for i in 0..60 {
					self.sim.settle(100_000).await;
					if p.is_done() {
						break;
					}
					std::thread::sleep(Duration::from_millis(i));
				}
				match p.take() {
					Some((h, r)) => {
						self.read = Some(h);
						Some(r)
					}
					None => {
						self.foreign("a pending recv_message does not complete".into());
						return;
					}
				}
			}
			None => None,
		};
		self.settle().await;
		if first.is_none() {
			self.receive(true).await;
		}
		if self.stop() {
			return;
		}
		// Then the end.
		let n = self.rng.range(1, 4);
		let mut got = vec![];
		if let Some(r) = first {
			if !self.incoming.is_empty() {
				// It got one of the messages.
				self.foreign("messages are left".into());
				return;
			}
			got.push(r);
		}
		for _ in 0..n {
			let mut h = self.read.take().unwrap();
			let Some((h, r)) = self.call("recv_message", async move { let r = h.recv_message().await; (h, r) }).await else { return };
			self.read = Some(h);
			got.push(r);
		}
		for (k, r) in got.iter().enumerate() {
			let Err(e) = r else {
				let d = Self::describe(r);
				self.foreign(format!("a message after the end: {d}"));
				return;
			};
			let c = err_class(e);
			let ok = match unclean {
				Some(_) if k == 0 => c == "other",
				_ => c == "aborted",
			};
			if !ok {
				let key = if unclean.is_some() && k == 0 { "unclean-misreported" } else { "end-misreported" };
				let d = format!("{}: call {k} of recv_message after the end reported {c} ({e})", unclean.unwrap_or(if local { "local close" } else { "clean end" }));
				self.fail(key, d);
			}
		}
		self.obs.count(if unclean.is_some() { "unclean_ends" } else { "clean_ends" }, 1);
		if self.stop() {
			return;
		}
		for i in 0..60 {
			if self.run.is_done() {
				break;
			}
			self.sim.settle(100_000).await;
			std::thread::sleep(Duration::from_millis(i));
		}
		if !self.run.is_done() {
			self.foreign("the peer does not end".into());
			return;
		}
		for _ in 0..self.rng.range(1, 3) {
			let w = self.write.clone();
			let stream = self.rng.chance(1, 2);
			let big = if self.rng.chance(1, 4) { self.cfg.max_write as usize + 5 } else { 3 };
			let Some(r) = self.call("send", async move {
				if stream { w.send_stream(3, K::body(vec![1; big])).await } else { w.send_request(3, K::body(vec![1; big])).await.map(|_| ()) }
			}).await else { return };
			match r {
				Ok(()) => self.foreign("a send succeeded after the end".into()),
				Err(e) if !e.is_connection_aborted() && big == 3 => self.fail("send-after-end-misreported", format!("a send after the end of the connection reported {} ({e})", err_class(&e))),
				Err(_) => self.obs.count("sends_after_end", 1),
			}
		}
		// Open requests: what arrived can still be received, then the end is reported.
		let sent = std::mem::take(&mut self.sent);
		for mut s in sent {
			if s.closed || self.stop() {
				continue;
			}
			let n = s.queue.len();
			let Some((u, r)) = self.call("recv_response", async move {
				let mut u = 0;
				while s.h.recv_update().await.is_some() {
					u += 1;
				}
				(u, s.h.recv_response().await)
			}).await else { return };
			if u != n && pick != 5 && !local {
				self.foreign(format!("{u} of {n} updates"));
			}
			match r {
				Ok(_) => self.foreign("a response that was not sent".into()),
				Err(e) if !e.is_connection_aborted() => self.fail("response-after-end-misreported", format!("waiting for a response after the end of the connection reported {} ({e})", err_class(&e))),
				Err(_) => self.obs.count("responses_after_end", 1),
			}
		}
	}
}

async fn case<K: Kit>(seed: u64) -> Obs {
	let mut rng = Rng::new(seed);
	let sim = Sim::new(rng.u64());
	let mut cfg = Cfg::default();
	cfg.endian = *rng.pick(&[ECfg::Little, ECfg::Big, ECfg::Native]);
	cfg.max_read = rng.range(30, 400) as u32;
	cfg.max_write = rng.range(30, 400) as u32;
	let (a, b) = K::pair();
	let _ = a.as_raw_fd();
	let (p, h) = Peer::new(K::transport(a, &cfg));
	let run = sim.spawn("peer", p.run());
	let (read, write) = h.split();
	let mut w = World::<K> {
		sim: sim.clone(),
		obs: Obs::default(),
		raw: Raw::new(b, K::DATAGRAM, cfg.end()),
		cfg,
		read: Some(read),
		write,
		sent: vec![],
		rcvd: vec![],
		incoming: VecDeque::new(),
		run,
		remote_ids: vec![],
		trace: vec![],
		rng,
	};
	let steps = w.rng.below(30);
	for _ in 0..steps {
		if w.stop() {
			break;
		}
		match w.rng.below(20) {
			0..=5 => w.remote_sends().await,
			6 | 7 => w.send_request().await,
			8 | 9 => w.remote_answers().await,
			10..=12 => {
				w.settle().await;
				w.use_sent().await
			}
			13..=15 => w.use_rcvd().await,
			16 => w.oversized().await,
			17 if w.rng.chance(1, 10) => w.exhaust().await,
			_ => w.receive(false).await,
		}
	}
	if !w.stop() {
		w.receive(true).await;
	}
	if !w.stop() {
		w.end().await;
	}
	let sim = w.sim.clone();
	check_panics(&sim, &mut w.obs);
	let mut obs = std::mem::take(&mut w.obs);
	obs.sample = format!("{}: {}", K::NAME, w.trace.join("; "));
	obs.signature = Some(hash_bytes(obs.sample.as_bytes()));
	sim.clear();
	drop(w);
	for _ in 0..5 {
		driver_turn().await;
	}
	obs
}

pub fn run(rep: &Report, quick: u64) {
	rep.rule("errors: random histories of valid, unmatched, duplicate and oversized messages, late and oversized calls and error responses, then an end of the connection (clean, local, undecodable input, reset); the public classification of every error is compared with what happened; distinct = histories");
	let t = rep.settings.thorough();
	let n = if t { quick * 40 } else { quick };
	let secs = if t { 400.0 } else { 90.0 };
	rep.run_cases("errors", n, secs, 8, |seed| {
		block_on(async move {
			match seed % 5 {
				0 | 1 => case::<UnixS>(seed).await,
				2 => case::<Tcp>(seed).await,
				_ => case::<Seq>(seed).await,
			}
		})
	});
	for k in ["problems_reported", "clean_ends", "unclean_ends", "sends_after_end", "responses_after_end", "wrong_kind", "error_responses_in", "error_responses_out", "errors_oversize-misreported", "errors_finished-misreported"] {
		rep.require(k, 500);
	}
	rep.require("errors_no-id-misreported", 20);
}
