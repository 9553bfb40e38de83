//! Two peers, many concurrent users on both sides, random interleavings; the complete log of calls is checked afterwards:
//! conservation, exactly-once, order and routing of every message.

use crate::chaos::{self, Mode};
use crate::kit::*;
use crate::proxy::*;
use crate::report::*;
use crate::rng::{hash_bytes, Rng};
use crate::sim::*;
use crate::util::*;
use fizyr_rpc::*;
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::os::fd::AsRawFd;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Class {
	Request,
	Stream,
	/// Update from the requester.
	ReqUpdate,
	/// Update from the responder.
	RespUpdate,
	Response,
}

#[derive(Debug, Clone)]
pub struct Msg {
	side: usize,
	class: Class,
	/// The uid of the request it belongs to.
	req: u64,
	svc: i32,
	len: usize,
	start: u64,
	ack: Option<u64>,
	failed: Option<&'static str>,
	cancelled: bool,
	recv: Vec<u64>,
}

#[derive(Clone, Debug)]
struct Plan {
	client_updates: usize,
	server_updates: usize,
	error_response: bool,
	/// The server responds only after it has seen the last client update.
	strict: bool,
	client_mode: usize,
	server_mode: usize,
	/// Receivers of this request wait for the gate.
	slow: bool,
}

pub struct Soup<K: Kit> {
	sim: Sim,
	seq: Cell<u64>,
	msgs: RefCell<BTreeMap<u64, Msg>>,
	plans: RefCell<BTreeMap<u64, Plan>>,
	next_uid: Cell<u64>,
	bad: RefCell<Vec<Violation>>,
	errors: RefCell<[BTreeMap<&'static str, u64>; 2]>,
	/// Requests in flight per side, to limit memory.
	gate: Cell<bool>,
	gate_notify: tokio::sync::Notify,
	rng: RefCell<Rng>,
	cfg: SoupCfg,
	tcfg: Cfg,
	/// The connection is being ended: failures are expected from now on.
	ending: Cell<bool>,
	cancelled_recvs: Cell<u64>,
	cancelled_sends: Cell<u64>,
	_k: std::marker::PhantomData<K>,
}

#[derive(Clone, Debug, Default)]
pub struct SoupCfg {
	pub prop: &'static str,
	pub cancel_recv: usize,
	pub cancel_send: usize,
	/// Percentage of requests whose response may overtake client updates.
	pub racy: usize,
	/// Percentage of requests with receivers that do not read until everything else is done.
	pub slow: usize,
	pub end_early: usize,
	pub big: bool,
	pub tiny_buffers: bool,
}

const LAST: i32 = 77;

impl<K: Kit> Soup<K> {
	fn tick(&self) -> u64 {
		let s = self.seq.get() + 1;
		self.seq.set(s);
		s
	}

	fn rand(&self, n: usize) -> usize {
		self.rng.borrow_mut().below(n)
	}

	fn pct(&self, p: usize) -> bool {
		self.rng.borrow_mut().chance(p, 100)
	}

	fn violation(&self, key: &str, detail: String) {
		let mut b = self.bad.borrow_mut();
		if b.len() < 10 {
			b.push(Violation::new(key, format!("{}: {detail}", K::NAME)));
		}
	}

	fn new_msg(&self, side: usize, class: Class, req: Option<u64>, svc: i32) -> (u64, Vec<u8>) {
		let uid = self.next_uid.get() + 1;
		self.next_uid.set(uid);
		let len = 8 + match self.rand(10) {
			0 if self.cfg.big => self.rand(self.tcfg.max_write as usize - 8),
			1 if self.cfg.big => self.tcfg.max_write as usize - 8,
			2 => self.rand(2000),
			_ => self.rand(40),
		};
		let start = self.tick();
		let m = Msg { side, class, req: req.unwrap_or(uid), svc, len, start, ack: None, failed: None, cancelled: false, recv: vec![] };
		self.msgs.borrow_mut().insert(uid, m);
		(uid, tagged_body(uid, len))
	}

	fn sent(&self, uid: u64, r: &Result<(), &'static str>) {
		let t = self.tick();
		let mut m = self.msgs.borrow_mut();
		let m = m.get_mut(&uid).unwrap();
		match r {
			Ok(()) => m.ack = Some(t),
			Err(e) => m.failed = Some(e),
		}
	}

	/// Record the receipt of a message at a place; `req` is the request the handle belongs to.
	fn received(&self, side: usize, class: Class, req: Option<u64>, svc: i32, body: &[u8], place: &str) -> Option<u64> {
		let t = self.tick();
		let Some(uid) = uid_of(body) else {
			self.violation("corrupt", format!("received a message without ID at {place}: {body:02x?}"));
			return None;
		};
		let mut msgs = self.msgs.borrow_mut();
		let Some(m) = msgs.get_mut(&uid) else {
			drop(msgs);
			self.violation("fabricated", format!("received a message nobody sent at {place}: uid {uid:x}, {} bytes", body.len()));
			return None;
		};
		m.recv.push(t);
		let m = m.clone();
		drop(msgs);
		if body != tagged_body(uid, m.len) {
			self.violation("corrupt", format!("message {uid} ({:?}, {} bytes) arrived altered ({} bytes) at {place}", m.class, m.len, body.len()));
		}
		if m.svc != svc {
			self.violation("service-id", format!("message {uid} ({:?}) was sent with service {} and received with {svc} at {place}", m.class, m.svc));
		}
		if m.class != class || m.side == side || req.map_or(false, |r| r != m.req) {
			self.violation("misrouted", format!("message {uid} ({:?} of request {} by side {}) was received at {place} on side {side} (request {req:?})", m.class, m.req, m.side));
		}
		if m.recv.len() > 1 {
			self.violation("duplicate", format!("message {uid} ({:?}) was received {} times", m.class, m.recv.len()));
		}
		Some(uid)
	}

	async fn gate(&self) {
		while !self.gate.get() {
			let n = self.gate_notify.notified();
			n.await;
		}
	}

	/// Poll a future at most `k` times, then drop it.
	async fn cancel_after<F: std::future::Future>(&self, fut: F, k: usize) -> Option<F::Output> {
		use std::task::Poll;
		let mut fut = Box::pin(fut);
		let mut left = k;
		std::future::poll_fn(move |cx| {
			if left == 0 {
				return Poll::Ready(None);
			}
			left -= 1;
			match fut.as_mut().poll(cx) {
				Poll::Ready(x) => Poll::Ready(Some(x)),
				Poll::Pending => {
					if left == 0 {
						return Poll::Ready(None);
					}
					cx.waker().wake_by_ref();
					Poll::Pending
				}
			}
		})
		.await
	}

	/// Run a send with logging and maybe cancellation. None if it was cancelled.
	async fn send<T>(&self, uid: u64, fut: impl std::future::Future<Output = Result<T, Error>>, cancellable: bool) -> Option<Result<T, &'static str>> {
		let cancel = cancellable && self.cfg.cancel_send > 0 && self.pct(self.cfg.cancel_send);
		self.send_or_cancel(uid, fut, cancel).await
	}

	async fn send_or_cancel<T>(&self, uid: u64, fut: impl std::future::Future<Output = Result<T, Error>>, cancel: bool) -> Option<Result<T, &'static str>> {
		let r = if cancel {
			let k = self.rand(5);
			match self.cancel_after(fut, k).await {
				None => {
					self.cancelled_sends.set(self.cancelled_sends.get() + 1);
					self.msgs.borrow_mut().get_mut(&uid).unwrap().cancelled = true;
					return None;
				}
				Some(r) => r,
			}
		} else {
			fut.await
		};
		let r = r.map_err(|e| err_class(&e));
		self.sent(uid, &r.as_ref().map(drop).map_err(|e| *e));
		Some(r)
	}

	fn cancel_recv_now(&self) -> Option<usize> {
		if self.cfg.cancel_recv > 0 && self.pct(self.cfg.cancel_recv) {
			self.cancelled_recvs.set(self.cancelled_recvs.get() + 1);
			Some(self.rand(3))
		} else {
			None
		}
	}

	fn unexpected(&self, what: &str, class: &str) {
		if !self.ending.get() {
			self.violation("unexpected-error", format!("{what} failed ({class}) while the connection is up"));
		}
	}
}

/// Sends requests and streams.
async fn client<K: Kit>(s: Rc<Soup<K>>, side: usize, w: PeerWriteHandle<K::B>, n: usize) {
	for _ in 0..n {
		if s.rand(4) == 0 {
			yields(s.rand(4)).await;
		}
		if s.rand(3) == 0 {
			let svc = s.rand(1000) as i32;
			let (uid, body) = s.new_msg(side, Class::Stream, None, svc);
			if let Some(Err(e)) = s.send(uid, w.send_stream(svc, K::body(body)), true).await {
				s.unexpected("send_stream", e);
				return;
			}
			continue;
		}
		let svc = s.rand(1000) as i32 - 1001;
		let cancel = s.cfg.cancel_send > 0 && s.pct(s.cfg.cancel_send);
		let plan = Plan {
			client_updates: if s.rand(3) == 0 { 0 } else { s.rand(6) },
			server_updates: if s.rand(3) == 0 { 0 } else { s.rand(6) },
			error_response: s.rand(5) == 0,
			strict: !cancel && !s.pct(s.cfg.racy),
			client_mode: s.rand(3),
			server_mode: s.rand(3),
			slow: s.pct(s.cfg.slow),
		};
		let (uid, body) = s.new_msg(side, Class::Request, None, svc);
		s.plans.borrow_mut().insert(uid, plan.clone());
		let h = match s.send_or_cancel(uid, w.send_request(svc, K::body(body)), cancel).await {
			None => continue,
			Some(Err(e)) => {
				s.unexpected("send_request", e);
				return;
			}
			Some(Ok(h)) => h,
		};
		let (s1, s2) = (s.clone(), s.clone());
		let write = h.write_handle();
		let p2 = plan.clone();
		s.sim.spawn(if plan.slow { "slow-client" } else { "client-send" }, async move { client_sender(s1, side, uid, write, p2).await });
		let recv = async move { client_receiver::<K>(s2, side, uid, h, plan).await };
		if s.rand(2) == 0 {
			recv.await;
		} else {
			s.sim.spawn("client-recv", recv);
		}
	}
}

async fn client_sender<K: Kit>(s: Rc<Soup<K>>, side: usize, req: u64, w: SentRequestWriteHandle<K::B>, plan: Plan) {
	for k in 0..plan.client_updates {
		let last = k + 1 == plan.client_updates;
		let svc = if last { LAST } else { s.rand(50) as i32 };
		let (uid, body) = s.new_msg(side, Class::ReqUpdate, Some(req), svc);
		if let Some(Err(e)) = s.send(uid, w.send_update(svc, K::body(body)), !last).await {
			if plan.strict {
				s.unexpected("send_update on a sent request", e);
			}
			return;
		}
		if s.rand(4) == 0 {
			yields(s.rand(4)).await;
		}
	}
}

async fn client_receiver<K: Kit>(s: Rc<Soup<K>>, side: usize, req: u64, mut h: SentRequestHandle<K::B>, plan: Plan) {
	if plan.slow {
		s.gate().await;
	}
	let mut use_response = plan.client_mode == 1;
	loop {
		if plan.client_mode == 2 {
			use_response = s.rand(2) == 0;
		}
		if use_response {
			let r = match s.cancel_recv_now() {
				Some(k) => match s.cancel_after(h.recv_response(), k).await {
					None => continue,
					Some(r) => r,
				},
				None => h.recv_response().await,
			};
			match r {
				Ok(m) => {
					let f = frame_of::<K>(m);
					let place = format!("recv_response of request {req}");
					if plan.error_response {
						error_response(&s, side, req, &f, &place);
					} else {
						s.received(side, Class::Response, Some(req), f.svc, &f.body, &place);
					}
					break;
				}
				Err(e) if e.is_unexpected_message_type() => {
					use_response = false;
				}
				Err(e) => {
					s.unexpected("recv_response", err_class(&e));
					return;
				}
			}
		} else {
			let r = match s.cancel_recv_now() {
				Some(k) => match s.cancel_after(h.recv_update(), k).await {
					None => continue,
					Some(r) => r,
				},
				None => h.recv_update().await,
			};
			match r {
				Some(m) => {
					let f = frame_of::<K>(m);
					s.received(side, Class::RespUpdate, Some(req), f.svc, &f.body, &format!("recv_update of request {req}"));
					use_response = plan.client_mode == 1;
				}
				None => use_response = true,
			}
		}
		if s.rand(6) == 0 {
			yields(s.rand(4)).await;
		}
	}
	// Nothing may follow the response.
	if let Some(m) = h.recv_update().await {
		s.violation("after-response", format!("an update was received after the response of request {req}: {:?}", frame_of::<K>(m)));
	}
	if h.recv_response().await.is_ok() {
		s.violation("after-response", format!("a second response was received for request {req}"));
	}
	if s.rand(3) == 0 {
		let (uid, body) = s.new_msg(side, Class::ReqUpdate, Some(req), 5);
		let r = h.send_update(5, K::body(body)).await.map_err(|e| err_class(&e));
		s.sent(uid, &r);
		if r.is_ok() {
			s.violation("late-send", format!("an update was accepted after the response of request {req} was received"));
		}
	}
}

fn error_response<K: Kit>(s: &Soup<K>, side: usize, req: u64, f: &crate::wire::Frame, place: &str) {
	let text = String::from_utf8_lossy(&f.body).to_string();
	let uid: Option<u64> = text.strip_prefix("error ").and_then(|x| x.parse().ok());
	let t = s.tick();
	let mut msgs = s.msgs.borrow_mut();
	match uid.and_then(|u| msgs.get_mut(&u).map(|m| (u, m))) {
		Some((uid, m)) => {
			m.recv.push(t);
			let m = m.clone();
			drop(msgs);
			if m.class != Class::Response || m.req != req || m.side == side || f.svc != -1 {
				s.violation("misrouted", format!("error response {uid} of request {} was received at {place} with service {}", m.req, f.svc));
			}
			if m.recv.len() > 1 {
				s.violation("duplicate", format!("error response {uid} was received {} times", m.recv.len()));
			}
		}
		None => {
			drop(msgs);
			s.violation("fabricated", format!("an error response nobody sent was received at {place}: {text:?}"));
		}
	}
}

async fn server<K: Kit>(s: Rc<Soup<K>>, side: usize, mut r: PeerReadHandle<K::B>, keep_open: Rc<Cell<bool>>) {
	loop {
		let m = match s.cancel_recv_now() {
			Some(k) => match s.cancel_after(r.recv_message(), k).await {
				None => continue,
				Some(m) => m,
			},
			None => r.recv_message().await,
		};
		match m {
			Err(e) if e.is_connection_aborted() => {
				s.unexpected("recv_message", "aborted");
				// It must stay that way.
				if let Ok(m) = r.recv_message().await {
					s.violation("after-end", format!("{m:?} was received after the end of the connection was reported"));
				}
				if keep_open.get() {
					std::future::pending::<()>().await;
				}
				return;
			}
			Err(e) => {
				let c = err_class(&e);
				*s.errors.borrow_mut()[side].entry(c).or_insert(0) += 1;
			}
			Ok(ReceivedMessage::Stream(m)) => {
				let f = frame_of::<K>(m);
				s.received(side, Class::Stream, None, f.svc, &f.body, "recv_message");
			}
			Ok(ReceivedMessage::Request(h, body)) => {
				let (data, _) = K::into_parts(body);
				let Some(uid) = s.received(side, Class::Request, None, h.service_id(), &data, "recv_message") else { continue };
				let Some(plan) = s.plans.borrow().get(&uid).cloned() else { continue };
				let s2 = s.clone();
				s.sim.spawn("handler", async move { handler::<K>(s2, side, uid, h, plan).await });
			}
		}
		if s.rand(6) == 0 {
			yields(s.rand(4)).await;
		}
	}
}

async fn recv_one<K: Kit>(s: &Rc<Soup<K>>, side: usize, req: u64, h: &mut ReceivedRequestHandle<K::B>) -> Option<i32> {
	loop {
		let r = match s.cancel_recv_now() {
			Some(k) => match s.cancel_after(h.recv_update(), k).await {
				None => continue,
				Some(r) => r,
			},
			None => h.recv_update().await,
		};
		let f = frame_of::<K>(r?);
		s.received(side, Class::ReqUpdate, Some(req), f.svc, &f.body, &format!("recv_update of received request {req}"));
		return Some(f.svc);
	}
}

async fn handler<K: Kit>(s: Rc<Soup<K>>, side: usize, req: u64, mut h: ReceivedRequestHandle<K::B>, plan: Plan) {
	let w = h.write_handle();
	let send_updates = {
		let (s, w, plan) = (s.clone(), w.clone(), plan.clone());
		async move {
			for _ in 0..plan.server_updates {
				let svc = s.rand(50) as i32;
				let (uid, body) = s.new_msg(side, Class::RespUpdate, Some(req), svc);
				if let Some(Err(e)) = s.send(uid, w.send_update(svc, K::body(body)), true).await {
					s.unexpected("send_update on a received request", e);
					return false;
				}
				if s.rand(4) == 0 {
					yields(s.rand(4)).await;
				}
			}
			true
		}
	};
	if plan.slow {
		s.gate().await;
	}
	let mut saw_last = plan.client_updates == 0;
	if plan.server_mode == 0 {
		// Send everything first, then read.
		if !send_updates.await {
			return;
		}
		while plan.strict && !saw_last {
			match recv_one(&s, side, req, &mut h).await {
				Some(svc) => saw_last = svc == LAST,
				None => {
					s.unexpected("recv_update of an open received request", "no more updates");
					return;
				}
			}
		}
	} else {
		let done = Rc::new(Cell::new(None));
		let done2 = done.clone();
		let notify = Rc::new(tokio::sync::Notify::new());
		let n2 = notify.clone();
		s.sim.spawn("handler-send", async move {
			done2.set(Some(send_updates.await));
			n2.notify_one();
		});
		while plan.strict && !saw_last {
			match recv_one(&s, side, req, &mut h).await {
				Some(svc) => saw_last = svc == LAST,
				None => {
					s.unexpected("recv_update of an open received request", "no more updates");
					return;
				}
			}
		}
		while done.get().is_none() {
			notify.notified().await;
		}
		if done.get() == Some(false) {
			return;
		}
	}
	// Respond, possibly after a cancelled attempt.
	loop {
		let (uid, body) = s.new_msg(side, Class::Response, Some(req), if plan.error_response { -1 } else { 9 });
		let text = format!("error {uid}");
		let racer = s.rand(6) == 0;
		let racing = racer.then(|| {
			let (s, w) = (s.clone(), w.clone());
			let (uid, body) = s.new_msg(side, Class::RespUpdate, Some(req), 3);
			let s2 = s.clone();
			s2.sim.spawn("handler-late", async move {
				let _ = s.send(uid, w.send_update(3, K::body(body)), false).await;
			})
		});
		drop(racing);
		let r = if plan.error_response { s.send(uid, w.send_error_response(&text), true).await } else { s.send(uid, w.send_response(9, K::body(body)), true).await };
		match r {
			None => {
				// A cancelled response may or may not have been sent; a second attempt finds out.
				continue;
			}
			Some(Err("other")) if s.msgs.borrow().values().any(|m| m.req == req && m.class == Class::Response && m.cancelled) => break,
			Some(Err(e)) => {
				s.unexpected("send_response", e);
				break;
			}
			Some(Ok(())) => break,
		}
	}
	// Read whatever is left.
	while recv_one(&s, side, req, &mut h).await.is_some() {}
}

/// Check the log.
fn judge<K: Kit>(s: &Soup<K>, ended_early: bool, obs: &mut Obs) {
	let msgs = s.msgs.borrow();
	// Channels: per side requests and streams; per request and direction.
	let mut channels: BTreeMap<(usize, u64), Vec<(u64, &Msg)>> = BTreeMap::new();
	for (uid, m) in msgs.iter() {
		let key = match m.class {
			Class::Request | Class::Stream => (m.side, 0),
			_ => (m.side, m.req),
		};
		channels.entry(key).or_default().push((*uid, m));
	}
	let mut lost_racy = [0u64; 2];
	let mut slack = [0u64; 2];
	for (key, list) in &channels {
		let mut got: Vec<&(u64, &Msg)> = list.iter().filter(|(_, m)| !m.recv.is_empty()).collect();
		got.sort_by_key(|(_, m)| m.recv[0]);
		// Order: no message is received before one that was acknowledged before it was sent.
		let mut min_ack = u64::MAX;
		for (uid, m) in got.iter().rev() {
			if min_ack < m.start {
				let key = if key.1 == 0 { "order" } else { "update-order" };
				s.violation(key, format!("message {uid} ({:?} by side {}) was received before a message that was sent earlier", m.class, m.side));
			}
			if let Some(a) = m.ack {
				min_ack = min_ack.min(a);
			}
		}
		// A response is the last message of its request.
		if let Some(p) = got.iter().position(|(_, m)| m.class == Class::Response) {
			if p + 1 != got.len() {
				s.violation("after-response", format!("messages of request {} were received after its response", key.1));
			}
		}
		let last_start = got.iter().map(|(_, m)| m.start).max().unwrap_or(0);
		for (uid, m) in list {
			if !m.recv.is_empty() {
				if let Some(e) = m.failed {
					if !s.ending.get() {
						s.violation("failed-but-received", format!("message {uid} ({:?}) was received although sending it reported an error ({e})", m.class));
					}
				}
				continue;
			}
			if m.cancelled || m.failed.is_some() && s.ending.get() {
				slack[1 - m.side] += 1;
				continue;
			}
			let Some(ack) = m.ack else {
				continue;
			};
			let racy = m.class == Class::ReqUpdate && s.plans.borrow().get(&m.req).map_or(false, |p| !p.strict);
			if racy {
				lost_racy[1 - m.side] += 1;
				continue;
			}
			// The requester gave up: nobody is there to receive anything for the request.
			if matches!(m.class, Class::RespUpdate | Class::Response) && msgs[&m.req].cancelled {
				slack[1 - m.side] += 1;
				continue;
			}
			// Nobody reads updates of a request whose receiver saw the end of the connection first; holes are never allowed.
			if !ended_early || ack < last_start {
				s.violation("lost", format!("message {uid} ({:?} of request {} by side {}, {} bytes) was acknowledged but never received", m.class, m.req, m.side, m.len));
			}
		}
		obs.count("channels", 1);
	}
	for side in 0..2 {
		let errors: u64 = s.errors.borrow()[side].values().sum();
		if !ended_early {
			if errors < lost_racy[side] || errors > lost_racy[side] + slack[side] {
				s.violation("error-count", format!("side {side}: {errors} errors reported by recv_message, expected {} (up to {} more)", lost_racy[side], slack[side]));
			}
		} else if errors > lost_racy[side] + slack[side] + 1 {
			s.violation("error-count", format!("side {side}: {errors} errors reported by recv_message, at most {} explained", lost_racy[side] + slack[side]));
		}
	}
	obs.count("messages", msgs.len() as u64);
	obs.count("received", msgs.values().filter(|m| !m.recv.is_empty()).count() as u64);
	obs.count("cancelled_sends", s.cancelled_sends.get());
	obs.count("cancelled_receives", s.cancelled_recvs.get());
	obs.count("updates_overtaken_by_response", lost_racy.iter().sum());
}

/// Which properties a finding bears on.
pub fn props_of(key: &str, ended: bool) -> &'static [&'static str] {
	match key {
		"misrouted" | "service-id" => &["C07", "C10", "C26"],
		"duplicate" => &["C08", "C18", "C16", "C07", "C26"],
		"order" => &["C18", "C14", "C26"],
		"update-order" => &["C08", "C07", "C26"],
		"after-response" | "late-send" => &["C09", "C08", "C26"],
		"lost" if ended => &["C14", "C18", "C08", "C16", "C26"],
		"lost" => &["C08", "C18", "C07", "C16", "C17", "C14", "C26"],
		"corrupt" | "fabricated" => &["C07", "C18", "C08", "C16", "C01", "C26"],
		"failed-but-received" => &["C09", "C18", "C16", "C26"],
		"unexpected-error" => &["C07", "C11", "C16", "C17", "C18", "C08", "C14", "C26"],
		"error-count" => &["C11", "C16", "C07", "C26"],
		"after-end" => &["C13", "C14"],
		"stuck-others" => &["C17", "C07", "C18", "C16", "C26"],
		"stuck" if ended => &["C13", "C16", "C17", "C26"],
		"stuck" => &["C17", "C07", "C18", "C08", "C16", "C13", "C26"],
		"peer-does-not-end" => &["C13", "C15", "C16", "C26"],
		"panic" => &["C07", "C08", "C09", "C11", "C13", "C14", "C16", "C17", "C18", "C26"],
		_ => &["C07", "C18"],
	}
}

pub fn case<K: Kit>(cfg: &SoupCfg, seed: u64) -> Obs {
	let mut rng = Rng::new(seed);
	let mut obs = Obs::default();
	let tcfg = Cfg { max_read: 20_000, max_write: 20_000, ..Default::default() };
	let use_proxy = rng.chance(1, 3);
	let mode = if K::DATAGRAM { Mode::Off } else { *rng.pick(&[Mode::Off, Mode::Any, Mode::Rare]) };
	let small = cfg.tiny_buffers && rng.chance(2, 3);
	let end_early = rng.chance(cfg.end_early, 100);
	block_on(async {
		let sim = Sim::new(rng.u64());
		if K::TCP {
			sim.0.idle_grace_us.set(300_000);
		}
		let (fa, mut fb) = K::pair();
		if use_proxy {
			let (x, y) = K::pair();
			let ra = Rc::new(Raw::new(fb, K::DATAGRAM, tcfg.end()));
			let rb = Rc::new(Raw::new(y, K::DATAGRAM, tcfg.end()));
			fb = x;
			let (mut p1, mut p2) = (PumpCfg::random(&mut rng), PumpCfg::random(&mut rng));
			for p in [&mut p1, &mut p2] {
				p.max_read = p.max_read.max(60);
				p.max_write = p.max_write.max(60);
			}
			sim.spawn("proxy", pump(ra.clone(), rb.clone(), p1, rng.fork(), Default::default()));
			sim.spawn("proxy", pump(rb, ra, p2, rng.fork(), Default::default()));
		}
		if small && !K::TCP {
			// Seqpacket needs room for the largest message.
			let n = if K::DATAGRAM { 24_000 } else { 4608 };
			set_bufs(fa.as_raw_fd(), n, 0);
			set_bufs(fb.as_raw_fd(), n, 0);
		}
		chaos::set(fa.as_raw_fd(), mode, rng.u64());
		chaos::set(fb.as_raw_fd(), mode, rng.u64());
		let s = Rc::new(Soup::<K> {
			sim: sim.clone(),
			seq: Cell::new(0),
			msgs: Default::default(),
			plans: Default::default(),
			next_uid: Cell::new(0),
			bad: Default::default(),
			errors: Default::default(),
			gate: Cell::new(false),
			gate_notify: tokio::sync::Notify::new(),
			rng: RefCell::new(rng.fork()),
			cfg: cfg.clone(),
			tcfg: tcfg.clone(),
			ending: Cell::new(false),
			cancelled_recvs: Cell::new(0),
			cancelled_sends: Cell::new(0),
			_k: std::marker::PhantomData,
		});
		let mut runs = vec![];
		let mut closers = vec![];
		let mut writes = vec![];
		let mut servers = vec![];
		let keep = Rc::new(Cell::new(false));
		let mut clients = 0;
		for (side, fd) in [fa, fb].into_iter().enumerate() {
			let (peer, handle) = Peer::new(K::transport(fd, &tcfg));
			runs.push(sim.spawn("peer", peer.run()));
			closers.push(handle.close_handle());
			let (r, w) = handle.split();
			servers.push(sim.spawn("server", server(s.clone(), side, r, keep.clone())));
			let n = rng.below(4);
			for _ in 0..n {
				clients += 1;
				let count = 1 + rng.below(8);
				sim.spawn("client", client(s.clone(), side, w.clone(), count));
			}
			writes.push(w);
		}
		let limit = 3_000_000;
		let mut key = "stuck";
		let mut inconclusive = false;
		if end_early {
			let n = rng.below(if clients == 0 { 20 } else { 600 * clients }) as u64;
			sim.steps(n).await;
			s.ending.set(true);
			let side = rng.below(2);
			match rng.below(3) {
				0 => closers[side].close(),
				1 => {
					let c = closers.swap_remove(side);
					sim.spawn("closer", async move { c.close() });
				}
				_ => {
					// Remote vanishes: the whole peer task is dropped.
					runs[side].cancel();
				}
			}
			s.gate.set(true);
			s.gate_notify.notify_waiters();
			inconclusive |= sim.settle(limit).await == Settled::Limit;
		} else {
			inconclusive |= sim.settle(limit).await == Settled::Limit;
			// Everything but the slow requests must be finished by now.
			if cfg.slow > 0 && s.bad.borrow().is_empty() {
				let slow: Vec<u64> = s.plans.borrow().iter().filter(|(_, p)| p.slow).map(|(u, _)| *u).collect();
				let open: Vec<u64> = {
					let msgs = s.msgs.borrow();
					s.plans
						.borrow()
						.keys()
						.filter(|u| !slow.contains(u) && msgs[*u].ack.is_some() && !msgs.values().any(|m| m.req == **u && m.class == Class::Response && !m.recv.is_empty()))
						.copied()
						.collect()
				};
				if !open.is_empty() && !inconclusive {
					s.violation("stuck-others", format!("requests {open:?} make no progress while receivers of requests {slow:?} do not read"));
				}
				let unacked = s.msgs.borrow().values().filter(|m| m.ack.is_none() && m.failed.is_none() && !m.cancelled).count();
				if unacked > 0 && !inconclusive {
					s.violation("stuck-others", format!("{unacked} sends do not complete while the receivers of requests {slow:?} do not read"));
				}
				obs.count("slow_requests", slow.len() as u64);
			}
			s.gate.set(true);
			s.gate_notify.notify_waiters();
			inconclusive |= sim.settle(limit).await == Settled::Limit;
			let left: Vec<_> = sim.unfinished().into_iter().filter(|n| n != "peer" && n != "server" && n != "proxy").collect();
			if !left.is_empty() && !inconclusive && s.bad.borrow().is_empty() {
				s.violation(key, format!("operations that never complete: {left:?}"));
			}
			// Orderly end: all handles are dropped.
			s.ending.set(true);
			writes.clear();
			for x in &servers {
				x.cancel();
			}
			inconclusive |= sim.settle(limit).await == Settled::Limit;
			key = "stuck";
		}
		let left: Vec<_> = sim.unfinished().into_iter().filter(|n| n != "proxy").collect();
		let peers_left = left.iter().filter(|n| *n == "peer").count();
		if !inconclusive && s.bad.borrow().is_empty() {
			if peers_left > 0 {
				s.violation("peer-does-not-end", format!("{peers_left} peer tasks do not end"));
			} else if !left.is_empty() {
				s.violation(key, format!("operations that never complete after the end of the connection: {left:?}"));
			}
		}
		if inconclusive {
			obs.inconclusive = Some("poll limit".into());
		} else {
			judge(&s, end_early, &mut obs);
		}
		check_panics(&sim, &mut obs);
		let all: Vec<Violation> = s.bad.borrow_mut().drain(..).collect();
		for mut v in all.into_iter().chain(std::mem::take(&mut obs.violations)) {
			if props_of(&v.key, end_early).contains(&cfg.prop) {
				obs.violations.push(v);
			} else {
				v.key = format!("{} ({})", v.key, props_of(&v.key, end_early).join(","));
				obs.foreign.push(v);
			}
		}
		let n = s.msgs.borrow().len();
		obs.sample = format!("{} {clients} clients, {n} messages, {} requests, proxy {use_proxy}, write mode {mode:?}, small buffers {small}, early end {end_early}, {} polls", K::NAME, s.plans.borrow().len(), sim.0.polls.get());
		if n > 4 {
			obs.signature = Some(hash_bytes(format!("{} {:x}", obs.sample, sim.schedule_hash()).as_bytes()));
		}
		obs.count("polls", sim.0.polls.get());
		if end_early {
			obs.count("early_ends", 1);
		}
		sim.clear();
	});
	obs
}

pub fn run(rep: &Report, cfg: SoupCfg, cases: u64, secs: f64) {
	rep.rule("soup: two real peers with random concurrent users on both sides over a socket pair (optionally fragmented by a proxy, short writes, small buffers), seeded task order; the log of all calls is checked for conservation, exactly-once, order and routing; non-trivial = more than 4 messages; distinct = configuration and schedule");
	rep.run_cases("soup-unix-stream", cases, secs * 0.45, 8, |s| case::<UnixS>(&cfg, s));
	rep.run_cases("soup-seqpacket", cases, secs * 0.45, 8, |s| case::<Seq>(&cfg, s));
	rep.require("messages", 5000);
	rep.require("received", 2000);
}
