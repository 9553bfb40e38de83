//! Lockstep conformance: a random history of API calls on a peer and raw frames from a scripted remote is
//! executed step by step (to quiescence), and everything observable is compared with an executable reference model.

use crate::kit::*;
use crate::report::*;
use crate::rng::{hash_bytes, Rng};
use crate::sim::*;
use crate::util::*;
use crate::wire::*;
use fizyr_rpc::*;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;

/// Which steps a history is made of.
#[derive(Clone)]
pub struct Profile {
	pub prop: &'static str,
	pub weights: [usize; N_STEPS],
	pub steps: (usize, usize),
	/// Small size limits, so that sizes around the limit are common.
	pub small_limits: bool,
	/// Probability (percent) to drop the read handle early.
	pub drop_read: usize,
}

pub const P_REQUEST: usize = 0;
pub const P_STREAM: usize = 1;
pub const P_SENT_UPDATE: usize = 2;
pub const P_SENT_RECV: usize = 3;
pub const P_RECV_MSG: usize = 4;
pub const P_RESP_UPDATE: usize = 5;
pub const P_RESPOND: usize = 6;
pub const P_RCVD_RECV: usize = 7;
pub const P_DROP_SENT: usize = 8;
pub const P_DROP_RCVD: usize = 9;
pub const P_CLONE_REQ: usize = 10;
pub const P_WRITE_HANDLES: usize = 11;
pub const P_DROP_READ: usize = 12;
pub const R_REQUEST: usize = 13;
pub const R_REQ_UPDATE: usize = 14;
pub const R_RESP_UPDATE: usize = 15;
pub const R_RESPONSE: usize = 16;
pub const R_STREAM: usize = 17;
pub const R_VIOLATION: usize = 18;
pub const P_OVERSIZE: usize = 19;
pub const R_OVERSIZE: usize = 20;
pub const RACE_RESPOND: usize = 21;
pub const RACE_CLOSE: usize = 22;
pub const P_CANCEL: usize = 23;
pub const P_BURST: usize = 24;
pub const P_POSITION: usize = 25;
pub const P_PEEK_STALE: usize = 26;
pub const P_CANCEL_SEND: usize = 27;
pub const P_FILL: usize = 28;
pub const N_STEPS: usize = 29;

impl Profile {
	pub fn base(prop: &'static str) -> Self {
		let mut w = [0; N_STEPS];
		for (s, x) in [
			(P_REQUEST, 10),
			(P_STREAM, 5),
			(P_SENT_UPDATE, 8),
			(P_SENT_RECV, 16),
			(P_RECV_MSG, 14),
			(P_RESP_UPDATE, 8),
			(P_RESPOND, 6),
			(P_RCVD_RECV, 10),
			(P_DROP_SENT, 1),
			(P_DROP_RCVD, 1),
			(P_CLONE_REQ, 3),
			(P_WRITE_HANDLES, 2),
			(P_DROP_READ, 0),
			(R_REQUEST, 12),
			(R_REQ_UPDATE, 10),
			(R_RESP_UPDATE, 12),
			(R_RESPONSE, 7),
			(R_STREAM, 6),
			(R_VIOLATION, 2),
			(P_OVERSIZE, 1),
			(R_OVERSIZE, 1),
			(RACE_RESPOND, 2),
			(RACE_CLOSE, 2),
			(P_CANCEL, 3),
			(P_BURST, 2),
			(P_POSITION, 1),
			(P_PEEK_STALE, 2),
			(P_CANCEL_SEND, 2),
			(P_FILL, 0),
		] {
			w[s] = x;
		}
		Profile { prop, weights: w, steps: (10, 90), small_limits: false, drop_read: 0 }
	}
	pub fn with(mut self, changes: &[(usize, usize)]) -> Self {
		for (s, w) in changes {
			self.weights[*s] = *w;
		}
		self
	}
}

type Slot<T> = Rc<RefCell<Option<T>>>;

enum Got {
	Update(Option<Frame>),
	Response(Result<Frame, &'static str>),
	Incoming(Result<IncomingGot, &'static str>),
	Cancelled,
}

enum IncomingGot {
	Request(u32, i32, Vec<u8>),
	Stream(Frame),
}

struct PendingRecv {
	task: Handle<Got>,
	kind: u8, // 0 = update, 1 = response, 2 = incoming message
	cancel: Rc<Cell<bool>>,
	notify: Rc<tokio::sync::Notify>,
}

struct SentReq<K: Kit> {
	id: u32,
	main: Slot<SentRequestHandle<K::B>>,
	main_alive: bool,
	writes: Vec<SentRequestWriteHandle<K::B>>,
	queue: VecDeque<Frame>,
	closed: bool,
	pending: Option<PendingRecv>,
	/// The remote sent something for it after the main handle was dropped.
	stale: bool,
}

struct RcvdReq<K: Kit> {
	id: u32,
	svc: i32,
	main: Slot<ReceivedRequestHandle<K::B>>,
	main_alive: bool,
	writes: Vec<ReceivedRequestWriteHandle<K::B>>,
	queue: VecDeque<Frame>,
	closed: bool,
	pending: Option<PendingRecv>,
	/// Handed to the user.
	delivered: bool,
	/// Nobody has the main handle any more and the remote sent something.
	stale: bool,
}

#[derive(Debug, Clone)]
enum Expect {
	/// The request with this index in `rcvd`.
	Request(usize, Vec<u8>),
	Stream(Frame),
	Error,
	/// An error may or may not be reported.
	OptError,
	/// End of the connection; true if it must be reported as a clean end.
	End(bool),
}

/// A mismatch with the properties it bears on.
struct Mismatch {
	props: Vec<&'static str>,
	key: &'static str,
	detail: String,
}

type R<T> = Result<T, Mismatch>;

fn mis<T>(props: &[&'static str], key: &'static str, detail: impl Into<String>) -> R<T> {
	Err(Mismatch { props: props.to_vec(), key, detail: detail.into() })
}

struct World<K: Kit> {
	sim: Sim,
	rng: Rng,
	cfg: Cfg,
	remote: Raw,
	run: Handle<()>,
	read: Slot<PeerReadHandle<K::B>>,
	read_alive: bool,
	read_pending: Option<PendingRecv>,
	arrivals: Rc<RefCell<VecDeque<ReceivedRequestHandle<K::B>>>>,
	close: Option<PeerCloseHandle<K::B>>,
	writes: Vec<PeerWriteHandle<K::B>>,
	sent: Vec<SentReq<K>>,
	rcvd: Vec<RcvdReq<K>>,
	incoming: VecDeque<Expect>,
	expect_wire: Vec<Frame>,
	/// Sent request IDs whose state is not determined (their handle was lost while they were open).
	zombie_ids: BTreeSet<u32>,
	ended: bool,
	uid: u64,
	uid_owner: BTreeMap<u64, String>,
	/// Special circumstances seen so far: properties which promise that things keep working after them.
	sticky: BTreeSet<&'static str>,
	trace: Vec<String>,
	stats: BTreeMap<&'static str, u64>,
}

const SVC_ERROR: i32 = -1;

impl<K: Kit> World<K> {
	fn stat(&mut self, k: &'static str) {
		*self.stats.entry(k).or_insert(0) += 1;
	}

	fn log(&mut self, s: String) {
		self.trace.push(s);
	}

	fn body(&mut self, limit: u32, owner: &str) -> Vec<u8> {
		self.uid += 1;
		let uid = self.uid;
		self.uid_owner.insert(uid, owner.to_string());
		let limit = limit as usize;
		let n = match self.rng.below(10) {
			0 => 0,
			1 => limit,
			2 => limit - 1,
			_ => 8 + self.rng.below(40),
		};
		tagged_body(uid, n.min(limit))
	}

	fn service(&mut self) -> i32 {
		// The error service ID is reserved for error responses.
		let s = any_i32(&mut self.rng);
		if s == SVC_ERROR { 7 } else { s }
	}

	async fn settle(&self) -> R<()> {
		if self.sim.settle(200_000).await == Settled::Limit {
			return mis(&["C13", "C17"], "livelock", "the peer keeps running without reaching quiescence");
		}
		if let Some(p) = self.sim.0.panics.borrow().first() {
			return mis(&["*"], "panic", format!("task {} panicked at {}: {}", p.task, p.location, p.message));
		}
		Ok(())
	}

	fn index_open_sent(&mut self, alive: bool) -> Option<usize> {
		let c: Vec<_> = (0..self.sent.len()).filter(|i| !self.sent[*i].closed && (!alive || self.sent[*i].main_alive)).collect();
		if c.is_empty() { None } else { Some(*self.rng.pick(&c)) }
	}

	/// Compare the wire with what is expected, in order.
	fn check_wire(&mut self, what: &str) -> R<()> {
		let want = std::mem::take(&mut self.expect_wire);
		let events = self.remote.drain();
		let mut got = vec![];
		for e in events {
			match e {
				RawEvent::Frame(f, _) => got.push(f),
				RawEvent::Bad(b) => return mis(&["C02", "C01"], "wire-undecodable", format!("{what}: the peer wrote undecodable data: {b}")),
				RawEvent::Eof(_) if self.ended => {}
				RawEvent::Eof(_) => return mis(&["C15"], "unexpected-eof", format!("{what}: the peer closed the connection")),
				RawEvent::Error(_) if self.ended => {}
				RawEvent::Error(e) => return mis(&["C15"], "unexpected-eof", format!("{what}: the connection failed: {e}")),
			}
		}
		let n = want.len().max(got.len());
		for i in 0..n {
			match (want.get(i), got.get(i)) {
				(Some(w), Some(g)) => {
					let auto = w.ty == RESPONSE && w.svc == SVC_ERROR && w.body == b"<any error>";
					let same = if auto { w.ty == g.ty && w.id == g.id && w.svc == g.svc } else { w == g || (w.ty == STREAM && g.ty == STREAM && w.svc == g.svc && w.body == g.body) };
					if !same {
						let props: &[&'static str] = match w.ty {
							REQUEST | STREAM => &["C18", "C02"],
							RESPONSE if auto => &["C12"],
							RESPONSE => &["C07", "C09", "C02"],
							_ => &["C07", "C08", "C02"],
						};
						return mis(props, "wire-diff", format!("{what}: expected {w:?} on the wire, got {g:?}"));
					}
				}
				(Some(w), None) => {
					let props: &[&'static str] = match w.ty {
						REQUEST | STREAM => &["C18"],
						RESPONSE if w.body == b"<any error>" => &["C12"],
						RESPONSE => &["C07"],
						_ => &["C07", "C08"],
					};
					return mis(props, "wire-missing", format!("{what}: expected {w:?} on the wire, got nothing"));
				}
				(None, Some(g)) => {
					let props: &[&'static str] = match g.ty {
						REQUEST | STREAM => &["C18"],
						_ => &["C07", "C09"],
					};
					return mis(props, "wire-extra", format!("{what}: unexpected {g:?} on the wire"));
				}
				_ => {}
			}
		}
		*self.stats.entry("frames_out").or_insert(0) += got.len() as u64;
		Ok(())
	}

	/// Judge a completed receive on a request handle against the queue of the model.
	fn judge_recv(uid_owner: &BTreeMap<u64, String>, queue: &mut VecDeque<Frame>, closed: bool, ended: bool, got: Got, name: &str, what: &str) -> R<()> {
		let frame_info = |f: &Frame| match uid_of(&f.body).and_then(|u| uid_owner.get(&u)) {
			Some(o) => format!("{f:?} (sent for {o})"),
			None => format!("{f:?}"),
		};
		let foreign = |f: &Frame| match uid_of(&f.body).and_then(|u| uid_owner.get(&u)) {
			Some(o) => o != name,
			None => true,
		};
		let wrong = |e: Option<&Frame>, g: &Frame| {
			let props: &[&'static str] = if foreign(g) { &["C07", "C08", "C11"] } else { &["C08", "C07"] };
			mis(props, "wrong-message", format!("{what} on {name}: expected {:?}, got {}", e, frame_info(g)))
		};
		match got {
			Got::Cancelled => Ok(()),
			Got::Update(Some(f)) => match queue.front() {
				Some(e) if *e == f && e.ty != RESPONSE => {
					queue.pop_front();
					Ok(())
				}
				e => wrong(e, &f),
			},
			Got::Update(None) => match queue.front() {
				Some(e) if e.ty == RESPONSE => Ok(()),
				Some(e) => mis(&["C07", "C08"], "lost-message", format!("{what} on {name}: got no update, but {e:?} is queued")),
				None if closed || ended => Ok(()),
				None => mis(&["C08", "C07"], "spurious-end", format!("{what} on {name}: reported no more updates on an open request")),
			},
			Got::Response(Ok(f)) => match queue.front() {
				Some(e) if *e == f && e.ty == RESPONSE => {
					queue.pop_front();
					Ok(())
				}
				e => wrong(e, &f),
			},
			Got::Response(Err(c)) => match queue.front() {
				Some(e) if e.ty != RESPONSE && c == "unexpected-type" => Ok(()),
				Some(e) => mis(&["C07", "C08"], "lost-message", format!("{what} on {name}: error ({c}) while {e:?} is queued")),
				None if (closed || ended) && c != "unexpected-type" => Ok(()),
				None => mis(&["C08", "C07"], "spurious-end", format!("{what} on {name}: error ({c}) on an open request without messages")),
			},
			Got::Incoming(_) => unreachable!(),
		}
	}

	fn recv_ready(queue: &VecDeque<Frame>, closed: bool, ended: bool) -> bool {
		!queue.is_empty() || closed || ended
	}

	/// Resolve all receives that are in flight.
	fn check_pending(&mut self, what: &str) -> R<()> {
		let ended = self.ended;
		for i in 0..self.sent.len() {
			let s = &mut self.sent[i];
			let Some(p) = &s.pending else { continue };
			let name = format!("sent#{}", s.id);
			if p.task.is_done() {
				let got = p.task.take().unwrap();
				s.pending = None;
				Self::judge_recv(&self.uid_owner, &mut s.queue, s.closed, ended, got, &name, what)?;
			} else if Self::recv_ready(&s.queue, s.closed, ended) {
				let props: &[&'static str] = if ended { &["C13"] } else { &["C07", "C08"] };
				return mis(props, "receive-hangs", format!("{what}: receive (kind {}) on {name} does not complete; queue {:?}, closed {}, ended {ended}", p.kind, s.queue, s.closed));
			}
		}
		for i in 0..self.rcvd.len() {
			let s = &mut self.rcvd[i];
			let Some(p) = &s.pending else { continue };
			let name = format!("rcvd#{}", s.id);
			if p.task.is_done() {
				let got = p.task.take().unwrap();
				s.pending = None;
				Self::judge_recv(&self.uid_owner, &mut s.queue, s.closed, ended, got, &name, what)?;
			} else if Self::recv_ready(&s.queue, s.closed, ended) {
				let props: &[&'static str] = if ended { &["C13"] } else { &["C07", "C08"] };
				return mis(props, "receive-hangs", format!("{what}: receive on {name} does not complete; queue {:?}, closed {}, ended {ended}", s.queue, s.closed));
			}
		}
		if let Some(p) = &self.read_pending {
			if p.task.is_done() {
				let got = p.task.take().unwrap();
				self.read_pending = None;
				self.judge_incoming(got, what)?;
			} else if let Some(e) = self.incoming.iter().find(|e| !matches!(e, Expect::OptError)) {
				let props: &[&'static str] = match e {
					Expect::Request(..) | Expect::Stream(_) => &["C18"],
					Expect::Error => &["C11", "C05", "C03"],
					_ => &["C13"],
				};
				return mis(props, "recv_message-hangs", format!("{what}: recv_message does not complete, expected {e:?}"));
			}
		}
		Ok(())
	}

	fn judge_incoming(&mut self, got: Got, what: &str) -> R<()> {
		let Got::Incoming(got) = got else { return Ok(()) };
		loop {
			let e = self.incoming.front().cloned();
			return match (e, got) {
				(Some(Expect::OptError), Err("aborted")) if self.incoming.len() > 1 => {
					self.incoming.pop_front();
					return self.judge_incoming(Got::Incoming(Err("aborted")), what);
				}
				(Some(Expect::OptError), Err(_)) => {
					// Errors look alike: a run of o optional and m mandatory errors allows m to m + o of them.
					let run = self.incoming.iter().take_while(|e| matches!(e, Expect::OptError | Expect::Error)).count();
					let k = (0..run).find(|k| matches!(self.incoming[*k], Expect::Error)).unwrap_or(0);
					self.incoming.remove(k);
					Ok(())
				}
				(Some(Expect::OptError), ok) => {
					self.incoming.pop_front();
					return self.judge_incoming(Got::Incoming(ok), what);
				}
				(Some(Expect::Request(i, body)), Ok(IncomingGot::Request(id, svc, b))) => {
					self.incoming.pop_front();
					if self.rcvd[i].id != id || self.rcvd[i].svc != svc || body != b {
						return mis(&["C18", "C02"], "incoming-diff", format!("{what}: expected request {} svc {} body {body:02x?}, got {id} svc {svc} body {b:02x?}", self.rcvd[i].id, self.rcvd[i].svc));
					}
					let h = self.arrivals.borrow_mut().pop_front();
					let r = &mut self.rcvd[i];
					r.delivered = true;
					if let Some(h) = &h {
						if self.rng.chance(1, 2) {
							r.writes.push(h.write_handle());
						}
					}
					*r.main.borrow_mut() = h;
					Ok(())
				}
				(Some(Expect::Stream(f)), Ok(IncomingGot::Stream(g))) => {
					self.incoming.pop_front();
					if f != g {
						return mis(&["C18", "C02"], "incoming-diff", format!("{what}: expected {f:?}, got {g:?}"));
					}
					Ok(())
				}
				(Some(Expect::Error), Err(c)) => {
					if c == "aborted" {
						return mis(&["C11", "C13", "C21"], "error-as-abort", format!("{what}: a protocol violation was reported as a clean end of the connection"));
					}
					self.incoming.pop_front();
					Ok(())
				}
				(Some(Expect::End(clean)), Err(c)) => {
					if clean && c != "aborted" {
						return mis(&["C13", "C21"], "end-class", format!("{what}: clean end of the connection reported as {c}"));
					}
					// Every later call reports it too.
					self.incoming = VecDeque::from([Expect::End(false)]);
					Ok(())
				}
				(e, g) => {
					let g = match g {
						Ok(IncomingGot::Request(id, svc, _)) => format!("request {id} svc {svc}"),
						Ok(IncomingGot::Stream(f)) => format!("{f:?}"),
						Err(c) => format!("error ({c})"),
					};
					let props: &[&'static str] = match &e {
						Some(Expect::Request(..)) | Some(Expect::Stream(_)) => &["C18", "C14"],
						Some(Expect::Error) => &["C11", "C05", "C03"],
						_ => &["C18", "C11"],
					};
					mis(props, "incoming-mismatch", format!("{what}: expected {e:?}, got {g}"))
				}
			};
		}
	}

	fn start_sent_recv(&mut self, i: usize, response: bool) {
		let slot = self.sent[i].main.clone();
		let cancel = Rc::new(Cell::new(false));
		let notify = Rc::new(tokio::sync::Notify::new());
		let (c2, n2) = (cancel.clone(), notify.clone());
		let task = self.sim.spawn("user", async move {
			let mut h = slot.borrow_mut().take().expect("handle");
			let got = if response {
				match cancellable(h.recv_response(), c2, n2).await {
					Some(Ok(m)) => Got::Response(Ok(frame_of::<K>(m))),
					Some(Err(e)) => Got::Response(Err(err_class(&e))),
					None => Got::Cancelled,
				}
			} else {
				match cancellable(h.recv_update(), c2, n2).await {
					Some(x) => Got::Update(x.map(frame_of::<K>)),
					None => Got::Cancelled,
				}
			};
			*slot.borrow_mut() = Some(h);
			got
		});
		self.sent[i].pending = Some(PendingRecv { task, kind: response as u8, cancel, notify });
	}

	fn start_rcvd_recv(&mut self, i: usize) {
		let slot = self.rcvd[i].main.clone();
		let cancel = Rc::new(Cell::new(false));
		let notify = Rc::new(tokio::sync::Notify::new());
		let (c2, n2) = (cancel.clone(), notify.clone());
		let task = self.sim.spawn("user", async move {
			let mut h = slot.borrow_mut().take().expect("handle");
			let got = match cancellable(h.recv_update(), c2, n2).await {
				Some(x) => Got::Update(x.map(frame_of::<K>)),
				None => Got::Cancelled,
			};
			*slot.borrow_mut() = Some(h);
			got
		});
		self.rcvd[i].pending = Some(PendingRecv { task, kind: 0, cancel, notify });
	}

	fn start_recv_message(&mut self) {
		let slot = self.read.clone();
		let cancel = Rc::new(Cell::new(false));
		let notify = Rc::new(tokio::sync::Notify::new());
		let (c2, n2) = (cancel.clone(), notify.clone());
		let arrivals = self.arrivals.clone();
		let task = self.sim.spawn("user", async move {
			let mut h = slot.borrow_mut().take().expect("read handle");
			let got = match cancellable(h.recv_message(), c2, n2).await {
				None => Got::Cancelled,
				Some(Err(e)) => Got::Incoming(Err(err_class(&e))),
				Some(Ok(ReceivedMessage::Stream(m))) => Got::Incoming(Ok(IncomingGot::Stream(frame_of::<K>(m)))),
				Some(Ok(ReceivedMessage::Request(r, b))) => {
					let (id, svc) = (r.request_id(), r.service_id());
					let (data, _) = K::into_parts(b);
					arrivals.borrow_mut().push_back(r);
					Got::Incoming(Ok(IncomingGot::Request(id, svc, data)))
				}
			};
			*slot.borrow_mut() = Some(h);
			got
		});
		self.read_pending = Some(PendingRecv { task, kind: 2, cancel, notify });
	}
}

async fn cancellable<F: std::future::Future>(fut: F, cancel: Rc<Cell<bool>>, notify: Rc<tokio::sync::Notify>) -> Option<F::Output> {
	use std::future::Future;
	use std::task::Poll;
	let notified = notify.notified();
	tokio::pin!(fut);
	tokio::pin!(notified);
	std::future::poll_fn(|cx| {
		if cancel.get() {
			return Poll::Ready(None);
		}
		if let Poll::Ready(x) = fut.as_mut().poll(cx) {
			return Poll::Ready(Some(x));
		}
		let _ = notified.as_mut().poll(cx);
		Poll::Pending
	})
	.await
}

enum Done<K: Kit> {
	Sent,
	Request(SentRequestHandle<K::B>),
	Failed(&'static str),
}

impl<K: Kit> Done<K> {
	fn ok(&self) -> bool {
		!matches!(self, Done::Failed(_))
	}
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
	Request,
	Stream,
	SentUpdate(usize),
	RcvdUpdate(usize),
	Respond(usize),
	RespondError(usize),
}

fn done<K: Kit>(r: Result<(), Error>) -> Done<K> {
	match r {
		Ok(()) => Done::Sent,
		Err(e) => Done::Failed(err_class(&e)),
	}
}

impl<K: Kit> World<K> {
	async fn new(seed: u64, rng: Rng, cfg: Cfg) -> Self {
		let sim = Sim::new(seed);
		let (a, b) = K::pair();
		let remote = Raw::new(b, K::DATAGRAM, cfg.end());
		let transport = K::transport(a, &cfg);
		let (peer, handle) = Peer::new(transport);
		let run = sim.spawn("peer", peer.run());
		let close = handle.close_handle();
		let (r, w) = handle.split();
		World {
			sim,
			rng,
			cfg,
			remote,
			run,
			read: Rc::new(RefCell::new(Some(r))),
			read_alive: true,
			read_pending: None,
			arrivals: Default::default(),
			close: Some(close),
			writes: vec![w],
			sent: vec![],
			rcvd: vec![],
			incoming: VecDeque::new(),
			expect_wire: vec![],
			zombie_ids: BTreeSet::new(),
			ended: false,
			uid: 0,
			uid_owner: BTreeMap::new(),
			sticky: BTreeSet::new(),
			trace: vec![],
			stats: BTreeMap::new(),
		}
	}

	/// Write frames to the peer, in random pieces.
	async fn inject(&mut self, frames: &[Frame]) -> R<()> {
		for f in frames {
			self.trace.push(format!("  remote sends {f:?}"));
			self.stat("frames_in");
		}
		if K::DATAGRAM {
			for f in frames {
				self.inject_bytes(&f.datagram(self.cfg.end())).await?;
				if self.rng.chance(1, 3) {
					let n = self.rng.below(4) as u64;
					self.sim.steps(n).await;
				}
			}
		} else {
			let mut bytes = vec![];
			for f in frames {
				bytes.extend(f.stream(self.cfg.end()));
			}
			let chunked = self.rng.chance(1, 3);
			let mut pos = 0;
			while pos < bytes.len() {
				let n = if chunked { (1 + self.rng.below(60)).min(bytes.len() - pos) } else { bytes.len() - pos };
				self.inject_bytes(&bytes[pos..pos + n]).await?;
				pos += n;
				if chunked && self.rng.chance(1, 2) {
					let n = self.rng.below(4) as u64;
					self.sim.steps(n).await;
				}
			}
		}
		Ok(())
	}

	async fn inject_bytes(&mut self, mut data: &[u8]) -> R<()> {
		let mut tries = 0;
		loop {
			match self.remote.try_send_some(data, &[]) {
				Ok(n) => {
					data = &data[n..];
					if data.is_empty() {
						return Ok(());
					}
				}
				Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => {
					self.settle().await?;
					tries += 1;
					if tries > 100 {
						return mis(&["C17"], "peer-stops-reading", "the peer does not read any more");
					}
				}
				Err(e) => return mis(&["C15", "C11", "C03"], "unexpected-eof", format!("the peer ended the connection: {e}")),
			}
		}
	}

	/// Start a send operation. Uses a clone of a handle (or the main handle itself when possible).
	fn spawn_send(&mut self, op: Op, svc: i32, body: Vec<u8>, clones_only: bool) -> Option<Handle<Done<K>>> {
		let direct = !clones_only && self.rng.chance(1, 2);
		let body = K::body(body);
		Some(match op {
			Op::Request => {
				let w = self.rng.pick(&self.writes).clone();
				self.sim.spawn("user", async move {
					match w.send_request(svc, body).await {
						Ok(h) => Done::Request(h),
						Err(e) => Done::Failed(err_class(&e)),
					}
				})
			}
			Op::Stream => {
				let w = self.rng.pick(&self.writes).clone();
				self.sim.spawn("user", async move { done::<K>(w.send_stream(svc, body).await) })
			}
			Op::SentUpdate(i) => {
				let slot = self.sent[i].main.clone();
				if direct && slot.borrow().is_some() {
					self.sim.spawn("user", async move {
						let h = slot.borrow_mut().take().unwrap();
						let r = done::<K>(h.send_update(svc, body).await);
						*slot.borrow_mut() = Some(h);
						r
					})
				} else {
					let w = self.sent_write(i)?;
					self.sim.spawn("user", async move { done::<K>(w.send_update(svc, body).await) })
				}
			}
			Op::RcvdUpdate(i) | Op::Respond(i) | Op::RespondError(i) => {
				let slot = self.rcvd[i].main.clone();
				if direct && slot.borrow().is_some() {
					self.sim.spawn("user", async move {
						let h = slot.borrow_mut().take().unwrap();
						let r = done::<K>(match op {
							Op::RcvdUpdate(_) => h.send_update(svc, body).await,
							Op::Respond(_) => h.send_response(svc, body).await,
							_ => h.send_error_response(std::str::from_utf8(K::data(&body)).unwrap()).await,
						});
						*slot.borrow_mut() = Some(h);
						r
					})
				} else {
					let h = self.rcvd_write(i)?;
					self.sim.spawn("user", async move {
						done::<K>(match op {
							Op::RcvdUpdate(_) => h.send_update(svc, body).await,
							Op::Respond(_) => h.send_response(svc, body).await,
							_ => h.send_error_response(std::str::from_utf8(K::data(&body)).unwrap()).await,
						})
					})
				}
			}
		})
	}

	fn sent_write(&mut self, i: usize) -> Option<SentRequestWriteHandle<K::B>> {
		let s = &self.sent[i];
		if !s.writes.is_empty() && (self.rng.chance(1, 2) || s.main.borrow().is_none()) {
			return Some(self.rng.pick(&s.writes).clone());
		}
		s.main.borrow().as_ref().map(|h| h.write_handle())
	}

	fn rcvd_write(&mut self, i: usize) -> Option<ReceivedRequestWriteHandle<K::B>> {
		let s = &self.rcvd[i];
		if !s.writes.is_empty() && (self.rng.chance(1, 2) || s.main.borrow().is_none()) {
			return Some(self.rng.pick(&s.writes).clone());
		}
		s.main.borrow().as_ref().map(|h| h.write_handle())
	}

	fn op_owner(&self, op: Op) -> String {
		match op {
			Op::Request => "request".into(),
			Op::Stream => "stream".into(),
			Op::SentUpdate(i) => format!("sent#{} update out", self.sent[i].id),
			Op::RcvdUpdate(i) | Op::Respond(i) | Op::RespondError(i) => format!("rcvd#{} out", self.rcvd[i].id),
		}
	}

	/// The frame an operation puts on the wire (request ID of new requests unknown).
	fn op_frame(&self, op: Op, svc: i32, body: &[u8]) -> Frame {
		let b = body.to_vec();
		match op {
			Op::Request => Frame::new(REQUEST, 0, svc, b),
			Op::Stream => Frame::new(STREAM, 0, svc, b),
			Op::SentUpdate(i) => Frame::new(REQ_UPDATE, self.sent[i].id, svc, b),
			Op::RcvdUpdate(i) => Frame::new(RESP_UPDATE, self.rcvd[i].id, svc, b),
			Op::Respond(i) => Frame::new(RESPONSE, self.rcvd[i].id, svc, b),
			Op::RespondError(i) => Frame::new(RESPONSE, self.rcvd[i].id, SVC_ERROR, b),
		}
	}

	fn op_body(&mut self, op: Op, len: Option<usize>) -> Vec<u8> {
		let owner = self.op_owner(op);
		let mut b = self.body(self.cfg.max_write, &owner);
		if let Some(len) = len {
			let uid = self.uid;
			b = tagged_body(uid, len);
		}
		if let Op::RespondError(_) = op {
			let n = b.len();
			b = b.iter().map(|x| b'a' + x % 26).collect();
			b.truncate(n);
		}
		b
	}

	/// Check that a new request ID is usable and register the request.
	fn add_sent(&mut self, h: SentRequestHandle<K::B>, svc: i32, what: &str) -> R<u32> {
		let id = h.request_id();
		if h.service_id() != svc {
			return mis(&["C07", "C18"], "service-id", format!("{what}: the request handle reports service {} instead of {svc}", h.service_id()));
		}
		if let Some(o) = self.sent.iter().find(|s| s.id == id && !s.closed && s.main_alive) {
			return mis(&["C10", "C07"], "id-collision", format!("{what}: request ID {id} was given to a new request while sent#{} is still open", o.id));
		}
		let mut writes = vec![];
		if self.rng.chance(1, 2) {
			writes.push(h.write_handle());
		}
		self.reuse_id(id, what)?;
		self.sent.push(SentReq { id, main: Rc::new(RefCell::new(Some(h))), main_alive: true, writes, queue: VecDeque::new(), closed: false, pending: None, stale: false });
		Ok(id)
	}

	/// An ID is used again: whatever nobody could receive for it before is forgotten.
	fn reuse_id(&mut self, id: u32, what: &str) -> R<()> {
		for s in &mut self.sent {
			if s.id == id && !s.closed {
				if !s.stale {
					return mis(&["C10", "C07"], "id-collision", format!("{what}: request ID {id} was given to a new request while it is still open (its handle was dropped)"));
				}
				s.closed = true;
				s.writes.clear();
			}
		}
		self.zombie_ids.remove(&id);
		Ok(())
	}

	fn open_sent_count(&self) -> usize {
		self.sent.iter().filter(|s| !s.closed).count() + self.zombie_ids.len()
	}

	/// A single send that must succeed.
	async fn do_send(&mut self, op: Op) -> R<bool> {
		let svc = self.service();
		let body = self.op_body(op, None);
		let frame = self.op_frame(op, svc, &body);
		let svc = frame.svc;
		let Some(t) = self.spawn_send(op, svc, body, false) else { return Ok(false) };
		self.trace.push(format!("{op:?} {frame:?}"));
		let crowded = op == Op::Request && self.open_sent_count() >= 100;
		self.settle().await?;
		let props: &[&'static str] = match op {
			Op::Request => &["C18", "C10"],
			Op::Stream => &["C18"],
			_ => &["C07", "C09"],
		};
		let Some(res) = t.take() else { return mis(props, "send-hangs", format!("{op:?} does not complete on an idle connection")) };
		match res {
			Done::Failed(c) => {
				if crowded {
					self.trace.push("  no free request ID".into());
					self.stat("id_exhausted");
					self.sticky.insert("C10");
					return Ok(true);
				}
				return mis(props, "send-failed", format!("{op:?} failed ({c}) on a working connection"));
			}
			Done::Request(h) => {
				let id = self.add_sent(h, svc, "send_request")?;
				self.expect_wire.push(Frame { id, ..frame });
			}
			Done::Sent => self.expect_wire.push(frame),
		}
		if let Op::Respond(i) | Op::RespondError(i) = op {
			self.rcvd[i].closed = true;
		}
		self.stat("sends");
		Ok(true)
	}

	/// A send on a closed request: it must fail and put nothing on the wire.
	async fn do_send_closed(&mut self, op: Op) -> R<bool> {
		let svc = self.service();
		let body = self.op_body(op, None);
		let Some(t) = self.spawn_send(op, svc, body, false) else { return Ok(false) };
		self.trace.push(format!("{op:?} on a closed request"));
		self.settle().await?;
		match t.take() {
			None => mis(&["C09", "C13"], "send-hangs", format!("{op:?} on a closed request does not complete")),
			Some(Done::Failed(_)) => {
				self.stat("late_calls");
				Ok(true)
			}
			Some(_) => mis(&["C09"], "late-send", format!("{op:?} reported success on a request that is already finished")),
		}
	}

	/// Send something over the size limit.
	async fn do_oversize(&mut self, op: Op) -> R<bool> {
		let svc = self.service();
		let extra = 1 + if self.rng.chance(1, 2) { 0 } else { self.rng.below(5000) };
		let body = self.op_body(op, Some(self.cfg.max_write as usize + extra));
		let n = body.len();
		let Some(t) = self.spawn_send(op, svc, body, false) else { return Ok(false) };
		self.trace.push(format!("{op:?} with {n} bytes (limit {})", self.cfg.max_write));
		self.sticky.insert("C04");
		self.settle().await?;
		self.stat("oversize_sends");
		match t.take() {
			None => mis(&["C04"], "oversize-hangs", format!("{op:?} with {n} bytes does not complete")),
			Some(Done::Failed("aborted")) => mis(&["C04", "C21"], "oversize-abort", format!("{op:?} with {n} bytes reported an aborted connection")),
			Some(Done::Failed(_)) => Ok(true),
			Some(_) => mis(&["C04"], "oversize-accepted", format!("{op:?} with {n} bytes reported success (limit {})", self.cfg.max_write)),
		}
	}

	fn take_wire(&mut self, what: &str) -> R<Vec<Frame>> {
		let mut out = vec![];
		for e in self.remote.drain() {
			match e {
				RawEvent::Frame(f, _) => out.push(f),
				RawEvent::Bad(b) => return mis(&["C02", "C01", "C16"], "wire-undecodable", format!("{what}: the peer wrote undecodable data: {b}")),
				RawEvent::Eof(_) | RawEvent::Error(_) if self.ended => {}
				e => return mis(&["C15", "C11"], "unexpected-eof", format!("{what}: the peer closed the connection ({e:?})")),
			}
		}
		*self.stats.entry("frames_out").or_insert(0) += out.len() as u64;
		Ok(out)
	}

	fn random_open_op(&mut self) -> Option<Op> {
		Some(match self.rng.below(7) {
			0 | 1 => Op::Request,
			2 => Op::Stream,
			3 => Op::SentUpdate(self.index_open_sent(true)?),
			4 => Op::RcvdUpdate(self.index_open_rcvd(true)?),
			5 => Op::Respond(self.index_open_rcvd(true)?),
			_ => Op::RespondError(self.index_open_rcvd(true)?),
		})
	}

	/// Several responses and updates for one received request at the same time.
	async fn race_respond(&mut self, i: usize) -> R<bool> {
		let mut tasks = vec![];
		let n = 2 + self.rng.below(4);
		let mut have_response = false;
		for k in 0..n {
			let op = match self.rng.below(5) {
				0 | 1 => Op::RcvdUpdate(i),
				2 | 3 => Op::Respond(i),
				_ => Op::RespondError(i),
			};
			let op = if k == n - 1 && !have_response { Op::Respond(i) } else { op };
			have_response |= op != Op::RcvdUpdate(i);
			let svc = self.service();
			let len = 9 + self.rng.below(8);
			let body = self.op_body(op, Some(len));
			let frame = self.op_frame(op, svc, &body);
			let svc = frame.svc;
			let Some(t) = self.spawn_send(op, svc, body, true) else { return Ok(false) };
			self.trace.push(format!("concurrent {op:?} {frame:?}"));
			tasks.push((op, frame, t));
			if self.rng.chance(1, 3) {
				let n = self.rng.below(3) as u64;
				self.sim.steps(n).await;
			}
		}
		self.settle().await?;
		self.stat("races_respond");
		let wire = self.take_wire("race of responses")?;
		let mut responses = 0;
		for (op, frame, t) in &tasks {
			let Some(r) = t.take() else { return mis(&["C09", "C13"], "send-hangs", format!("concurrent {op:?} does not complete")) };
			let on_wire = wire.iter().filter(|f| *f == frame).count();
			if r.ok() && on_wire != 1 {
				return mis(&["C09", "C14", "C07"], "ack-lost", format!("{op:?} reported success but {on_wire} copies are on the wire"));
			}
			if !r.ok() && on_wire > 0 {
				return mis(&["C09", "C07"], "refused-but-sent", format!("{op:?} reported an error but the message is on the wire"));
			}
			if r.ok() && *op != Op::RcvdUpdate(i) {
				responses += 1;
			}
		}
		if responses != 1 {
			return mis(&["C09"], "response-count", format!("{responses} of the concurrent responses for one request reported success"));
		}
		let of_request: Vec<_> = wire.iter().filter(|f| (f.ty == RESPONSE || f.ty == RESP_UPDATE) && f.id == self.rcvd[i].id).collect();
		let n = of_request.iter().filter(|f| f.ty == RESPONSE).count();
		if n != 1 || of_request.last().map(|f| f.ty) != Some(RESPONSE) {
			return mis(&["C09"], "after-response", format!("on the wire for one request: {of_request:?}"));
		}
		if wire.len() != tasks.iter().filter(|(_, f, _)| wire.contains(f)).count() {
			return mis(&["C09", "C07"], "wire-extra", format!("unexpected frames on the wire: {wire:?}"));
		}
		self.rcvd[i].closed = true;
		Ok(true)
	}

	/// The response of a sent request arrives while updates for it are being sent, and its ID is reused at once.
	async fn race_close(&mut self, i: usize) -> R<bool> {
		let id = self.sent[i].id;
		let mut tasks = vec![];
		let n = 1 + self.rng.below(4);
		let response_at = self.rng.below(n + 1);
		let reuse = self.rng.chance(1, 2);
		let mut reuse_task = None;
		let reuse_svc = self.service();
		for k in 0..=n {
			if k == response_at {
				let name = format!("sent#{id}");
				let svc = self.service();
				let body = self.body(self.cfg.max_read, &name);
				let f = Frame::new(RESPONSE, id, svc, body);
				self.inject(std::slice::from_ref(&f)).await?;
				self.sent[i].queue.push_back(f);
				if reuse {
					let n = self.rng.below(8) as u64;
					self.sim.steps(n).await;
					let body = self.op_body(Op::Request, Some(11));
					fizyr_rpc::verify::set_next_request_id(id);
					self.trace.push(format!("next request ID positioned at {id}, new request"));
					let f = self.op_frame(Op::Request, reuse_svc, &body);
					reuse_task = self.spawn_send(Op::Request, reuse_svc, body, true).map(|t| (f, t));
				}
			}
			if k < n {
				let op = Op::SentUpdate(i);
				let svc = self.service();
				let len = 9 + self.rng.below(8);
				let body = self.op_body(op, Some(len));
				let frame = self.op_frame(op, svc, &body);
				let Some(t) = self.spawn_send(op, svc, body, true) else { continue };
				self.trace.push(format!("concurrent {op:?} {frame:?}"));
				tasks.push((frame, t));
				let n = self.rng.below(4) as u64;
				self.sim.steps(n).await;
			}
		}
		self.settle().await?;
		self.sent[i].closed = true;
		self.stat("races_close");
		let wire = self.take_wire("race with the response")?;
		for (frame, t) in &tasks {
			let Some(r) = t.take() else { return mis(&["C09", "C13"], "send-hangs", "a concurrent update does not complete") };
			let on_wire = wire.iter().filter(|f| *f == frame).count();
			if r.ok() != (on_wire == 1) {
				return mis(&["C09", "C07", "C14"], "ack-mismatch", format!("update {frame:?}: success {} but {on_wire} copies on the wire", r.ok()));
			}
		}
		let mut expected = wire.iter().filter(|f| tasks.iter().any(|(g, _)| g == *f)).count();
		if let Some((f, t)) = reuse_task {
			match t.take() {
				Some(Done::Request(h)) => {
					let new_id = self.add_sent(h, reuse_svc, "send_request")?;
					let f = Frame { id: new_id, ..f };
					let Some(pos) = wire.iter().position(|g| *g == f) else {
						return mis(&["C18", "C14"], "ack-lost", format!("acknowledged request {f:?} is not on the wire"));
					};
					expected += 1;
					if new_id == id {
						self.stat("id_reused_at_once");
						if let Some(g) = wire[pos..].iter().find(|g| g.ty == REQ_UPDATE && g.id == id) {
							return mis(&["C09", "C10", "C07"], "late-update", format!("an update of a finished request was sent for the newer request using the same ID: {g:?}"));
						}
					}
				}
				Some(Done::Failed(_)) if self.open_sent_count() >= 100 => {}
				Some(_) => return mis(&["C10", "C18"], "send-failed", "a new request failed"),
				None => return mis(&["C10", "C18"], "send-hangs", "a new request does not complete"),
			}
		}
		if expected != wire.len() {
			return mis(&["C09", "C07"], "wire-extra", format!("unexpected frames on the wire: {wire:?}"));
		}
		Ok(true)
	}

	/// Several senders at once: each one's messages stay in order, all complete.
	async fn burst(&mut self) -> R<bool> {
		type Items<K> = Rc<RefCell<Vec<(Op, Frame, Done<K>)>>>;
		let n = 2 + self.rng.below(3);
		let mut all: Vec<(Vec<(Op, Frame)>, Items<K>, Handle<()>)> = vec![];
		let mut responded: BTreeSet<usize> = BTreeSet::new();
		for _ in 0..n {
			enum W<K: Kit> {
				P(PeerWriteHandle<K::B>),
				S(SentRequestWriteHandle<K::B>),
				R(ReceivedRequestWriteHandle<K::B>),
			}
			let mut plan = vec![];
			for _ in 0..1 + self.rng.below(5) {
				let Some(op) = self.random_open_op() else { continue };
				// Whether concurrent messages for a request are refused depends on the order.
				if let Op::RcvdUpdate(_) | Op::Respond(_) | Op::RespondError(_) = op {
					continue;
				}
				let svc = self.service();
				let len = if self.rng.chance(1, 2) { None } else { Some(9) };
				let body = self.op_body(op, len);
				let w = match op {
					Op::Request | Op::Stream => W::<K>::P(self.rng.pick(&self.writes).clone()),
					Op::SentUpdate(i) => match self.sent_write(i) {
						Some(w) => W::S(w),
						None => continue,
					},
					Op::RcvdUpdate(i) | Op::Respond(i) | Op::RespondError(i) => match self.rcvd_write(i) {
						Some(w) => W::R(w),
						None => continue,
					},
				};
				let f = self.op_frame(op, svc, &body);
				self.trace.push(format!("burst {op:?} {f:?}"));
				plan.push((op, f, w));
			}
			// One response or update per received request in the burst.
			if let Some(i) = self.index_open_rcvd(true) {
				if !responded.contains(&i) {
					if let Some(w) = self.rcvd_write(i) {
						responded.insert(i);
						for op in [Op::RcvdUpdate(i), Op::Respond(i)] {
							if self.rng.chance(1, 2) {
								let svc = self.service();
								let body = self.op_body(op, Some(9));
								let f = self.op_frame(op, svc, &body);
								self.trace.push(format!("burst {op:?} {f:?}"));
								plan.push((op, f, W::R(w.clone())));
							}
						}
					}
				}
			}
			let results: Items<K> = Default::default();
			let r2 = results.clone();
			let ops: Vec<(Op, Frame)> = plan.iter().map(|(o, f, _)| (*o, f.clone())).collect();
			// One at a time, or all started in order before any of them is done (like join!).
			let pipelined = self.rng.chance(1, 2);
			self.stat(if pipelined { "pipelined_bursts" } else { "sequential_bursts" });
			let t = self.sim.spawn("user", async move {
				let mut calls: VecDeque<Pin<Box<dyn Future<Output = (Op, Frame, Done<K>)>>>> = VecDeque::new();
				for (op, f, w) in plan {
					calls.push_back(Box::pin(async move {
						let body = K::body(f.body.clone());
						let r = match (&w, op) {
							(W::P(w), Op::Request) => match w.send_request(f.svc, body).await {
								Ok(h) => Done::Request(h),
								Err(e) => Done::Failed(err_class(&e)),
							},
							(W::P(w), _) => done::<K>(w.send_stream(f.svc, body).await),
							(W::S(w), _) => done::<K>(w.send_update(f.svc, body).await),
							(W::R(w), Op::Respond(_)) => done::<K>(w.send_response(f.svc, body).await),
							(W::R(w), _) => done::<K>(w.send_update(f.svc, body).await),
						};
						(op, f, r)
					}));
				}
				let mut early: VecDeque<Option<(Op, Frame, Done<K>)>> = VecDeque::new();
				if pipelined {
					std::future::poll_fn(|cx| {
						for c in &mut calls {
							early.push_back(match c.as_mut().poll(cx) {
								std::task::Poll::Ready(x) => Some(x),
								std::task::Poll::Pending => None,
							});
						}
						std::task::Poll::Ready(())
					})
					.await;
				}
				for c in calls {
					let x = match early.pop_front().flatten() {
						Some(x) => x,
						None => c.await,
					};
					r2.borrow_mut().push(x);
				}
			});
			all.push((ops, results, t));
		}
		let crowded = self.open_sent_count() >= 80;
		self.settle().await?;
		self.stat("bursts");
		let wire = self.take_wire("burst")?;
		let mut total = 0;
		for (ops, results, t) in all {
			if !t.is_done() {
				return mis(&["C17", "C13"], "send-hangs", format!("sends do not complete: {ops:?}"));
			}
			let results = std::mem::take(&mut *results.borrow_mut());
			let mut pos = 0;
			for (op, f, r) in results {
				let f = match r {
					Done::Failed(_) if crowded && op == Op::Request => continue,
					Done::Failed(c) => return mis(&["C07", "C18"], "send-failed", format!("{op:?} {f:?} failed ({c}) on a working connection")),
					Done::Request(h) => {
						let id = self.add_sent(h, f.svc, "send_request")?;
						Frame { id, ..f }
					}
					Done::Sent => f,
				};
				if let Op::Respond(i) = op {
					self.rcvd[i].closed = true;
				}
				let same = |g: &Frame| if f.ty == STREAM { g.ty == STREAM && g.svc == f.svc && g.body == f.body } else { *g == f };
				match wire[pos..].iter().position(same) {
					Some(k) => pos += k + 1,
					None => {
						let props: &[&'static str] = if matches!(op, Op::Request | Op::Stream) { &["C18", "C14"] } else { &["C08", "C07", "C14"] };
						return mis(props, "burst-order", format!("acknowledged {f:?} is missing or out of order on the wire: {wire:?}"));
					}
				}
				total += 1;
			}
		}
		if total != wire.len() {
			return mis(&["C18", "C07"], "wire-extra", format!("{} frames on the wire for {total} messages: {wire:?}", wire.len()));
		}
		Ok(true)
	}

	/// Cancel a send at an arbitrary moment.
	async fn cancel_send(&mut self) -> R<bool> {
		let Some(op) = self.random_open_op() else { return Ok(false) };
		let svc = self.service();
		let body = self.op_body(op, None);
		let frame = self.op_frame(op, svc, &body);
		let Some(t) = self.spawn_send(op, frame.svc, body, true) else { return Ok(false) };
		self.trace.push(format!("cancelled {op:?} {frame:?}"));
		let n = self.rng.below(6) as u64;
		if n > 0 {
			self.sim.steps(n).await;
		}
		let finished = t.is_done();
		t.cancel();
		self.sticky.insert("C16");
		self.settle().await?;
		self.stat("sends_cancelled");
		let wire = self.take_wire("cancelled send")?;
		if wire.len() > 1 {
			return mis(&["C16"], "cancel-duplicate", format!("a cancelled send put {wire:?} on the wire"));
		}
		if let Some(f) = wire.first() {
			let want = if op == Op::Request || op == Op::Stream { Frame { id: f.id, ..frame.clone() } } else { frame.clone() };
			if *f != want {
				return mis(&["C16"], "cancel-corrupt", format!("a cancelled send put {f:?} on the wire, expected {want:?}"));
			}
		}
		if finished {
			match t.take() {
				Some(Done::Request(h)) => {
					let Some(f) = wire.first() else { return mis(&["C14", "C18"], "ack-lost", format!("acknowledged {frame:?} is not on the wire")) };
					let fid = f.id;
					let id = self.add_sent(h, frame.svc, "send_request")?;
					if id != fid {
						return mis(&["C07", "C10"], "id-mismatch", format!("handle has ID {id}, the wire has {fid}"));
					}
				}
				Some(Done::Sent) if wire.is_empty() => return mis(&["C14", "C18"], "ack-lost", format!("acknowledged {frame:?} is not on the wire")),
				Some(Done::Sent) => {}
				_ => {
					if !(op == Op::Request && self.open_sent_count() >= 100) {
						return mis(&["C07", "C18"], "send-failed", format!("{op:?} failed on a working connection"));
					}
				}
			}
		} else if op == Op::Request {
			if let Some(f) = wire.first() {
				let id = f.id;
				if let Some(o) = self.sent.iter().find(|s| s.id == id && !s.closed && s.main_alive) {
					return mis(&["C10", "C16"], "id-collision", format!("the cancelled request used ID {id} of open sent#{}", o.id));
				}
				// The remote considers it open, nobody here does.
				self.reuse_id(id, "cancelled send_request")?;
				self.zombie_ids.insert(id);
			}
		}
		if let Op::Respond(i) | Op::RespondError(i) = op {
			if !wire.is_empty() {
				self.rcvd[i].closed = true;
			}
		}
		Ok(true)
	}

	fn remote_id(&mut self) -> u32 {
		loop {
			let id = match self.rng.below(5) {
				0 | 1 => self.rng.below(6) as u32,
				2 if !self.sent.is_empty() => self.rng.pick(&self.sent).id,
				3 if !self.rcvd.is_empty() => self.rng.pick(&self.rcvd).id,
				_ => any_u32(&mut self.rng),
			};
			if !self.rcvd.iter().any(|r| r.id == id && !r.closed) {
				return id;
			}
		}
	}

	/// Build a frame the remote sends and update the model as if it arrived. `kind` is one of the R_ steps.
	fn remote_frame(&mut self, kind: usize) -> Option<Frame> {
		let max = self.cfg.max_read;
		Some(match kind {
			R_REQUEST => {
				let id = self.remote_id();
				let svc = any_i32(&mut self.rng);
				let body = self.body(max, "remote request");
				let f = Frame::new(REQUEST, id, svc, body.clone());
				if self.read_alive {
					let i = self.rcvd.len();
					self.rcvd.push(RcvdReq { id, svc, main: Default::default(), main_alive: true, writes: vec![], queue: VecDeque::new(), closed: false, pending: None, delivered: false, stale: false });
					self.incoming.push_back(Expect::Request(i, body));
				} else {
					self.expect_wire.push(Frame::new(RESPONSE, id, SVC_ERROR, b"<any error>".to_vec()));
					self.stat("auto_answered");
				}
				f
			}
			R_STREAM => {
				let id = if self.rng.chance(1, 2) { 0 } else { any_u32(&mut self.rng) };
				let svc = any_i32(&mut self.rng);
				let body = self.body(max, "remote stream");
				let f = Frame::new(STREAM, id, svc, body);
				if self.read_alive {
					self.incoming.push_back(Expect::Stream(f.clone()));
				}
				f
			}
			R_REQ_UPDATE => {
				let alive = !self.rng.chance(1, 5);
				let i = self.index_open_rcvd_any(alive)?;
				let name = format!("rcvd#{}", self.rcvd[i].id);
				let svc = any_i32(&mut self.rng);
				let body = self.body(max, &name);
				let f = Frame::new(REQ_UPDATE, self.rcvd[i].id, svc, body);
				if self.rcvd[i].main_alive {
					self.rcvd[i].queue.push_back(f.clone());
				} else {
					// Nobody can receive it, but the request is still open for its write handles.
					self.stat("updates_for_dropped_handles");
					self.opt_error();
				}
				f
			}
			R_RESP_UPDATE | R_RESPONSE => {
				if !self.zombie_ids.is_empty() && self.rng.chance(1, 4) {
					let ids: Vec<u32> = self.zombie_ids.iter().copied().collect();
					let id = *self.rng.pick(&ids);
					let ty = if kind == R_RESPONSE { RESPONSE } else { RESP_UPDATE };
					let body = self.body(max, "zombie");
					self.opt_error();
					return Some(Frame::new(ty, id, 3, body));
				}
				let alive = !self.rng.chance(1, 5);
				let i = self.index_open_sent(alive)?;
				let name = format!("sent#{}", self.sent[i].id);
				let svc = any_i32(&mut self.rng);
				let body = self.body(max, &name);
				let f = Frame::new(if kind == R_RESPONSE { RESPONSE } else { RESP_UPDATE }, self.sent[i].id, svc, body);
				if self.sent[i].main_alive {
					self.sent[i].queue.push_back(f.clone());
				} else {
					self.stat("updates_for_dropped_handles");
					self.opt_error();
				}
				if kind == R_RESPONSE {
					self.sent[i].closed = true;
				}
				f
			}
			_ => {
				let body = self.body(max, "violation");
				let svc = any_i32(&mut self.rng);
				let f = self.violation(svc, body)?;
				self.sticky.insert("C11");
				self.stat("violations_in");
				if self.read_alive {
					self.incoming.push_back(Expect::Error);
				}
				f
			}
		})
	}

	fn opt_error(&mut self) {
		if self.read_alive {
			self.incoming.push_back(Expect::OptError);
		}
	}

	fn index_open_rcvd_any(&mut self, alive: bool) -> Option<usize> {
		let c: Vec<_> = (0..self.rcvd.len()).filter(|i| !self.rcvd[*i].closed && (!alive || self.rcvd[*i].main_alive)).collect();
		if c.is_empty() { None } else { Some(*self.rng.pick(&c)) }
	}

	/// A message that matches no open request, or reuses the ID of one.
	fn violation(&mut self, svc: i32, body: Vec<u8>) -> Option<Frame> {
		let sent_open: BTreeSet<u32> = self.sent.iter().filter(|s| !s.closed).map(|s| s.id).chain(self.zombie_ids.iter().copied()).collect();
		let rcvd_open: BTreeSet<u32> = self.rcvd.iter().filter(|s| !s.closed).map(|s| s.id).collect();
		match self.rng.below(4) {
			0 => {
				// Duplicate request ID. With only write handles left the request is still open.
				let any = self.rng.chance(1, 2);
				let mut c: Vec<_> = (0..self.rcvd.len()).filter(|i| { let r = &self.rcvd[*i]; !r.closed && (r.main_alive || any && !r.stale && !r.writes.is_empty()) }).collect();
				if any && c.iter().any(|i| !self.rcvd[*i].main_alive) {
					c.retain(|i| !self.rcvd[*i].main_alive);
				}
				if c.is_empty() {
					return None;
				}
				let i = *self.rng.pick(&c);
				if !self.rcvd[i].main_alive {
					self.stat("duplicates_of_write_handles");
					self.sticky.insert("C09");
				}
				Some(Frame::new(REQUEST, self.rcvd[i].id, svc, body))
			}
			1 => {
				let mut c: Vec<u32> = self.sent.iter().map(|s| s.id).chain([any_u32(&mut self.rng), 0, 1]).collect();
				c.retain(|x| !rcvd_open.contains(x));
				if c.is_empty() {
					return None;
				}
				Some(Frame::new(REQ_UPDATE, *self.rng.pick(&c), svc, body))
			}
			k => {
				let mut c: Vec<u32> = self.rcvd.iter().map(|s| s.id).chain(self.sent.iter().map(|s| s.id)).chain([any_u32(&mut self.rng), 0, 1]).collect();
				c.retain(|x| !sent_open.contains(x));
				if c.is_empty() {
					return None;
				}
				Some(Frame::new(if k == 2 { RESPONSE } else { RESP_UPDATE }, *self.rng.pick(&c), svc, body))
			}
		}
	}

	fn index_open_rcvd(&mut self, alive: bool) -> Option<usize> {
		let c: Vec<_> = (0..self.rcvd.len()).filter(|i| { let r = &self.rcvd[*i]; r.delivered && !r.closed && !r.stale && (!alive || r.main_alive) }).collect();
		if c.is_empty() { None } else { Some(*self.rng.pick(&c)) }
	}

	async fn drop_read(&mut self) -> R<bool> {
		if !self.read_alive || self.writes.is_empty() {
			return Ok(false);
		}
		if let Some(p) = self.read_pending.take() {
			p.cancel.set(true);
			p.notify.notify_one();
			self.settle().await?;
			match p.task.take() {
				Some(Got::Cancelled) | None => {}
				Some(g) => self.judge_incoming(g, "before dropping the read handle")?,
			}
		}
		self.trace.push("drop the read handle".into());
		self.read_alive = false;
		self.sticky.insert("C12");
		self.sticky.insert("C15");
		let h = self.read.borrow_mut().take();
		drop(h);
		for e in std::mem::take(&mut self.incoming) {
			if let Expect::Request(i, _) = e {
				self.rcvd[i].main_alive = false;
				self.rcvd[i].stale = true;
			}
		}
		self.stat("read_handle_dropped");
		Ok(true)
	}

	fn start_cancelled(p: &PendingRecv) {
		p.cancel.set(true);
		p.notify.notify_one();
	}

	async fn step(&mut self, kind: usize) -> R<bool> {
		match kind {
			P_REQUEST if !self.writes.is_empty() => self.do_send(Op::Request).await,
			P_STREAM if !self.writes.is_empty() => self.do_send(Op::Stream).await,
			P_SENT_UPDATE => {
				if self.rng.chance(1, 4) {
					// Late call.
					let c: Vec<_> = (0..self.sent.len()).filter(|i| self.sent[*i].closed && !self.sent[*i].stale).collect();
					if !c.is_empty() {
						let i = *self.rng.pick(&c);
						return self.do_send_closed(Op::SentUpdate(i)).await;
					}
				}
				let any = self.rng.chance(1, 10);
				let Some(i) = self.index_open_sent(!any) else { return Ok(false) };
				if self.sent[i].stale {
					return Ok(false);
				}
				self.do_send(Op::SentUpdate(i)).await
			}
			P_RESP_UPDATE | P_RESPOND => {
				let late = self.rng.chance(1, 4);
				let i = if late {
					let c: Vec<_> = (0..self.rcvd.len()).filter(|i| self.rcvd[*i].closed && !self.rcvd[*i].stale).collect();
					if c.is_empty() { None } else { Some(*self.rng.pick(&c)) }
				} else {
					let any = self.rng.chance(1, 10);
					self.index_open_rcvd(!any)
				};
				let Some(i) = i else { return Ok(false) };
				let op = match (kind, self.rng.below(4)) {
					(P_RESP_UPDATE, _) => Op::RcvdUpdate(i),
					(_, 0) => Op::RespondError(i),
					_ => Op::Respond(i),
				};
				if late {
					self.do_send_closed(op).await
				} else {
					self.do_send(op).await
				}
			}
			P_SENT_RECV | P_PEEK_STALE => {
				let c: Vec<_> = (0..self.sent.len())
					.filter(|i| {
						let s = &self.sent[*i];
						s.pending.is_none() && s.main.borrow().is_some() && (kind == P_SENT_RECV || !s.queue.is_empty())
					})
					.collect();
				if c.is_empty() {
					return Ok(false);
				}
				let i = *self.rng.pick(&c);
				let response = match (kind, self.sent[i].queue.front()) {
					(P_PEEK_STALE, Some(f)) => f.ty != RESPONSE,
					_ => self.rng.chance(2, 5),
				};
				self.trace.push(format!("{} on sent#{}", if response { "recv_response" } else { "recv_update" }, self.sent[i].id));
				self.start_sent_recv(i, response);
				self.stat("receives");
				Ok(true)
			}
			P_RCVD_RECV => {
				let c: Vec<_> = (0..self.rcvd.len()).filter(|i| self.rcvd[*i].pending.is_none() && self.rcvd[*i].main.borrow().is_some()).collect();
				if c.is_empty() {
					return Ok(false);
				}
				let i = *self.rng.pick(&c);
				self.trace.push(format!("recv_update on rcvd#{}", self.rcvd[i].id));
				self.start_rcvd_recv(i);
				self.stat("receives");
				Ok(true)
			}
			P_RECV_MSG => {
				if !self.read_alive || self.read_pending.is_some() {
					return Ok(false);
				}
				self.trace.push("recv_message".into());
				self.start_recv_message();
				self.stat("receives");
				Ok(true)
			}
			P_DROP_SENT => {
				let c: Vec<_> = (0..self.sent.len()).filter(|i| self.sent[*i].pending.is_none() && self.sent[*i].main.borrow().is_some()).collect();
				if c.is_empty() {
					return Ok(false);
				}
				let i = *self.rng.pick(&c);
				self.trace.push(format!("drop the handle of sent#{}", self.sent[i].id));
				let s = &mut self.sent[i];
				let h = s.main.borrow_mut().take();
				drop(h);
				s.main_alive = false;
				s.queue.clear();
				if self.rng.chance(1, 2) {
					s.writes.clear();
				}
				Ok(true)
			}
			P_DROP_RCVD => {
				let c: Vec<_> = (0..self.rcvd.len()).filter(|i| self.rcvd[*i].pending.is_none() && self.rcvd[*i].main.borrow().is_some()).collect();
				if c.is_empty() {
					return Ok(false);
				}
				let i = *self.rng.pick(&c);
				self.trace.push(format!("drop the handle of rcvd#{}", self.rcvd[i].id));
				let s = &mut self.rcvd[i];
				let h = s.main.borrow_mut().take();
				drop(h);
				s.main_alive = false;
				s.queue.clear();
				if self.rng.chance(1, 3) {
					s.writes.clear();
				}
				Ok(true)
			}
			P_CLONE_REQ => {
				if self.rng.chance(1, 2) {
					let Some(i) = self.index_open_sent(true) else { return Ok(false) };
					let w = self.sent_write(i);
					self.sent[i].writes.extend(w);
				} else {
					let Some(i) = self.index_open_rcvd(true) else { return Ok(false) };
					let w = self.rcvd_write(i);
					self.rcvd[i].writes.extend(w);
				}
				Ok(true)
			}
			P_WRITE_HANDLES => {
				if self.writes.is_empty() {
					return Ok(false);
				}
				if self.rng.chance(1, 2) && self.writes.len() < 6 {
					let w = self.rng.pick(&self.writes).clone();
					self.writes.push(w);
					self.trace.push(format!("clone a write handle ({} now)", self.writes.len()));
				} else if self.writes.len() > 1 {
					let i = self.rng.below(self.writes.len());
					self.writes.swap_remove(i);
					self.trace.push(format!("drop a write handle ({} now)", self.writes.len()));
					self.sticky.insert("C15");
				}
				if self.rng.chance(1, 10) {
					self.close = None;
					self.sticky.insert("C15");
				}
				Ok(true)
			}
			P_DROP_READ => self.drop_read().await,
			R_REQUEST | R_REQ_UPDATE | R_RESP_UPDATE | R_RESPONSE | R_STREAM | R_VIOLATION => {
				let mut frames = vec![];
				let n = if self.rng.chance(2, 3) { 1 } else { 2 + self.rng.below(3) };
				for k in 0..n {
					let kind = if k == 0 { kind } else { *self.rng.pick(&[R_REQUEST, R_REQ_UPDATE, R_RESP_UPDATE, R_RESP_UPDATE, R_RESPONSE, R_STREAM]) };
					frames.extend(self.remote_frame(kind));
				}
				if frames.is_empty() {
					return Ok(false);
				}
				self.trace.push("remote:".into());
				self.inject(&frames).await?;
				Ok(true)
			}
			P_OVERSIZE => {
				let op = self.random_open_op();
				match op {
					Some(Op::Request | Op::Stream) if self.writes.is_empty() => Ok(false),
					Some(op) => self.do_oversize(op).await,
					None => Ok(false),
				}
			}
			R_OVERSIZE => {
				if !K::DATAGRAM {
					return Ok(false);
				}
				let n = self.cfg.max_read as usize + 1 + if self.rng.chance(1, 2) { 0 } else { self.rng.below(4000) };
				let ty = self.rng.below(5) as u32;
				let id = match ty {
					REQUEST => self.remote_id(),
					RESPONSE | RESP_UPDATE => match self.index_open_sent(true) {
						Some(i) => self.sent[i].id,
						None => 0,
					},
					_ => match self.index_open_rcvd_any(true) {
						Some(i) => self.rcvd[i].id,
						None => 0,
					},
				};
				self.uid += 1;
				let uid = self.uid;
				let f = Frame::new(ty, id, 5, tagged_body(uid, n));
				self.trace.push("oversized:".into());
				self.sticky.insert("C05");
				self.stat("oversize_in");
				if self.read_alive {
					self.incoming.push_back(Expect::Error);
				}
				self.inject(&[f]).await?;
				Ok(true)
			}
			RACE_RESPOND => match self.index_open_rcvd(true) {
				Some(i) => self.race_respond(i).await,
				None => Ok(false),
			},
			RACE_CLOSE => match self.index_open_sent(true) {
				Some(i) if !self.writes.is_empty() => self.race_close(i).await,
				_ => Ok(false),
			},
			P_CANCEL => {
				// Optionally let the message arrive at the same time.
				let mut c: Vec<(u8, usize)> = vec![];
				c.extend((0..self.sent.len()).filter(|i| self.sent[*i].pending.is_some()).map(|i| (0, i)));
				c.extend((0..self.rcvd.len()).filter(|i| self.rcvd[*i].pending.is_some()).map(|i| (1, i)));
				if self.read_pending.is_some() {
					c.push((2, 0));
				}
				if c.is_empty() {
					return Ok(false);
				}
				let (k, i) = *self.rng.pick(&c);
				self.sticky.insert("C16");
				let mut cancelled = false;
				if self.rng.chance(1, 4) {
					Self::start_cancelled(self.pending_of(k, i));
					cancelled = true;
				}
				if self.rng.chance(2, 3) {
					let kind = match k {
						0 => *self.rng.pick(&[R_RESP_UPDATE, R_RESPONSE]),
						1 => R_REQ_UPDATE,
						_ => *self.rng.pick(&[R_REQUEST, R_STREAM]),
					};
					if let Some(f) = self.remote_frame(kind) {
						self.inject(&[f]).await?;
						let n = self.rng.below(6) as u64;
						if n > 0 {
							self.sim.steps(n).await;
						}
					}
				}
				self.trace.push("cancel a receive".into());
				self.stat("receives_cancelled");
				if !cancelled {
					Self::start_cancelled(self.pending_of(k, i));
				}
				Ok(true)
			}
			P_BURST if !self.writes.is_empty() => self.burst().await,
			P_POSITION if !self.writes.is_empty() => {
				let open: Vec<u32> = self.sent.iter().filter(|s| !s.closed).map(|s| s.id).collect();
				let pos = match open.is_empty() {
					true => u32::MAX - self.rng.below(3) as u32,
					false if self.rng.chance(1, 6) => u32::MAX - self.rng.below(3) as u32,
					false => self.rng.pick(&open).wrapping_sub(self.rng.below(3) as u32),
				};
				self.trace.push(format!("next request ID positioned at {pos}"));
				self.stat("positioned");
				fizyr_rpc::verify::set_next_request_id(pos);
				self.sticky.insert("C10");
				self.do_send(Op::Request).await
			}
			P_CANCEL_SEND if !self.writes.is_empty() => self.cancel_send().await,
			P_FILL if !self.writes.is_empty() && self.open_sent_count() < 50 => {
				self.trace.push("fill".into());
				self.stat("fills");
				let n = 95 + self.rng.below(30);
				let w = self.writes[0].clone();
				let t = self.sim.spawn("user", async move {
					let mut out = vec![];
					for k in 0..n {
						match w.send_request(k as i32, K::body(vec![])).await {
							Ok(h) => out.push((k as i32, h)),
							Err(_) => break,
						}
					}
					out
				});
				self.settle().await?;
				let Some(list) = t.take() else { return mis(&["C10", "C18"], "send-hangs", "requests do not complete") };
				let crowded = self.open_sent_count() + list.len() >= 100;
				if list.len() < n && !crowded {
					return mis(&["C10"], "send-failed", format!("request {} of {n} failed with {} open", list.len(), self.open_sent_count()));
				}
				for (svc, h) in list {
					let id = self.add_sent(h, svc, "send_request")?;
					self.expect_wire.push(Frame::new(REQUEST, id, svc, vec![]));
				}
				Ok(true)
			}
			_ => Ok(false),
		}
	}

	fn pending_of(&self, k: u8, i: usize) -> &PendingRecv {
		match k {
			0 => self.sent[i].pending.as_ref().unwrap(),
			1 => self.rcvd[i].pending.as_ref().unwrap(),
			_ => self.read_pending.as_ref().unwrap(),
		}
	}

	/// Remote finishes many requests at once (after a fill).
	async fn finish_many(&mut self) -> R<()> {
		let open: Vec<usize> = (0..self.sent.len()).filter(|i| !self.sent[*i].closed && self.sent[*i].main_alive).collect();
		if open.len() < 60 {
			return Ok(());
		}
		let keep = self.rng.below(3);
		let mut frames = vec![];
		for i in open.iter().skip(keep) {
			let f = Frame::new(RESPONSE, self.sent[*i].id, 1, vec![]);
			self.sent[*i].queue.push_back(f.clone());
			self.sent[*i].closed = true;
			frames.push(f);
		}
		self.trace.push("remote answers all".into());
		self.inject(&frames).await
	}

	/// The model's view after an operation: compare everything.
	async fn judge(&mut self, what: &str) -> R<()> {
		self.settle().await?;
		if !self.ended && self.run.is_done() {
			return mis(&["C15", "C11", "C13"], "peer-ended", format!("{what}: the peer task ended while the connection should be up"));
		}
		self.check_wire(what)?;
		self.check_pending(what)
	}

	/// End the connection and check that everything completes.
	async fn finish(&mut self, rng: &mut Rng) -> R<&'static str> {
		let causes = ["close", "drop-all", "remote-close", "remote-shutdown", "bad-frame", "truncated-frame", "oversize"];
		let mut cause = *rng.pick(&causes);
		if cause == "oversize" && K::DATAGRAM {
			cause = "bad-frame";
		}
		if cause == "truncated-frame" && K::DATAGRAM {
			cause = "remote-close";
		}
		self.trace.push(format!("end: {cause}"));
		// Sends in flight at the end, and messages arriving just before it.
		let mut inflight: Vec<(Op, Frame, Handle<Done<K>>)> = vec![];
		if rng.chance(2, 3) && !self.writes.is_empty() {
			for _ in 0..1 + rng.below(5) {
				let Some(op) = self.random_open_op() else { continue };
				let svc = self.service();
				let body = self.op_body(op, None);
				let f = self.op_frame(op, svc, &body);
				if let Some(t) = self.spawn_send(op, f.svc, body, true) {
					self.trace.push(format!("in flight {op:?} {f:?}"));
					inflight.push((op, f, t));
				}
				if rng.chance(1, 3) {
					let n = rng.below(5) as u64;
					self.sim.steps(n).await;
				}
			}
			if rng.chance(1, 3) {
				self.settle().await?;
			}
		}
		let remote_cause = !matches!(cause, "close" | "drop-all");
		if remote_cause && inflight.is_empty() && rng.chance(2, 3) {
			let mut frames = vec![];
			for _ in 0..1 + rng.below(4) {
				let kind = *rng.pick(&[R_REQUEST, R_REQ_UPDATE, R_RESP_UPDATE, R_RESPONSE, R_STREAM]);
				if kind == R_REQUEST && !self.read_alive && cause == "remote-close" {
					// The peer would be sending (the automatic answer) when the connection goes away.
					continue;
				}
				frames.extend(self.remote_frame(kind));
			}
			self.inject(&frames).await?;
			// Answers to requests nobody can receive may be cut off by the end.
		}
		let opt_auto = std::mem::take(&mut self.expect_wire);
		let mut remote_gone = false;
		match cause {
			"close" => {
				let k = rng.below(3);
				match k {
					0 if self.close.is_some() => self.close.as_ref().unwrap().close(),
					1 if self.read.borrow().is_some() => self.read.borrow().as_ref().unwrap().close(),
					_ => match self.writes.first() {
						Some(w) => w.close(),
						None => self.close.as_ref().map(|c| c.close()).unwrap_or(()),
					},
				}
				self.incoming.push_back(Expect::End(true));
			}
			"drop-all" => {
				let order = rng.chance(1, 2);
				if order {
					self.writes.clear();
				}
				self.drop_read_now().await?;
				self.writes.clear();
			}
			"remote-close" => {
				// Pull out everything first, so that the close is not a reset.
				remote_gone = true;
				self.incoming.push_back(Expect::End(false));
			}
			"remote-shutdown" => {
				self.remote.shutdown_write();
				self.incoming.push_back(Expect::End(true));
			}
			"bad-frame" => {
				let e = self.cfg.end();
				let bytes = match (K::DATAGRAM, rng.below(2)) {
					(true, 0) => vec![0; 1 + rng.below(11)],
					(true, _) => [e.put(5 + rng.u32() % 1000).to_vec(), vec![0; 8]].concat(),
					(false, 0) => [e.put(rng.below(12) as u32).to_vec(), vec![0; 12]].concat(),
					(false, _) => [e.put(12).to_vec(), e.put(5 + rng.u32() % 1000).to_vec(), vec![0; 8]].concat(),
				};
				self.inject_bytes(&bytes).await?;
				self.incoming.push_back(Expect::Error);
				self.incoming.push_back(Expect::End(false));
			}
			"truncated-frame" => {
				let f = Frame::new(STREAM, 0, 1, rng.bytes(30)).stream(self.cfg.end());
				let n = 1 + rng.below(f.len() - 1);
				self.inject_bytes(&f[..n]).await?;
				self.remote.shutdown_write();
				self.incoming.push_back(Expect::End(false));
			}
			_ => {
				let e = self.cfg.end();
				let n = self.cfg.max_read + 13 + if rng.chance(1, 2) { 0 } else { rng.u32() >> 1 };
				let bytes = [e.put(n).to_vec(), e.put(STREAM).to_vec(), vec![0; 8]].concat();
				self.inject_bytes(&bytes).await?;
				self.incoming.push_back(Expect::Error);
				self.incoming.push_back(Expect::End(false));
			}
		}
		if !self.read_alive {
			self.incoming.clear();
		}
		self.ended = true;
		let mut wire = vec![];
		let mut eof = false;
		if remote_gone {
			for e in self.remote.drain() {
				if let RawEvent::Frame(f, _) = e {
					wire.push(f);
				}
			}
			self.remote.shutdown_write();
			unsafe { libc::shutdown(self.remote.raw_fd(), libc::SHUT_RDWR) };
		}
		self.settle().await?;
		if !remote_gone {
			for e in self.remote.drain() {
				match e {
					RawEvent::Frame(f, _) => wire.push(f),
					RawEvent::Bad(b) => return mis(&["C02", "C01"], "wire-undecodable", format!("end ({cause}): {b}")),
					RawEvent::Eof(0) => eof = true,
					RawEvent::Eof(n) => return mis(&["C14", "C01"], "wire-cut", format!("end ({cause}): the peer ended the stream in the middle of a message ({n} bytes)")),
					RawEvent::Error(_) => eof = true,
				}
			}
		} else {
			eof = true;
		}
		if !self.run.is_done() {
			return mis(&["C13", "C15"], "peer-does-not-end", format!("the peer task does not end ({cause})"));
		}
		if !eof {
			return mis(&["C15", "C13"], "socket-open", format!("the remote does not see the end of the connection ({cause})"));
		}
		// In flight sends: all complete, and what was acknowledged is on the wire.
		for (op, f, t) in &inflight {
			let r = match t.take() {
				Some(r) => r,
				None => return mis(&["C13"], "send-hangs", format!("end ({cause}): {op:?} does not complete")),
			};
			let same = |g: &Frame| g.ty == f.ty && g.svc == f.svc && g.body == f.body && (matches!(op, Op::Request | Op::Stream) || g.id == f.id);
			let copies = wire.iter().filter(|g| same(g)).count();
			let dup = inflight.iter().filter(|(_, g, _)| same(g)).count();
			if r.ok() && copies == 0 && !remote_gone {
				return mis(&["C14"], "ack-lost", format!("end ({cause}): {op:?} {f:?} was acknowledged but is not on the wire"));
			}
			if copies > dup.max(1) {
				return mis(&["C14", "C18"], "duplicate", format!("end ({cause}): {f:?} is on the wire {copies} times"));
			}
		}
		for g in &wire {
			let known = inflight.iter().any(|(op, f, _)| g.ty == f.ty && g.svc == f.svc && g.body == f.body && (matches!(op, Op::Request | Op::Stream) || g.id == f.id));
			let auto = opt_auto.iter().any(|f| f.ty == g.ty && f.id == g.id && g.svc == SVC_ERROR);
			if !known && !auto {
				return mis(&["C13", "C18", "C07"], "wire-extra", format!("end ({cause}): unexpected {g:?} on the wire"));
			}
		}
		self.check_pending(&format!("end ({cause})"))?;
		// Everything that arrived before is still received, then the end.
		if self.read.borrow().is_some() {
			for _ in 0..self.incoming.len() + 2 {
				if self.read_pending.is_none() {
					self.start_recv_message();
				}
				self.settle().await?;
				self.check_pending(&format!("after the end ({cause})"))?;
			}
			if !matches!(self.incoming.front(), Some(Expect::End(_))) || self.incoming.len() != 1 {
				return mis(&["C14", "C13"], "incoming-lost", format!("after the end ({cause}): not received: {:?}", self.incoming));
			}
		}
		for i in 0..self.sent.len() {
			if !self.sent[i].main_alive {
				continue;
			}
			let n = self.sent[i].queue.len() + 2;
			for k in 0..n {
				if self.sent[i].pending.is_none() {
					let response = if k < n - 2 { self.sent[i].queue.front().map_or(true, |f| f.ty == RESPONSE) } else { k % 2 == 0 };
					self.start_sent_recv(i, response);
				}
				self.settle().await?;
				self.check_pending(&format!("after the end ({cause})"))?;
			}
			if !self.sent[i].queue.is_empty() {
				return mis(&["C14", "C08"], "messages-lost", format!("after the end ({cause}): not received on sent#{}: {:?}", self.sent[i].id, self.sent[i].queue));
			}
		}
		for i in 0..self.rcvd.len() {
			if self.rcvd[i].main.borrow().is_none() && self.rcvd[i].pending.is_none() {
				continue;
			}
			for _ in 0..self.rcvd[i].queue.len() + 2 {
				if self.rcvd[i].pending.is_none() {
					self.start_rcvd_recv(i);
				}
				self.settle().await?;
				self.check_pending(&format!("after the end ({cause})"))?;
			}
			if !self.rcvd[i].queue.is_empty() {
				return mis(&["C14", "C08"], "messages-lost", format!("after the end ({cause}): not received on rcvd#{}: {:?}", self.rcvd[i].id, self.rcvd[i].queue));
			}
		}
		// Later sends fail.
		let mut ops = vec![];
		if !self.writes.is_empty() {
			ops.extend([Op::Request, Op::Stream]);
		}
		ops.extend((0..self.sent.len()).map(Op::SentUpdate));
		ops.extend((0..self.rcvd.len()).flat_map(|i| [Op::RcvdUpdate(i), Op::Respond(i), Op::RespondError(i)]));
		let mut tasks = vec![];
		for op in ops {
			let body = self.op_body(op, Some(5));
			if let Some(t) = self.spawn_send(op, 1, body, true) {
				tasks.push((op, t));
			}
		}
		self.settle().await?;
		for (op, t) in tasks {
			match t.take() {
				None => return mis(&["C13"], "send-hangs", format!("after the end ({cause}): {op:?} does not complete")),
				Some(Done::Failed(_)) => self.stat("calls_after_end"),
				Some(_) => return mis(&["C13", "C14"], "send-after-end", format!("after the end ({cause}): {op:?} reports success")),
			}
		}
		Ok(cause)
	}

	async fn drop_read_now(&mut self) -> R<()> {
		if let Some(p) = self.read_pending.take() {
			p.task.cancel();
			let _ = p;
		}
		let h = self.read.borrow_mut().take();
		drop(h);
		self.read_alive = false;
		self.incoming.clear();
		Ok(())
	}
}

async fn history<K: Kit>(w: &mut World<K>, profile: &Profile) -> R<&'static str> {
	w.settle().await?;
	let n = w.rng.range(profile.steps.0, profile.steps.1);
	let drop_at = if w.rng.chance(profile.drop_read, 100) { w.rng.below(n.max(1)) } else { usize::MAX };
	for k in 0..n {
		if k == drop_at {
			w.drop_read().await?;
			w.judge("dropping the read handle").await?;
		}
		for _ in 0..8 {
			let kind = w.rng.weighted(&profile.weights);
			if w.step(kind).await? {
				*w.stats.entry("steps").or_insert(0) += 1;
				let what = w.trace.iter().rev().find(|t| !t.starts_with("  ")).cloned().unwrap_or_default();
				w.judge(&what).await?;
				break;
			}
		}
		if profile.weights[P_FILL] > 0 && w.rng.chance(1, 6) {
			w.finish_many().await?;
			w.judge("answering all").await?;
		}
	}
	let mut rng = w.rng.fork();
	w.finish(&mut rng).await
}

pub fn case<K: Kit>(profile: &Profile, seed: u64) -> Obs {
	let mut rng = Rng::new(seed);
	let mut obs = Obs::default();
	let mut cfg = Cfg { endian: if K::DATAGRAM { *rng.pick(&[ECfg::Native, ECfg::Big]) } else { *rng.pick(&[ECfg::Little, ECfg::Big]) }, ..Default::default() };
	if profile.small_limits {
		cfg.max_read = *rng.pick(&[12, 40, 100, 1000]);
		// The errors for requests nobody can receive have to fit: a peer that can not send them closes the connection.
		cfg.max_write = *rng.pick(if profile.drop_read > 0 { &[64, 100, 1000] } else { &[12, 40, 100, 1000] });
	}
	block_on(async {
		let mut w = World::<K>::new(rng.u64(), rng.fork(), cfg.clone()).await;
		let result = history(&mut w, profile).await;
		for (k, v) in &w.stats {
			obs.count(k, *v);
		}
		match result {
			Ok(cause) => obs.count(&format!("ended by {cause}"), 1),
			Err(m) => {
				let mine = m.props.contains(&profile.prop) || m.props.contains(&"*") || w.sticky.contains(profile.prop);
				let tail: Vec<_> = w.trace.iter().rev().take(6).rev().cloned().collect();
				let v = Violation::new(m.key, format!("{} ({}): {}; last steps: {}", m.key, K::NAME, m.detail, tail.join("; ")));
				if mine {
					obs.violations.push(v);
				} else {
					obs.foreign.push(Violation::new(format!("{} ({})", m.key, m.props.join(",")), v.detail));
				}
			}
		}
		let frames = obs.counts.get("frames_in").copied().unwrap_or(0) + obs.counts.get("frames_out").copied().unwrap_or(0);
		obs.sample = format!("{} {} steps: {}", K::NAME, w.trace.len(), w.trace.iter().take(8).cloned().collect::<Vec<_>>().join("; "));
		if frames >= 4 {
			obs.signature = Some(hash_bytes(w.trace.join("\n").as_bytes()));
		}
		if std::env::var_os("VERIF_TRACE").is_some() {
			println!("{}", w.trace.join("\n"));
		}
		w.sim.clear();
	});
	obs
}

pub fn run(rep: &Report, profile: Profile, cases: u64, secs: f64) {
	rep.rule("lockstep: random histories of API calls and raw remote frames against an executable reference model, everything compared at quiescence after every step; non-trivial = at least 4 frames on the wire; distinct = distinct histories");
	rep.assume("single threaded deterministic executor; the reference model in lockstep.rs states the intended behaviour");
	rep.run_cases("lockstep-unix-stream", cases, secs / 2.0, 8, |s| case::<UnixS>(&profile, s));
	rep.run_cases("lockstep-seqpacket", cases, secs / 2.0, 8, |s| case::<Seq>(&profile, s));
	rep.require("steps", 2000);
	rep.require("frames_in", 1000);
	rep.require("frames_out", 1000);
}
