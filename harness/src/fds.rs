//! C06: file descriptors attached to seqpacket messages. Identity (device, inode) of every descriptor is followed, and
//! a census of the descriptors of the process finds leaks.

use crate::kit::*;
use crate::report::*;
use crate::rng::{hash_bytes, Rng};
use crate::sim::*;
use crate::util::*;
use crate::wire::*;
use filedesc::FileDesc;
use fizyr_rpc::transport::{Transport, TransportError, TransportReadHalf, TransportWriteHalf};
use fizyr_rpc::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, VecDeque};
use std::os::fd::{AsRawFd, OwnedFd};
use std::rc::Rc;

type Id = (u64, u64);
type M = Message<UnixBody>;

fn make(n: usize) -> (Vec<FileDesc>, Vec<Id>) {
	(0..n).map(|_| memfd("verif")).unzip()
}

fn ids_owned(fds: &[OwnedFd]) -> Vec<Id> {
	fds.iter().map(|f| identity(f.as_raw_fd())).collect()
}

fn ids_body(b: &UnixBody) -> Vec<Id> {
	b.fds.iter().map(|f| identity(f.as_raw_fd())).collect()
}

struct World {
	sim: Sim,
	rng: Rng,
	obs: Obs,
	cfg: Cfg,
	raw: Option<Raw>,
	/// uid of a message => the descriptors attached to it.
	attached: BTreeMap<u64, Vec<Id>>,
	/// uid of a message => its data.
	bodies: BTreeMap<u64, Vec<u8>>,
	uid: u64,
	/// Messages whose descriptors must not be open in this process any more.
	gone: Vec<u64>,
	trace: Vec<String>,
}

impl World {
	fn fail(&mut self, key: &str, detail: String) {
		let tail: Vec<String> = self.trace.iter().rev().take(6).rev().cloned().collect();
		self.obs.violate(key, format!("{detail}; last steps: {}", tail.join("; ")));
	}

	fn failed(&self) -> bool {
		!self.obs.violations.is_empty() || self.obs.inconclusive.is_some()
	}

	async fn settle(&mut self) {
		if self.sim.settle(200_000).await == Settled::Limit {
			self.fail("livelock", "no quiescence".into());
		}
		let sim = self.sim.clone();
		check_panics(&sim, &mut self.obs);
	}

	/// The kernel releases a closed file only when the last user is gone, and another thread may be looking at it for its
	/// census: that a file is closed can take a moment of real time to have an effect.
	async fn settle_for(&mut self, done: impl Fn() -> bool) {
		for i in 0..40 {
			self.settle().await;
			if done() || self.failed() {
				break;
			}
			std::thread::sleep(std::time::Duration::from_millis(i));
		}
	}

	/// A new body: (uid, data, number of descriptors).
	fn plan(&mut self, limit_body: u32, limit_fds: u32) -> (u64, Vec<u8>, usize, bool) {
		self.uid += 1;
		let uid = self.uid;
		let limit = limit_fds as usize;
		let k = match self.rng.below(8) {
			0 => limit,
			1 => limit + 1,
			2 => limit + 2 + self.rng.below(4),
			3 => 0,
			_ => self.rng.below(limit + 1),
		}
		.min(250);
		let over = self.rng.chance(1, 10);
		let n = match self.rng.below(6) {
			_ if over => limit_body as usize + 1 + self.rng.below(50),
			// Too short for a tag; descriptors need no data to go along with.
			0 => 0,
			1 => 1 + self.rng.below(7),
			_ => 8 + self.rng.below(60),
		};
		let ok = k <= limit && !over;
		let data = if n < 8 { (0..n).map(|_| self.rng.u64() as u8).collect() } else { tagged_body(uid, n) };
		self.obs.count("messages_without_data", (n == 0 && k > 0) as u64);
		self.bodies.insert(uid, data.clone());
		(uid, data, k, ok)
	}

	/// No descriptor of the given messages may be open.
	fn census(&mut self, what: &str, uids: &[u64]) {
		let ids: Vec<Id> = uids.iter().flat_map(|u| self.attached.get(u).cloned().unwrap_or_default()).collect();
		if ids.is_empty() {
			return;
		}
		let counts = census(&ids);
		self.obs.count("descriptors_followed", ids.len() as u64);
		let n: usize = counts.iter().sum();
		if n > 0 {
			self.fail("leak", format!("{what}: {n} descriptors of {} are still open in the process (messages {uids:?})", ids.len()));
		}
	}

	fn check_ids(&mut self, what: &str, uid: u64, got: &[Id]) {
		let want = self.attached.get(&uid).cloned().unwrap_or_default();
		self.obs.count("messages_with_descriptors", !want.is_empty() as u64);
		if want != got {
			self.fail("fd-diff", format!("{what}: message {uid} was sent with {} descriptors {want:?}, received with {} {got:?}", want.len(), got.len()));
		}
	}
}

/// The pieces of one side the user owns.
struct Side {
	read: Rc<RefCell<Option<PeerReadHandle<UnixBody>>>>,
	write: Vec<PeerWriteHandle<UnixBody>>,
	sent: Vec<(Rc<RefCell<Option<SentRequestHandle<UnixBody>>>>, u32, VecDeque<u64>, bool)>,
	rcvd: Vec<(Rc<RefCell<Option<ReceivedRequestHandle<UnixBody>>>>, u32, VecDeque<u64>, bool)>,
}

enum Exp {
	Msg(u64),
	Error,
}

fn case_peer(seed: u64) -> Obs {
	let mut rng = Rng::new(seed);
	let cfg = Cfg {
		fds_read: *rng.pick(&[0u32, 1, 2, 3, 10, 40]),
		fds_write: *rng.pick(&[0u32, 1, 2, 3, 10, 40]),
		max_read: *rng.pick(&[100, 4096]),
		max_write: *rng.pick(&[100, 4096]),
		endian: ECfg::Native,
	};
	block_on(async {
		let sim = Sim::new(rng.u64());
		let (a, b) = Seq::pair();
		let raw = Raw::new(b, true, cfg.end());
		let (peer, handle) = Peer::new(Seq::transport(a, &cfg));
		let run = sim.spawn("peer", peer.run());
		let (r, w) = handle.split();
		let mut side = Side { read: Rc::new(RefCell::new(Some(r))), write: vec![w], sent: vec![], rcvd: vec![] };
		let mut w = World { sim, rng, obs: Obs::default(), cfg: cfg.clone(), raw: Some(raw), attached: Default::default(), bodies: Default::default(), uid: 0, gone: vec![], trace: vec![] };
		let mut incoming: VecDeque<Exp> = VecDeque::new();
		let n = w.rng.range(3, 40);
		for _ in 0..n {
			step(&mut w, &mut side, &mut incoming).await;
			if w.failed() {
				break;
			}
			if run.is_done() {
				w.fail("peer-ended", "the peer ended".into());
				break;
			}
		}
		if !w.failed() {
			finish(&mut w, side, incoming, run).await;
		}
		w.sim.clear();
		w.raw = None;
		if !w.failed() {
			let all: Vec<u64> = w.attached.keys().copied().collect();
			w.census("everything was dropped", &all);
		}
		let mut obs = std::mem::take(&mut w.obs);
		obs.sample = w.trace.iter().take(12).cloned().collect::<Vec<_>>().join("; ");
		obs.signature = Some(hash_bytes(w.trace.join(";").as_bytes()));
		if std::env::var_os("VERIF_TRACE").is_some() {
			println!("{}", w.trace.join("\n"));
		}
		obs
	})
}

type Sent = Result<Option<SentRequestHandle<UnixBody>>, &'static str>;

fn start_send(w: &mut World, side: &mut Side, body: UnixBody) -> Option<(Handle<Sent>, String, Option<usize>)> {
	let svc = w.rng.below(5) as i32;
	let e = |r: Result<(), Error>| r.map(|_| None).map_err(|e| err_class(&e));
	let kind = w.rng.below(7);
	Some(match kind {
		0 | 1 => {
			let h = side.write.first()?.clone();
			(w.sim.spawn("user", async move { h.send_request(svc, body).await.map(Some).map_err(|e| err_class(&e)) }), "request".into(), None)
		}
		2 => {
			let h = side.write.first()?.clone();
			(w.sim.spawn("user", async move { e(h.send_stream(svc, body).await) }), "stream".into(), None)
		}
		3 | 4 if !side.sent.is_empty() => {
			let i = w.rng.below(side.sent.len());
			let h = side.sent[i].0.borrow().as_ref()?.write_handle();
			(w.sim.spawn("user", async move { e(h.send_update(svc, body).await) }), format!("update for sent#{} closed {}", side.sent[i].1, side.sent[i].3), side.sent[i].3.then_some(usize::MAX))
		}
		_ if !side.rcvd.is_empty() => {
			let i = w.rng.below(side.rcvd.len());
			let h = side.rcvd[i].0.borrow().as_ref()?.write_handle();
			let closed = side.rcvd[i].3;
			let respond = w.rng.chance(1, 2);
			(w.sim.spawn("user", async move { e(if respond { h.send_response(svc, body).await } else { h.send_update(svc, body).await }) }), format!("rcvd#{} respond {respond} closed {closed}", side.rcvd[i].1), if closed { Some(usize::MAX) } else { respond.then_some(i) })
		}
		_ => return None,
	})
}

async fn step(w: &mut World, side: &mut Side, incoming: &mut VecDeque<Exp>) {
	match w.rng.below(12) {
		// The peer sends.
		0..=3 => {
			let (uid, data, k, ok) = w.plan(w.cfg.max_write, w.cfg.fds_write);
			let (fds, ids) = make(k);
			w.attached.insert(uid, ids);
			let cancel = w.rng.chance(1, 6);
			let Some((t, what, mark)) = start_send(w, side, Seq::body_fds(data.clone(), fds)) else {
				w.census("a body was dropped by the harness", &[uid]);
				return;
			};
			w.trace.push(format!("{what} with {} bytes and {k} descriptors{}", data.len(), if cancel { ", cancelled" } else { "" }));
			let mut done = true;
			if cancel {
				let n = w.rng.below(5) as u64;
				if n > 0 {
					w.sim.steps(n).await;
				}
				done = t.is_done();
				t.cancel();
			}
			w.settle().await;
			let closed = mark == Some(usize::MAX);
			let events = w.raw.as_ref().unwrap().drain();
			let mut n = 0;
			for e in events {
				match e {
					RawEvent::Frame(f, fds) => {
						n += 1;
						if f.body != data {
							w.fail("wire-diff", format!("unexpected {f:?} on the wire"));
						}
						w.check_ids("on the wire", uid, &ids_owned(&fds));
						if let (true, 0) = (!done, f.ty) {
							// Nobody knows this request here.
						}
					}
					e => return w.fail("wire", format!("{e:?}")),
				}
			}
			match t.take() {
				None if cancel => {}
				None => return w.fail("send-hangs", "a send does not complete".into()),
				Some(Ok(_)) if !ok || closed => return w.fail("accepted", format!("a send with {} bytes, {k} descriptors (limits {} and {}), closed request {closed}, reported success", data.len(), w.cfg.max_write, w.cfg.fds_write)),
				Some(Ok(h)) => {
					if n != 1 {
						return w.fail("wire-missing", format!("an acknowledged message is on the wire {n} times"));
					}
					if let Some(h) = h {
						side.sent.push((Rc::new(RefCell::new(None)), h.request_id(), VecDeque::new(), false));
						*side.sent.last().unwrap().0.borrow_mut() = Some(h);
					}
					w.obs.count("sent", 1);
				}
				Some(Err("aborted")) => return w.fail("refused-abort", "a send reported an aborted connection".into()),
				Some(Err(c)) => {
					if ok && !closed {
						return w.fail("refused", format!("a send with {} bytes and {k} descriptors (limits {} and {}) failed ({c})", data.len(), w.cfg.max_write, w.cfg.fds_write));
					}
					w.obs.count("refused", 1);
				}
			}
			if n > 0 && (!ok || closed) {
				return w.fail("refused-but-sent", "a refused message is on the wire".into());
			}
			if n > 1 {
				return w.fail("duplicate", "a message is on the wire twice".into());
			}
			if n == 1 {
				if let Some(i) = mark.filter(|i| *i != usize::MAX) {
					side.rcvd[i].3 = true;
				}
			}
			w.census("after sending", &[uid]);
		}
		// The remote sends.
		4..=7 => {
			let (uid, data, k, ok) = w.plan(w.cfg.max_read, w.cfg.fds_read);
			let (fds, ids) = make(k);
			w.attached.insert(uid, ids);
			let open_sent: Vec<usize> = (0..side.sent.len()).filter(|i| !side.sent[*i].3 && side.sent[*i].0.borrow().is_some()).collect();
			let open_rcvd: Vec<usize> = (0..side.rcvd.len()).filter(|i| !side.rcvd[*i].3).collect();
			let unknown = w.rng.chance(1, 6);
			let (ty, id, target) = match w.rng.below(6) {
				0 | 1 => (REQUEST, w.uid as u32 + 1_000_000, None),
				2 => (STREAM, 0, None),
				3 if !open_rcvd.is_empty() && !unknown => {
					let i = *w.rng.pick(&open_rcvd);
					(REQ_UPDATE, side.rcvd[i].1, Some(i))
				}
				4 | 5 if !open_sent.is_empty() && !unknown => {
					let i = *w.rng.pick(&open_sent);
					(if w.rng.chance(1, 3) { RESPONSE } else { RESP_UPDATE }, side.sent[i].1, Some(i))
				}
				_ => (*w.rng.pick(&[RESPONSE, REQ_UPDATE, RESP_UPDATE]), 77_000_000 + w.uid as u32, Some(usize::MAX)),
			};
			let f = Frame::new(ty, id, 1, data);
			w.trace.push(format!("remote sends {f:?} with {k} descriptors"));
			{
				let raws: Vec<_> = fds.iter().map(|f| f.as_raw_fd()).collect();
				let e = w.cfg.end();
				if let Err(e) = w.raw.as_ref().unwrap().try_send_some(&f.datagram(e), &raws) {
					return w.fail("peer-ended", format!("the peer ended: {e}"));
				}
			}
			drop(fds);
			w.settle().await;
			let delivered = ok && target != Some(usize::MAX);
			if !delivered {
				incoming.push_back(Exp::Error);
				w.obs.count(if ok { "unmatched_dropped" } else { "over_limit_dropped" }, 1);
				w.census("after a message was dropped", &[uid]);
				return;
			}
			w.obs.count("received", 1);
			match ty {
				REQUEST | STREAM => incoming.push_back(Exp::Msg(uid)),
				REQ_UPDATE => side.rcvd[target.unwrap()].2.push_back(uid),
				_ => {
					let s = &mut side.sent[target.unwrap()];
					s.2.push_back(uid);
					if ty == RESPONSE {
						s.3 = true;
					}
				}
			}
		}
		// Receive.
		8 | 9 => recv_main(w, side, incoming).await,
		10 => recv_some(w, side).await,
		// Drop handles.
		_ => {
			if !w.rng.chance(1, 3) {
				return;
			}
			if w.rng.chance(1, 2) && !side.sent.is_empty() {
				let i = w.rng.below(side.sent.len());
				let (h, id, q, closed) = side.sent.remove(i);
				if !closed {
					// The remote would get errors for it, which other engines judge.
					side.sent.push((h, id, q, closed));
					return;
				}
				w.trace.push(format!("drop sent#{id} with {} messages", q.len()));
				drop(h);
				let uids: Vec<u64> = q.into_iter().collect();
				w.settle().await;
				w.census("after dropping a request handle", &uids);
			}
		}
	}
}

async fn recv_main(w: &mut World, side: &mut Side, incoming: &mut VecDeque<Exp>) {
	let Some(exp) = incoming.pop_front() else { return };
	let slot = side.read.clone();
	let t = w.sim.spawn("user", async move {
		let mut h = slot.borrow_mut().take().expect("read handle");
		let r = h.recv_message().await;
		*slot.borrow_mut() = Some(h);
		r
	});
	w.trace.push("recv_message".into());
	w.settle().await;
	match (t.take(), exp) {
		(None, _) => {
			// The harness keeps no read handle any more.
			w.fail("recv-hangs", "recv_message does not complete although something arrived".into());
		}
		(Some(Err(e)), Exp::Error) => {
			if e.is_connection_aborted() {
				w.fail("end", "unexpected end of the connection".into());
			}
		}
		(Some(Err(e)), Exp::Msg(uid)) => w.fail("recv-error", format!("error instead of message {uid}: {e}")),
		(Some(Ok(m)), exp) => {
			let body = match m {
				ReceivedMessage::Request(r, b) => {
					side.rcvd.push((Rc::new(RefCell::new(None)), r.request_id(), VecDeque::new(), false));
					*side.rcvd.last().unwrap().0.borrow_mut() = Some(r);
					b
				}
				ReceivedMessage::Stream(m) => m.body,
			};
			match exp {
				Exp::Error => w.fail("delivered", format!("a message with {} bytes and {} descriptors was delivered that should be dropped", body.data.len(), body.fds.len())),
				Exp::Msg(uid) => consume(w, uid, body),
			}
		}
	}
}

fn consume(w: &mut World, uid: u64, body: UnixBody) {
	if w.bodies.get(&uid).map(|d| &d[..]) != Some(&body.data[..]) {
		w.fail("order", format!("expected message {uid} with data {:?}, got {:?}", w.bodies.get(&uid), &body.data[..]));
		return;
	}
	w.check_ids("received", uid, &ids_body(&body));
	// Exactly one descriptor for each file.
	let ids = w.attached[&uid].clone();
	if census(&ids).iter().any(|n| *n != 1) {
		w.fail("leak", format!("after receiving message {uid} its descriptors are open {:?} times", census(&ids)));
	}
	drop(body);
	w.census("after dropping a received body", &[uid]);
}

async fn recv_some(w: &mut World, side: &mut Side) {
	let c: Vec<(bool, usize)> = (0..side.sent.len()).filter(|i| !side.sent[*i].2.is_empty()).map(|i| (true, i)).chain((0..side.rcvd.len()).filter(|i| !side.rcvd[*i].2.is_empty()).map(|i| (false, i))).collect();
	if c.is_empty() {
		return;
	}
	let (sent, i) = *w.rng.pick(&c);
	let (uid, t): (u64, Handle<Option<M>>) = if sent {
		let uid = side.sent[i].2.pop_front().unwrap();
		let slot = side.sent[i].0.clone();
		(uid, w.sim.spawn("user", async move {
			let mut h = slot.borrow_mut().take()?;
			let m = match h.recv_update().await {
				Some(m) => Some(m),
				None => h.recv_response().await.ok(),
			};
			*slot.borrow_mut() = Some(h);
			m
		}))
	} else {
		let uid = side.rcvd[i].2.pop_front().unwrap();
		let slot = side.rcvd[i].0.clone();
		(uid, w.sim.spawn("user", async move {
			let mut h = slot.borrow_mut().take()?;
			let m = h.recv_update().await;
			*slot.borrow_mut() = Some(h);
			m
		}))
	};
	w.trace.push(format!("receive on {} {i}", if sent { "sent" } else { "rcvd" }));
	w.settle().await;
	match t.take() {
		Some(Some(m)) => consume(w, uid, m.body),
		_ => w.fail("recv-missing", format!("message {uid} is not received")),
	}
}

/// End the connection with things in flight, then drop everything.
async fn finish(w: &mut World, mut side: Side, mut incoming: VecDeque<Exp>, run: Handle<()>) {
	// Fill up the connection so that messages stay queued.
	let n = if w.rng.chance(1, 2) { w.rng.below(6) } else { 30 + w.rng.below(150) };
	let mut tasks = vec![];
	for _ in 0..n {
		let (uid, data, k, _) = w.plan(w.cfg.max_write, w.cfg.fds_write.min(3));
		let k = k.min(4);
		let (fds, ids) = make(k);
		w.attached.insert(uid, ids);
		if let Some((t, _, _)) = start_send(w, &mut side, Seq::body_fds(data, fds)) {
			tasks.push(t);
		}
		if n < 10 && w.rng.chance(1, 2) {
			w.sim.steps(1).await;
		}
	}
	if w.rng.chance(1, 2) {
		let n = w.rng.below(2000) as u64;
		w.sim.steps(n).await;
	}
	let cause = *w.rng.pick(&["close", "drop-all", "remote-close", "bad-datagram"]);
	w.trace.push(format!("{n} sends in flight, end by {cause}"));
	w.obs.count(&format!("ended by {cause}"), 1);
	match cause {
		"close" => {
			if let Some(h) = side.write.first() {
				h.close();
			}
		}
		"drop-all" => {
			side.read.borrow_mut().take();
			side.write.clear();
			incoming.clear();
		}
		"remote-close" => w.raw = None,
		_ => {
			let (fds, ids) = make(2);
			w.uid += 1;
			let uid = w.uid;
			w.attached.insert(uid, ids);
			let raws: Vec<_> = fds.iter().map(|f| f.as_raw_fd()).collect();
			let _ = w.raw.as_ref().unwrap().try_send_some(&[1, 2, 3], &raws);
			incoming.clear();
		}
	}
	if w.rng.chance(1, 2) {
		let n = w.rng.below(100) as u64;
		w.sim.steps(n).await;
	} else {
		w.settle().await;
	}
	if cause == "close" && w.rng.chance(1, 2) && side.read.borrow().is_some() {
		// What arrived before is still there.
		while !incoming.is_empty() && !w.failed() {
			recv_main(w, &mut side, &mut incoming).await;
		}
	}
	let keep_side = w.rng.chance(1, 2);
	w.raw = None;
	if keep_side {
		w.settle_for(|| run.is_done()).await;
		if !run.is_done() {
			w.fail("peer-does-not-end", format!("the peer does not end ({cause})"));
		}
	}
	drop(side);
	w.settle_for(|| run.is_done()).await;
	if !w.failed() && !run.is_done() {
		w.fail("peer-does-not-end", format!("the peer does not end after everything was dropped ({cause})"));
	}
	if tasks.iter().any(|t| !t.is_done()) && !w.failed() {
		w.fail("send-hangs", format!("a send does not complete after the end ({cause})"));
	}
	for t in &tasks {
		drop(t.take());
	}
	let all: Vec<u64> = w.attached.keys().copied().collect();
	if !w.failed() {
		w.census(&format!("after the end ({cause})"), &all);
	}
}

/// Bare transports: one transport against a raw socket, in both directions, and back to back.
fn case_transport(seed: u64) -> Obs {
	let mut rng = Rng::new(seed);
	let cfg = Cfg { fds_read: *rng.pick(&[0u32, 1, 2, 10, 40, 250]), fds_write: *rng.pick(&[0u32, 1, 2, 10, 40, 250]), max_read: 200, max_write: 200, endian: ECfg::Native };
	block_on(async {
		let sim = Sim::new(rng.u64());
		let (a, b) = Seq::pair();
		let raw = Raw::new(b, true, cfg.end());
		let mut t = Seq::transport(a, &cfg);
		let mut w = World { sim: sim.clone(), rng, obs: Obs::default(), cfg: cfg.clone(), raw: Some(raw), attached: Default::default(), bodies: Default::default(), uid: 0, gone: vec![], trace: vec![] };
		let n = w.rng.range(1, 10);
		let mut plans = vec![];
		for _ in 0..n {
			plans.push((w.plan(cfg.max_write, cfg.fds_write), w.plan(cfg.max_read, cfg.fds_read)));
		}
		for ((ou, od, ok_, oo), (iu, id, ik, io)) in plans {
			// Out.
			let (fds, ids) = make(ok_);
			w.attached.insert(ou, ids);
			w.trace.push(format!("write {} bytes {ok_} descriptors", od.len()));
			let body = Seq::body_fds(od.clone(), fds);
			let r = {
				let (_, mut wh) = t.split();
				wh.write_msg(&header(4, 0, 1), &body).await.map_err(|e| TransportError::is_fatal(&e))
			};
			drop(body);
			let got: Vec<RawEvent> = w.raw.as_ref().unwrap().drain();
			match (&r, oo) {
				(Ok(()), true) => match &got[..] {
					[RawEvent::Frame(f, fds)] if f.body == od => {
						let ids = ids_owned(fds);
						w.check_ids("on the wire", ou, &ids);
						w.obs.count("sent", 1);
					}
					g => w.fail("wire-diff", format!("on the wire: {g:?}")),
				},
				(Err(false), false) if got.is_empty() => w.obs.count("refused", 1),
				(r, _) => w.fail("transport-write", format!("write of {} bytes with {ok_} descriptors (limits {} {}): {r:?}, on the wire {got:?}", od.len(), cfg.max_write, cfg.fds_write)),
			}
			drop(got);
			w.census("after a write", &[ou]);
			// In.
			let (fds, ids) = make(ik);
			w.attached.insert(iu, ids);
			w.trace.push(format!("read {} bytes {ik} descriptors", id.len()));
			let raws: Vec<_> = fds.iter().map(|f| f.as_raw_fd()).collect();
			let f = Frame::new(4, 0, 1, id.clone());
			let sent = w.raw.as_ref().unwrap().try_send_some(&f.datagram(cfg.end()), &raws);
			if sent.is_err() {
				w.obs.inconclusive = Some(format!("{sent:?}"));
				break;
			}
			drop(fds);
			let r = {
				let (mut rh, _) = t.split();
				rh.read_msg().await.map_err(|e| TransportError::is_fatal(&e))
			};
			match (r, io) {
				(Ok(m), true) if m.body.data == id => {
					w.check_ids("received", iu, &ids_body(&m.body));
					w.obs.count("received", 1);
				}
				(Err(false), false) => w.obs.count("over_limit_dropped", 1),
				(r, _) => {
					let r = r.map(|m| (m.body.data.len(), m.body.fds.len()));
					w.fail("transport-read", format!("read of {} bytes with {ik} descriptors (limits {} {}): {r:?}", id.len(), cfg.max_read, cfg.fds_read))
				}
			}
			w.census("after a read", &[iu]);
			if w.failed() {
				break;
			}
		}
		// Leave some unread.
		for _ in 0..w.rng.below(4) {
			let (fds, ids) = make(w.rng.below(3));
			w.uid += 1;
			let uid = w.uid;
			w.attached.insert(uid, ids);
			let raws: Vec<_> = fds.iter().map(|f| f.as_raw_fd()).collect();
			let _ = w.raw.as_ref().unwrap().try_send_some(&Frame::new(4, 0, 1, vec![]).datagram(cfg.end()), &raws);
		}
		drop(t);
		w.raw = None;
		let all: Vec<u64> = w.attached.keys().copied().collect();
		if !w.failed() {
			w.census("everything was dropped", &all);
		}
		let mut obs = std::mem::take(&mut w.obs);
		obs.sample = w.trace.join("; ");
		obs.signature = Some(hash_bytes(format!("{} {cfg:?}", obs.sample).as_bytes()));
		obs
	})
}

pub fn run(rep: &Report) {
	let t = rep.settings.thorough();
	rep.rule("random histories of messages with descriptors in both directions, below, at and over the limits, matched and unmatched, delivered, refused, cancelled, queued, never read, with the connection ended with messages in flight; each descriptor is a distinct memfd followed by inode; census over /proc/self/fd; distinct = distinct histories");
	let f = if t { 60 } else { 1 };
	let s = if t { 200.0 } else { 20.0 };
	rep.run_cases("fds-peer", 3000 * f, s, 8, case_peer);
	rep.run_cases("fds-transport", 2000 * f, s, 8, case_transport);
	rep.require("descriptors_followed", 50_000);
	rep.require("messages_with_descriptors", 3000);
	rep.require("over_limit_dropped", 1000);
	rep.require("refused", 1000);
	rep.require("messages_without_data", 500);
}
