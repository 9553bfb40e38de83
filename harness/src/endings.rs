//! C13: every kind of end of a connection, at any moment, with operations of every kind pending.

use crate::kit::*;
use crate::report::*;
use crate::rng::{hash_bytes, Rng};
use crate::sim::*;
use crate::util::*;
use crate::wire::*;
use fizyr_rpc::*;
use std::os::fd::AsRawFd;
use std::time::Duration;

#[derive(Debug, Clone, Copy, PartialEq)]
enum Cause {
	CloseRead,
	CloseWrite,
	CloseHandle,
	DropAll,
	RemoteClose,
	RemoteShutdown,
	RemoteReset,
	/// The remote stops in the middle of a message.
	RemotePartial,
	BadFrame,
	/// The remote refuses to receive: the next send fails.
	RemoteNoRead,
	/// The task of the peer is aborted.
	PeerDropped,
}

#[derive(Debug, Clone, PartialEq)]
enum Out {
	/// Receives: the messages that came first.
	Received(Vec<u64>),
	Sent(bool),
}

enum Kept<K: Kit> {
	Read(PeerReadHandle<K::B>),
	Sent(SentRequestHandle<K::B>),
	Rcvd(ReceivedRequestHandle<K::B>),
	None,
}

struct Op<K: Kit> {
	what: String,
	/// What a receive must yield before it ends.
	expect: Vec<u64>,
	task: Handle<(Out, Kept<K>)>,
	/// The tag of a message being sent.
	uid: u64,
}

/// Settle; the effects of a close may need a moment of real time.
async fn settle_for(sim: &Sim, done: impl Fn() -> bool, patient: bool) -> bool {
	for i in 0..if patient { 60 } else { 3 } {
		if sim.settle(400_000).await == Settled::Limit {
			return false;
		}
		if done() {
			return true;
		}
		std::thread::sleep(Duration::from_millis(i));
	}
	done()
}

async fn case<K: Kit>(seed: u64) -> Obs {
	use Cause::*;
	let mut rng = Rng::new(seed);
	let mut obs = Obs::default();
	let sim = Sim::new(rng.u64());
	let mut cfg = Cfg::default();
	cfg.endian = *rng.pick(&[ECfg::Little, ECfg::Native, ECfg::Big]);
	let (a, b) = K::pair();
	let a_id = identity(a.as_raw_fd());
	let blocked = rng.chance(1, 3);
	if blocked {
		set_bufs(a.as_raw_fd(), 4608, 0);
		set_bufs(b.as_raw_fd(), 0, if K::TCP { 30_000 } else { 2304 });
	}
	let raw = Raw::new(b, K::DATAGRAM, cfg.end());
	let mut causes = vec![CloseRead, CloseWrite, CloseHandle, DropAll, RemoteClose, RemoteShutdown, RemotePartial, BadFrame, PeerDropped];
	if K::TCP {
		causes.push(RemoteReset);
	} else {
		causes.push(RemoteNoRead);
	}
	let mut cause = *rng.pick(&causes);
	if K::DATAGRAM && (cause == BadFrame || cause == RemotePartial) {
		// An undecodable datagram does end the connection too.
		cause = BadFrame;
	}
	// The kernel does not tell a waiting writer about that.
	let blocked = blocked && cause != RemoteNoRead;
	let partial_close = rng.chance(1, 2) && !blocked;
	let (peer, handle) = Peer::new(K::transport(a, &cfg));
	let run = sim.spawn("peer", peer.run());
	let (mut read, write) = handle.split();

	// Requests in both directions.
	let n_sent = rng.below(5);
	let n_rcvd = rng.below(5);
	let mut sent: Vec<SentRequestHandle<K::B>> = vec![];
	let mut rcvd: Vec<ReceivedRequestHandle<K::B>> = vec![];
	for _ in 0..n_sent {
		let w = write.clone();
		let h = sim.spawn("request", async move { w.send_request(1, K::body(vec![])).await });
		settle_for(&sim, || h.is_done(), true).await;
		match h.take() {
			Some(Ok(r)) => sent.push(r),
			r => {
				obs.violate("setup", format!("{}: send_request before the end: {:?}", K::NAME, r.map(|r| r.map(|_| ()).map_err(|e| e.to_string()))));
				return obs;
			}
		}
	}
	for i in 0..n_rcvd {
		raw.send_frame(&Frame::new(0, 1000 + i as u32, 1, vec![])).await.unwrap();
	}
	if n_rcvd > 0 {
		let h = sim.spawn("receive", async move {
			let mut got = vec![];
			for _ in 0..n_rcvd {
				if let Ok(ReceivedMessage::Request(r, _)) = read.recv_message().await {
					got.push(r);
				}
			}
			(read, got)
		});
		settle_for(&sim, || h.is_done(), true).await;
		let Some((r, got)) = h.take() else {
			obs.violate("setup", format!("{}: requests before the end are not received", K::NAME));
			return obs;
		};
		if got.len() != n_rcvd {
			obs.violate("setup", format!("{}: requests before the end are not received", K::NAME));
			return obs;
		}
		read = r;
		rcvd = got;
	}
	raw.drain();

	// Pending operations.
	let mut ops: Vec<Op<K>> = vec![];
	let mut uid = 0u64;
	let mut later: Vec<Kept<K>> = vec![];
	let mut inject: Vec<(Frame, usize)> = vec![];
	let reader = rng.chance(4, 5) && !(cause == DropAll || cause == CloseRead);
	let send_size = if blocked { 2000 } else { 20 };
	let want_sends = blocked || rng.chance(1, if cause == RemoteNoRead { 5 } else { 2 });
	let mut send_tasks: Vec<(String, u64, Handle<bool>)> = vec![];
	let sent_w: Vec<_> = sent.iter().map(|r| r.write_handle()).collect();
	let rcvd_w: Vec<_> = rcvd.iter().map(|r| r.write_handle()).collect();
	for mut r in sent.drain(..) {
		if rng.chance(1, 5) {
			later.push(Kept::Sent(r));
			continue;
		}
		let i = ops.len();
		let mut expect = vec![];
		for _ in 0..rng.below(3) {
			uid += 1;
			expect.push(uid);
			inject.push((Frame::new(3, r.request_id(), 1, uid.to_le_bytes().to_vec()), i));
		}
		let response = rng.chance(1, 2);
		if response && expect.is_empty() {
			let task = sim.spawn("recv_response", async move {
				let ok = r.recv_response().await.is_ok();
				(Out::Sent(ok), Kept::<K>::Sent(r))
			});
			ops.push(Op { what: "recv_response".into(), expect, task, uid: 0 });
		} else {
			let task = sim.spawn("sent.recv_update", async move {
				let mut got = vec![];
				while let Some(m) = r.recv_update().await {
					got.push(uid_of(K::data(&m.body)).unwrap_or(0));
				}
				(Out::Received(got), Kept::<K>::Sent(r))
			});
			ops.push(Op { what: "sent.recv_update".into(), expect, task, uid: 0 });
		}
	}
	for mut r in rcvd.drain(..) {
		if rng.chance(1, 5) {
			later.push(Kept::Rcvd(r));
			continue;
		}
		let i = ops.len();
		let mut expect = vec![];
		for _ in 0..rng.below(3) {
			uid += 1;
			expect.push(uid);
			inject.push((Frame::new(2, r.request_id(), 1, uid.to_le_bytes().to_vec()), i));
		}
		let task = sim.spawn("received.recv_update", async move {
			let mut got = vec![];
			while let Some(m) = r.recv_update().await {
				got.push(uid_of(K::data(&m.body)).unwrap_or(0));
			}
			(Out::Received(got), Kept::<K>::Rcvd(r))
		});
		ops.push(Op { what: "received.recv_update".into(), expect, task, uid: 0 });
	}
	let close_a = read.close_handle();
	let mut read = Some(read);
	if reader {
		let i = ops.len();
		let mut expect = vec![];
		for _ in 0..rng.below(4) {
			uid += 1;
			expect.push(uid);
			inject.push((Frame::new(4, 0, 1, uid.to_le_bytes().to_vec()), i));
		}
		let mut r = read.take().unwrap();
		let task = sim.spawn("recv_message", async move {
			let mut got = vec![];
			let mut errors = 0;
			loop {
				match r.recv_message().await {
					Ok(ReceivedMessage::Stream(m)) => got.push(uid_of(K::data(&m.body)).unwrap_or(0)),
					Ok(ReceivedMessage::Request(..)) => got.push(u64::MAX),
					// Errors that are reported before the end of the connection.
					Err(e) if !e.is_connection_aborted() && errors < 1000 => errors += 1,
					Err(_) => break,
				}
			}
			(Out::Received(got), Kept::<K>::Read(r))
		});
		ops.push(Op { what: "recv_message".into(), expect, task, uid: 0 });
	}
	if want_sends {
		for _ in 0..1 + rng.below(if blocked { 20 } else { 6 }) {
			uid += 1;
			let body = tagged_body(uid, if rng.chance(2, 3) { send_size } else { 8 });
			let w = write.clone();
			let (what, h) = match rng.below(5) {
				0 => ("send_request", sim.spawn("send_request", async move { w.send_request(2, K::body(body)).await.is_ok() })),
				1 if !sent_w.is_empty() => {
					let w = rng.pick(&sent_w).clone();
					("sent.send_update", sim.spawn("sent.send_update", async move { w.send_update(2, K::body(body)).await.is_ok() }))
				}
				2 if !rcvd_w.is_empty() => {
					let w = rng.pick(&rcvd_w).clone();
					("received.send_update", sim.spawn("received.send_update", async move { w.send_update(2, K::body(body)).await.is_ok() }))
				}
				3 if !rcvd_w.is_empty() => {
					let w = rng.pick(&rcvd_w).clone();
					("send_response", sim.spawn("send_response", async move { w.send_response(2, K::body(body)).await.is_ok() }))
				}
				_ => ("send_stream", sim.spawn("send_stream", async move { w.send_stream(2, K::body(body)).await.is_ok() })),
			};
			send_tasks.push((what.to_string(), uid, h));
		}
	}
	if blocked {
		// Fill the pipe, so that the peer is stuck in a write.
		for _ in 0..60 {
			let w = write.clone();
			uid += 1;
			let body = tagged_body(uid, 4000);
			send_tasks.push(("send_stream".into(), uid, sim.spawn("send_stream", async move { w.send_stream(3, K::body(body)).await.is_ok() })));
		}
		let p: Vec<_> = send_tasks.iter().map(|t| t.2.id).collect();
		let _ = p;
		settle_for(&sim, || false, false).await;
	}
	let stuck = blocked && send_tasks.iter().any(|t| !t.2.is_done());
	let remote_cause = matches!(cause, RemoteClose | RemoteShutdown | RemotePartial | BadFrame);
	// Incoming messages that arrive before the end.
	// (When the remote closes while something is being sent to it, the kernel or a failing write may discard them.)
	let closes = cause == RemoteClose || cause == RemotePartial && partial_close;
	let injected = remote_cause && !blocked && !(closes && want_sends);
	if injected {
		let mut q = inject.clone();
		// Shuffle, but keep the order of every receiver.
		for k in 1..q.len() {
			let j = rng.below(k + 1);
			if q[k].1 != q[j].1 && (j..=k).all(|x| q[x].1 != q[k].1 || x == k) && (j..=k).all(|x| q[x].1 != q[j].1 || x == j) {
				q.swap(k, j);
			}
		}
		for (f, _) in &q {
			let _ = raw.try_send_some(&f.encode(cfg.end(), K::DATAGRAM), &[]);
		}
	} else {
		for o in &mut ops {
			o.expect.clear();
		}
	}
	// Stop at a random moment.
	let moment = match rng.below(4) {
		0 => 0,
		1 => rng.below(6) as u64,
		2 => rng.below(60) as u64,
		_ => 10_000,
	};
	if moment > 0 && !blocked {
		sim.steps(moment).await;
	}
	let label = format!("{} {cause:?} blocked={blocked} stuck={stuck} ops={:?} sends={} moment={moment}", K::NAME, ops.iter().map(|o| o.what.as_str()).collect::<Vec<_>>(), send_tasks.len());
	obs.sample = label.clone();
	obs.signature = Some(hash_bytes(format!("{label} {}", sim.schedule_hash()).as_bytes()));
	obs.count(&format!("cause_{cause:?}"), 1);
	obs.count("pending_operations", ops.len() as u64 + send_tasks.len() as u64);
	obs.count("stuck_in_write", stuck as u64);

	// What the remote got before it closes its end.
	let mut arrived: Vec<Frame> = vec![];
	let mut eof = false;
	let mut raw = Some(raw);
	let mut write = Some(write);
	let mut close_handles = vec![];
	let mut collect = |raw: &Raw, arrived: &mut Vec<Frame>, obs: &mut Obs| {
		for e in raw.drain() {
			match e {
				RawEvent::Frame(f, _) => arrived.push(f),
				RawEvent::Eof(_) => return true,
				RawEvent::Error(_) => return true,
				RawEvent::Bad(e) => obs.violate("wire", e),
			}
		}
		false
	};
	match cause {
		CloseRead => read.as_ref().unwrap().close(),
		CloseWrite => write.as_ref().unwrap().close(),
		CloseHandle => {
			if rng.chance(1, 2) {
				close_a.close()
			} else {
				write.as_ref().unwrap().close_handle().close()
			}
		}
		DropAll => {
			read = None;
			write = None;
			// Streams and requests in flight keep clones of the write handle.
			close_handles.push(close_a);
		}
		RemoteClose => {
			if !blocked {
				// Unread data would turn the close into a reset.
				collect(raw.as_ref().unwrap(), &mut arrived, &mut obs);
			}
			raw = None;
		}
		RemoteReset => {
			let r = raw.take().unwrap();
			let l = libc::linger { l_onoff: 1, l_linger: 0 };
			unsafe { libc::setsockopt(r.raw_fd(), libc::SOL_SOCKET, libc::SO_LINGER, &l as *const _ as *const _, std::mem::size_of_val(&l) as u32) };
		}
		RemoteShutdown => raw.as_ref().unwrap().shutdown_write(),
		PeerDropped => run.cancel(),
		RemotePartial => {
			let f = Frame::new(4, 0, 1, vec![1; 40]).stream(cfg.end());
			let n = 1 + rng.below(f.len() - 1);
			let _ = raw.as_ref().unwrap().try_send_some(&f[..n], &[]);
			if rng.chance(1, 2) {
				sim.steps(rng.below(20) as u64 + 1).await;
			}
			if !partial_close {
				raw.as_ref().unwrap().shutdown_write();
			} else {
				collect(raw.as_ref().unwrap(), &mut arrived, &mut obs);
				raw = None;
			}
		}
		BadFrame => {
			let bytes = if K::DATAGRAM {
				let f = Frame::new(4, 0, 1, vec![]).datagram(cfg.end());
				if rng.chance(1, 2) {
					f[..1 + rng.below(11)].to_vec()
				} else {
					let mut f = f;
					f[..4].copy_from_slice(&cfg.end().put(5 + rng.below(1000) as u32));
					f
				}
			} else {
				let mut f = Frame::new(4, 0, 1, vec![0; 30]).stream(cfg.end());
				match rng.below(3) {
					0 => f[4..8].copy_from_slice(&cfg.end().put(5 + rng.below(1000) as u32)),
					1 => f[..4].copy_from_slice(&cfg.end().put(rng.below(12) as u32)),
					_ => f[..4].copy_from_slice(&cfg.end().put(8192 + 13 + rng.below(1000) as u32)),
				}
				f
			};
			let _ = raw.as_ref().unwrap().try_send_some(&bytes, &[]);
		}
		RemoteNoRead => {
			unsafe { libc::shutdown(raw.as_ref().unwrap().raw_fd(), libc::SHUT_RD) };
			// Somebody has to notice.
			if let Some(w) = &write {
				let w = w.clone();
				let body = K::body(vec![1]);
				let (what, h) = match rng.below(6) {
					0 | 1 => ("send_request", sim.spawn("send_request", async move { w.send_request(1, body).await.is_ok() })),
					// Other sends may have closed the request already: then nothing is sent.
					2 if !sent_w.is_empty() && !want_sends => {
						let w = rng.pick(&sent_w).clone();
						("sent.send_update", sim.spawn("sent.send_update", async move { w.send_update(1, body).await.is_ok() }))
					}
					3 if !rcvd_w.is_empty() && !want_sends => {
						let w = rng.pick(&rcvd_w).clone();
						("received.send_update", sim.spawn("received.send_update", async move { w.send_update(1, body).await.is_ok() }))
					}
					4 if !rcvd_w.is_empty() && !want_sends => {
						let w = rng.pick(&rcvd_w).clone();
						("send_response", sim.spawn("send_response", async move { w.send_response(1, body).await.is_ok() }))
					}
					_ => ("send_stream", sim.spawn("send_stream", async move { w.send_stream(1, body).await.is_ok() })),
				};
				obs.count(&format!("noticed_by_{what}"), 1);
				send_tasks.push((what.into(), 0, h));
			}
		}
	}

	// First stage: the remote does not do anything any more.
	let all_done = |ops: &Vec<Op<K>>, sends: &Vec<(String, u64, Handle<bool>)>| (run.is_done() || cause == PeerDropped) && ops.iter().all(|o| o.task.is_done()) && sends.iter().all(|s| s.2.is_done());
	let waits_for_remote = stuck && raw.is_some() && cause != PeerDropped;
	let ended = settle_for(&sim, || all_done(&ops, &send_tasks), !waits_for_remote).await;
	check_panics(&sim, &mut obs);
	if !ended && obs.violations.is_empty() {
		let mut left = sim.unfinished();
		left.dedup();
		if waits_for_remote {
			// The peer is in the middle of a write that the remote does not take.
			obs.violate("end-while-write-is-stuck", format!("{label}: still waiting: {left:?}"));
			obs.count("stuck_ends", 1);
			// Second stage: as soon as the remote reads, or goes away, everything completes.
			if rng.chance(1, 2) {
				raw = None;
			}
			let raw2 = &raw;
			for i in 0..1000 {
				if let Some(r) = raw2 {
					eof |= collect(r, &mut arrived, &mut obs);
				}
				sim.settle(400_000).await;
				if all_done(&ops, &send_tasks) {
					break;
				}
				std::thread::sleep(Duration::from_millis(i / 20));
			}
			if !all_done(&ops, &send_tasks) {
				obs.violate("hang", format!("{label}: still waiting after the remote read everything or closed: {:?}", sim.unfinished()));
			}
		} else {
			obs.violate("hang", format!("{label}: still waiting: {left:?}"));
		}
	}
	let hung = obs.violations.iter().any(|v| v.key != "end-while-write-is-stuck");
	if !hung {
		for o in &mut ops {
			let (out, kept) = o.task.take().unwrap();
			match &out {
				Out::Received(got) => {
					// Our own response closes the request.
					let responded = o.what == "received.recv_update" && send_tasks.iter().any(|s| s.0 == "send_response");
					if *got != o.expect && !(responded && o.expect.starts_with(got)) {
						obs.violate("received", format!("{label}: {} yields {got:?} instead of {:?} before the end", o.what, o.expect));
					}
				}
				Out::Sent(true) => obs.violate("received", format!("{label}: {} yields a response that nobody sent", o.what)),
				Out::Sent(false) => {}
			}
			obs.count("completed_receives", 1);
			later.push(kept);
		}
		// The socket is closed.
		if let Some(r) = &raw {
			for i in 0..40 {
				eof = eof || collect(r, &mut arrived, &mut obs);
				if eof {
					break;
				}
				std::thread::sleep(Duration::from_millis(i));
			}
			if !eof {
				obs.violate("no-eof", format!("{label}: the remote does not see the end of the connection"));
			}
			// Acknowledged messages have arrived.
			if cause != RemoteNoRead {
				for (what, uid, h) in &send_tasks {
					if h.take() == Some(true) && !arrived.iter().any(|f| uid_of(&f.body) == Some(*uid)) {
						obs.violate("acknowledged-lost", format!("{label}: {what} reported success, but the remote never got it"));
					}
				}
			}
		}
		if census(&[a_id])[0] != 0 {
			obs.violate("socket-open", format!("{label}: the socket is still open after the peer ended"));
		}
		// Every later call completes too, any number of times.
		if let Some(r) = read.take() {
			later.push(Kept::Read(r));
		}
		let mut calls = vec![];
		for round in 0..2 {
			let _ = round;
			if let Some(w) = &write {
				let (w1, w2) = (w.clone(), w.clone());
				calls.push(("send_stream", sim.spawn("late send_stream", async move { w1.send_stream(1, K::body(vec![])).await.is_err() })));
				calls.push(("send_request", sim.spawn("late send_request", async move { w2.send_request(1, K::body(vec![])).await.is_err() })));
				w.close();
			}
			for w in &sent_w {
				let w = w.clone();
				calls.push(("sent.send_update", sim.spawn("late sent.send_update", async move { w.send_update(1, K::body(vec![])).await.is_err() })));
			}
			for w in &rcvd_w {
				let w = w.clone();
				let k = rng.below(3);
				calls.push((
					"received.send",
					sim.spawn("late received.send", async move {
						match k {
							0 => w.send_update(1, K::body(vec![])).await.is_err(),
							1 => w.send_response(1, K::body(vec![])).await.is_err(),
							_ => w.send_error_response("late").await.is_err(),
						}
					}),
				));
			}
		}
		let mut back = vec![];
		for k in later {
			let injected = injected;
			match k {
				Kept::Read(mut r) => back.push(sim.spawn("late recv_message", async move {
					let mut n = 0;
					// What arrived before may still come first.
					while n < 20 && !matches!(r.recv_message().await, Err(e) if e.is_connection_aborted()) {
						n += 1;
					}
					let again = matches!(r.recv_message().await, Err(_));
					r.close();
					n < 20 && again
				})),
				Kept::Sent(mut r) => back.push(sim.spawn("late sent.recv", async move {
					let _ = injected;
					let a = r.recv_update().await.is_none();
					let b = r.recv_response().await.is_err();
					let c = r.recv_update().await.is_none();
					a && b && c
				})),
				Kept::Rcvd(mut r) => back.push(sim.spawn("late received.recv", async move { r.recv_update().await.is_none() && r.recv_update().await.is_none() })),
				Kept::None => {}
			}
		}
		sim.settle(400_000).await;
		check_panics(&sim, &mut obs);
		for (what, h) in calls {
			obs.count("late_calls", 1);
			match h.take() {
				Some(true) => {}
				Some(false) => obs.violate("late-success", format!("{label}: {what} after the end reports success")),
				None => obs.violate("late-hang", format!("{label}: {what} after the end does not complete")),
			}
		}
		for h in back {
			obs.count("late_receives", 1);
			match h.take() {
				Some(true) => {}
				Some(false) => obs.violate("late-receive", format!("{label}: a receive after the end yields something")),
				None => obs.violate("late-hang", format!("{label}: a receive after the end does not complete")),
			}
		}
		for h in close_handles {
			h.close();
		}
	}
	sim.clear();
	obs
}

pub fn run(rep: &Report, quick: u64) {
	rep.rule("endings: eleven causes of an end, at random moments, with random pending operations of every kind, optionally while the peer is stuck in a write; everything must complete, the remote must see the end, and every later call must fail; distinct = cause, operations and schedule");
	let t = rep.settings.thorough();
	let n = if t { quick * 40 } else { quick };
	let secs = if t { 300.0 } else { 40.0 };
	rep.run_cases("endings", n, secs, 8, |seed| {
		block_on(async move {
			match seed % 5 {
				0 | 1 => case::<UnixS>(seed).await,
				2 => case::<Tcp>(seed).await,
				_ => case::<Seq>(seed).await,
			}
		})
	});
	rep.require("late_calls", 5000);
	rep.require("completed_receives", 3000);
}
