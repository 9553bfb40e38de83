//! C01: stream transports are lossless and ordered under any fragmentation and partial I/O.

use crate::chaos::{self, Mode};
use crate::kit::*;
use crate::proxy::*;
use crate::report::*;
use crate::rng::{hash_bytes, Rng};
use crate::sim::*;
use crate::util::*;
use crate::wire::Frame;
use fizyr_rpc::transport::{Transport, TransportReadHalf, TransportWriteHalf};
use std::cell::RefCell;
use std::os::fd::AsRawFd;
use std::rc::Rc;

/// One endpoint at the transport level: write a list of messages and read until `expect` arrived or an error.
pub async fn endpoint<K: Kit>(
	mut transport: K::T,
	to_send: Vec<Frame>,
	expect: usize,
	received: Rc<RefCell<Vec<Frame>>>,
	errors: Rc<RefCell<Vec<String>>>,
	mut rng: Rng,
	delay: usize,
) {
	let (mut r, mut w) = transport.split();
	let mut rng2 = rng.fork();
	let err2 = errors.clone();
	let reader = async {
		while received.borrow().len() < expect {
			match r.read_msg().await {
				Ok(m) => received.borrow_mut().push(frame_of::<K>(m)),
				Err(e) => {
					errors.borrow_mut().push(format!("read: {e}"));
					break;
				}
			}
			if delay > 0 {
				yields(rng.below(delay)).await;
			}
		}
	};
	let writer = async {
		for f in &to_send {
			let body = K::body(f.body.clone());
			if let Err(e) = w.write_msg(&header(f.ty, f.id, f.svc), &body).await {
				err2.borrow_mut().push(format!("write: {e}"));
				break;
			}
			if delay > 0 {
				yields(rng2.below(delay)).await;
			}
		}
	};
	tokio::pin!(reader);
	tokio::pin!(writer);
	let (mut rd, mut wd) = (false, false);
	std::future::poll_fn(|cx| {
		use std::future::Future;
		if !rd && reader.as_mut().poll(cx).is_ready() {
			rd = true;
		}
		if !wd && writer.as_mut().poll(cx).is_ready() {
			wd = true;
		}
		if rd && wd { std::task::Poll::Ready(()) } else { std::task::Poll::Pending }
	})
	.await;
	// Keep the connection open: the transport is dropped by the caller's end of scope only after both sides are done.
	std::future::pending::<()>().await
}

pub fn gen_frames(rng: &mut Rng, n: usize, max: usize, uid: &mut u64) -> Vec<Frame> {
	(0..n)
		.map(|_| {
			*uid += 1;
			Frame::new(rng.below(5) as u32, any_u32(rng), any_i32(rng), tagged_body(*uid, size(rng, max)))
		})
		.collect()
}

fn case<K: Kit>(seed: u64) -> Obs {
	let mut rng = Rng::new(seed);
	let mut obs = Obs::default();
	let big = rng.chance(1, 6);
	let max = if big { 150_000 } else { *rng.pick(&[300usize, 3000, 9000, 20000]) };
	let cfg = Cfg { max_read: max as u32, max_write: max as u32, endian: *rng.pick(&[ECfg::Little, ECfg::Big]), ..Default::default() };
	let mut uid = seed;
	let tiny = rng.chance(1, 3);
	let n = |rng: &mut Rng| if big { rng.below(4) } else if tiny { rng.below(6) } else { rng.below(25) };
	let max_here = if tiny { 400.min(max) } else { max };
	let na = n(&mut rng);
	let nb = n(&mut rng);
	let a_sends = gen_frames(&mut rng, na, max_here, &mut uid);
	let b_sends = gen_frames(&mut rng, nb, max_here, &mut uid);
	let mode = if tiny { *rng.pick(&[Mode::One, Mode::Tiny]) } else { *rng.pick(&[Mode::Off, Mode::Any, Mode::Any, Mode::Rare]) };
	let use_proxy = rng.chance(2, 3);
	let delay = if rng.chance(1, 2) { 0 } else { 1 + rng.below(8) };
	let (mut p1, mut p2) = (PumpCfg::random(&mut rng), PumpCfg::random(&mut rng));
	if big || !tiny {
		// Byte by byte only for small volumes.
		for p in [&mut p1, &mut p2] {
			let vol: usize = a_sends.iter().chain(&b_sends).map(|f| f.body.len() + 16).sum();
			let min = vol / 4000 + 1;
			p.max_read = p.max_read.max(min);
			p.max_write = p.max_write.max(min);
		}
	}
	let sndbuf = if rng.chance(1, 2) && !K::TCP { 4608 } else { 0 };
	block_on(async {
		let sim = Sim::new(rng.u64());
		let (fa, fa2) = K::pair();
		let logs = [Rc::new(RefCell::new(WireLog::default())), Rc::new(RefCell::new(WireLog::default()))];
		let fb;
		if use_proxy {
			let (x, y) = K::pair();
			fb = x;
			let ra = Rc::new(Raw::new(fa2, false, cfg.end()));
			let rb = Rc::new(Raw::new(y, false, cfg.end()));
			set_bufs(ra.raw_fd(), sndbuf, 0);
			set_bufs(rb.raw_fd(), sndbuf, 0);
			sim.spawn("proxy-ab", pump(ra.clone(), rb.clone(), p1.clone(), rng.fork(), logs[0].clone()));
			sim.spawn("proxy-ba", pump(rb, ra, p2.clone(), rng.fork(), logs[1].clone()));
		} else {
			fb = fa2;
		}
		set_bufs(fa.as_raw_fd(), sndbuf, 0);
		set_bufs(fb.as_raw_fd(), sndbuf, 0);
		chaos::set(fa.as_raw_fd(), mode, rng.u64());
		chaos::set(fb.as_raw_fd(), mode, rng.u64());
		let ta = K::transport(fa, &cfg);
		let tb = K::transport(fb, &cfg);
		let (ga, gb) = (Rc::new(RefCell::new(vec![])), Rc::new(RefCell::new(vec![])));
		let errors = Rc::new(RefCell::new(vec![]));
		sim.spawn("peer-a", endpoint::<K>(ta, a_sends.clone(), b_sends.len(), ga.clone(), errors.clone(), rng.fork(), delay));
		sim.spawn("peer-b", endpoint::<K>(tb, b_sends.clone(), a_sends.len(), gb.clone(), errors.clone(), rng.fork(), delay));
		if K::TCP {
			sim.0.idle_grace_us.set(1_500_000);
		}
		let s0 = chaos::SHORT_WRITES.load(std::sync::atomic::Ordering::Relaxed);
		let all = (a_sends.len(), b_sends.len());
		let (ga2, gb2, e2) = (ga.clone(), gb.clone(), errors.clone());
		let settled = sim.settle_until(3_000_000, move || gb2.borrow().len() >= all.0 && ga2.borrow().len() >= all.1 || !e2.borrow().is_empty()).await;
		let _ = s0;
		obs.count("messages", (ga.borrow().len() + gb.borrow().len()) as u64);
		check_panics(&sim, &mut obs);
		for (dir, want, got) in [("a->b", &a_sends, gb.borrow()), ("b->a", &b_sends, ga.borrow())] {
			if let Some(d) = first_diff(want, &got) {
				if settled == Settled::Limit {
					obs.inconclusive = Some("poll limit".into());
					continue;
				}
				obs.violate("stream-diff", format!("{} {dir}: {d}; errors {:?}; mode {mode:?} proxy {use_proxy} sndbuf {sndbuf}", K::NAME, errors.borrow()));
			}
		}
		if use_proxy {
			for (dir, want, log) in [("a->b", &a_sends, &logs[0]), ("b->a", &b_sends, &logs[1])] {
				let bytes: Vec<u8> = want.iter().flat_map(|f| f.stream(cfg.end())).collect();
				if obs.violations.is_empty() && obs.inconclusive.is_none() && log.borrow().bytes != bytes {
					obs.violate("wire-diff", format!("{} {dir}: bytes on the wire differ from the documented encoding", K::NAME));
				}
			}
		}
		if !errors.borrow().is_empty() && obs.violations.is_empty() {
			obs.violate("io-error", format!("{}: unexpected error {:?}", K::NAME, errors.borrow()));
		}
		obs.sample = format!(
			"{} a->b {} msgs {:?}, b->a {} msgs, write mode {mode:?}, proxy {use_proxy} {p1:?}, sndbuf {sndbuf}, polls {}",
			K::NAME,
			a_sends.len(),
			a_sends.iter().map(|f| f.body.len()).take(8).collect::<Vec<_>>(),
			b_sends.len(),
			sim.0.polls.get()
		);
		if a_sends.len() + b_sends.len() > 0 {
			obs.signature = Some(hash_bytes(format!("{} {:x}", obs.sample, sim.schedule_hash()).as_bytes()));
		}
		sim.clear();
	});
	obs
}

pub fn run(rep: &Report) {
	rep.rule("random message lists both ways at transport level; interposed short writes (any byte), drip-fed reads through a proxy, small send buffers, random task order; non-trivial = at least one message; distinct = sizes, modes and schedule");
	let t = rep.settings.thorough();
	rep.run_cases("unix-stream", if t { 400_000 } else { 6000 }, if t { 240.0 } else { 25.0 }, 8, case::<UnixS>);
	rep.run_cases("tcp", if t { 200_000 } else { 2500 }, if t { 200.0 } else { 20.0 }, 8, case::<Tcp>);
	let mut o = Obs::default();
	o.count("short_writes", chaos::SHORT_WRITES.load(std::sync::atomic::Ordering::Relaxed));
	o.count("short_writes_in_header", chaos::HEADER_SPLITS.load(std::sync::atomic::Ordering::Relaxed));
	rep.counts(o);
	rep.require("short_writes", 1000);
	rep.require("short_writes_in_header", 100);
	rep.require("messages", 10_000);
}
