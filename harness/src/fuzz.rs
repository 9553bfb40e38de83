//! C02, C03, C05: bytes on the wire. An independent encoder/decoder (wire.rs) is the oracle.

use crate::kit::*;
use crate::report::*;
use crate::rng::{hash_bytes, Rng};
use crate::sim::*;
use crate::util::*;
use crate::wire::*;
use fizyr_rpc::transport::{Endian, Transport, TransportReadHalf, TransportWriteHalf};
use fizyr_rpc::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, VecDeque};
use std::rc::Rc;

fn random_cfg<K: Kit>(rng: &mut Rng) -> Cfg {
	let sizes = [0u32, 1, 12, 100, 1000, 4096, 8192, 60_000];
	Cfg { endian: *rng.pick(&[ECfg::Little, ECfg::Big, ECfg::Native]), max_read: *rng.pick(&sizes), max_write: *rng.pick(&sizes), ..Default::default() }
}

fn settle_grace<K: Kit>(sim: &Sim) {
	if K::TCP {
		sim.0.idle_grace_us.set(3_000);
	}
}

/// The public header codec, both ways.
fn case_header(seed: u64) -> Obs {
	let mut rng = Rng::new(seed);
	let mut obs = Obs::default();
	for _ in 0..50 {
		let (ep, ew) = *rng.pick(&[(Endian::LittleEndian, End::Little), (Endian::BigEndian, End::Big), (Endian::NativeEndian, End::native())]);
		let f = Frame::new(rng.below(5) as u32, any_u32(&mut rng), any_i32(&mut rng), vec![]);
		let want = f.datagram(ew);
		let h = header(f.ty, f.id, f.svc);
		let mut buf = vec![0xAA; 12 + rng.below(5)];
		h.encode(&mut buf, ep);
		if buf[..12] != want[..] || buf[12..].iter().any(|b| *b != 0xAA) {
			obs.violate("header-encode", format!("{h:?} ({ew:?}) encoded as {buf:02x?}, the protocol says {want:02x?}"));
		}
		match MessageHeader::decode(&want, ep) {
			Ok(g) if mtype(g.message_type) == f.ty && g.request_id == f.id && g.service_id == f.svc => {}
			g => obs.violate("header-decode", format!("{want:02x?} ({ew:?}) decoded as {g:?}, it encodes {f:?}")),
		}
		let bad = ew.put(5 + any_u32(&mut rng) % (u32::MAX - 5));
		let bytes = [bad.to_vec(), want[4..].to_vec()].concat();
		if let Ok(g) = MessageHeader::decode(&bytes, ep) {
			obs.violate("header-decode", format!("undecodable {bytes:02x?} decoded as {g:?}"));
		}
		let ok = (h.message_type.is_request(), h.message_type.is_response(), h.message_type.is_requester_update(), h.message_type.is_responder_update(), h.message_type.is_stream());
		if ok != (f.ty == 0, f.ty == 1, f.ty == 2, f.ty == 3, f.ty == 4) {
			obs.violate("header-type", format!("type predicates of {h:?}: {ok:?}"));
		}
		obs.count("headers", 1);
	}
	obs.signature = Some(seed);
	obs.sample = "50 random headers".into();
	obs
}

/// One transport against the independent codec, in both directions.
fn case_codec<K: Kit>(seed: u64) -> Obs {
	let mut rng = Rng::new(seed);
	let mut obs = Obs::default();
	let mut cfg = random_cfg::<K>(&mut rng);
	// Default configuration: little endian streams, native endian datagrams.
	let default = rng.chance(1, 5);
	if default {
		cfg.endian = if K::DATAGRAM { ECfg::Native } else { ECfg::Little };
		(cfg.max_read, cfg.max_write) = if K::DATAGRAM { (4096, 4096) } else { (8192, 8192) };
	}
	let e = cfg.end();
	let (n_out, n_in) = (rng.below(8), rng.below(8));
	let out: Vec<Frame> = (0..n_out).map(|k| { let n = size(&mut rng, cfg.max_write as usize); Frame::new(rng.below(5) as u32, any_u32(&mut rng), any_i32(&mut rng), tagged_body(seed + k as u64, n)) }).collect();
	let inc: Vec<Frame> = (0..n_in).map(|k| { let n = size(&mut rng, cfg.max_read as usize); Frame::new(rng.below(5) as u32, any_u32(&mut rng), any_i32(&mut rng), tagged_body(seed + 100 + k as u64, n)) }).collect();
	block_on(async {
		let sim = Sim::new(rng.u64());
		settle_grace::<K>(&sim);
		let (a, b) = K::pair();
		let mut t = if default { K::transport_default(a) } else { K::transport(a, &cfg) };
		let raw = Rc::new(Raw::new(b, K::DATAGRAM, e));
		let got: Rc<RefCell<Vec<Frame>>> = Default::default();
		let errors: Rc<RefCell<Vec<String>>> = Default::default();
		let (g2, e2, out2, r2) = (got.clone(), errors.clone(), out.clone(), raw.clone());
		let want_in = inc.len();
		let main = sim.spawn("peer", async move {
			let (mut r, mut w) = t.split();
			for f in &out2 {
				if let Err(e) = w.write_msg(&header(f.ty, f.id, f.svc), &K::body(f.body.clone())).await {
					e2.borrow_mut().push(format!("write of {f:?}: {e}"));
				}
			}
			for _ in 0..want_in {
				match r.read_msg().await {
					Ok(m) => g2.borrow_mut().push(frame_of::<K>(m)),
					Err(e) => {
						e2.borrow_mut().push(format!("read: {e}"));
						break;
					}
				}
			}
		});
		// The other side, byte for byte. It reads first, as buffers are limited.
		let wire: Rc<RefCell<Vec<Vec<u8>>>> = Default::default();
		let w2 = wire.clone();
		let pieces: Vec<Vec<u8>> = if K::DATAGRAM {
			inc.iter().map(|f| f.datagram(e)).collect()
		} else {
			let all: Vec<u8> = inc.iter().flat_map(|f| f.stream(e)).collect();
			let mut v = vec![];
			let mut pos = 0;
			let max = *rng.pick(&[1usize, 5, 17, 400, 100_000]);
			let max = max.max(all.len() / 3000);
			while pos < all.len() {
				let n = (1 + rng.below(max)).min(all.len() - pos);
				v.push(all[pos..pos + n].to_vec());
				pos += n;
			}
			v
		};
		let total: usize = out.iter().map(|f| f.encode(e, K::DATAGRAM).len()).sum();
		let count = out.len();
		let mut r3 = rng.fork();
		sim.spawn("remote", async move {
			let mut seen = 0;
			while if K::DATAGRAM { w2.borrow().len() < count } else { seen < total } {
				let Ok((b, _)) = r2.recv_some(1 << 18).await else { return };
				seen += b.len();
				w2.borrow_mut().push(b);
			}
			for p in pieces {
				if r2.send_all(&p).await.is_err() {
					return;
				}
				if r3.chance(1, 2) {
					yields(r3.below(4)).await;
				}
			}
		});
		if sim.settle(2_000_000).await == Settled::Limit {
			obs.inconclusive = Some("poll limit".into());
			sim.clear();
			return;
		}
		check_panics(&sim, &mut obs);
		for e in errors.borrow().iter() {
			obs.violate("codec-error", format!("{}: unexpected error: {e} (limits {} {})", K::NAME, cfg.max_read, cfg.max_write));
		}
		let want: Vec<Vec<u8>> = out.iter().map(|f| f.encode(e, K::DATAGRAM)).collect();
		let wire = wire.borrow();
		// Anything beyond?
		let extra = raw.try_recv_some(1 << 16).map(|x| x.0.len()).unwrap_or(0);
		let same = if K::DATAGRAM { *wire == want } else { wire.concat() == want.concat() };
		if !same || extra > 0 {
			let (w, g) = (want.concat(), wire.concat());
			let at = w.iter().zip(&g).position(|(a, b)| a != b).unwrap_or(w.len().min(g.len()));
			obs.violate("encode-diff", format!("{} ({e:?}, default config {default}): bytes on the wire differ from the protocol at byte {at}: {:02x?} instead of {:02x?} (lengths {} and {}; {extra} extra)", K::NAME, &g[at.min(g.len())..(at + 8).min(g.len())], &w[at.min(w.len())..(at + 8).min(w.len())], g.len(), w.len()));
		}
		if let Some(d) = first_diff(&inc, &got.borrow()) {
			obs.violate("decode-diff", format!("{} ({e:?}, default config {default}): {d}", K::NAME));
		}
		if !main.is_done() && obs.violations.is_empty() {
			obs.violate("codec-hang", format!("{}: transport task hangs", K::NAME));
		}
		obs.count("encoded", out.len() as u64);
		obs.count("decoded", got.borrow().len() as u64);
		obs.sample = format!("{} {e:?} out {:?} in {:?}", K::NAME, out.iter().map(|f| f.body.len()).collect::<Vec<_>>(), inc.iter().map(|f| f.body.len()).collect::<Vec<_>>());
		if count + want_in > 0 {
			obs.signature = Some(hash_bytes(format!("{} {out:?} {inc:?}", obs.sample).as_bytes()));
		}
		sim.clear();
	});
	obs
}

pub fn run_codec(rep: &Report) {
	let t = rep.settings.thorough();
	rep.rule("codec: random messages of every type written by the transport and compared byte for byte with an independent encoder, and byte sequences of the independent encoder (arbitrarily fragmented) read by the transport; the public header codec; all byte orders, default and custom configurations; non-trivial = at least one message");
	let f = if t { 60 } else { 1 };
	let s = if t { 60.0 } else { 15.0 };
	rep.run_cases("header", 200 * f, s, 8, case_header);
	rep.run_cases("codec-unix-stream", 3000 * f, s, 8, case_codec::<UnixS>);
	rep.run_cases("codec-seqpacket", 3000 * f, s, 8, case_codec::<Seq>);
	rep.run_cases("codec-tcp", 800 * f, s, 8, case_codec::<Tcp>);
	rep.require("encoded", 5000);
	rep.require("decoded", 5000);
}

#[derive(Debug, Clone, PartialEq)]
enum Ev {
	Request(u32, i32, Vec<u8>),
	Stream(Frame),
	Error,
	/// May be reported or not.
	MaybeError,
}

/// What kind of input to generate.
#[derive(Clone, Copy, PartialEq)]
enum Mode {
	/// Anything (C03).
	Hostile,
	/// Valid messages and messages over the limit (C05).
	Oversize,
}

/// Random input: a list of writes, for streams just one long piece.
fn hostile_input<K: Kit>(rng: &mut Rng, cfg: &Cfg, mode: Mode, sent: &[u32]) -> Vec<Vec<u8>> {
	let e = cfg.end();
	let n = rng.below(9);
	let mut out = vec![];
	for k in 0..n {
		let ty = *rng.pick(&[0u32, 0, 0, 1, 2, 2, 3, 3, 4, 4]);
		let id = match rng.below(4) {
			0 if !sent.is_empty() => *rng.pick(sent),
			1 => any_u32(rng),
			_ => rng.below(4) as u32,
		};
		let id = if (ty == 1 || ty == 3) && !sent.is_empty() && rng.chance(2, 3) { *rng.pick(sent) } else { id };
		let len = size(rng, cfg.max_read as usize);
		let f = Frame::new(ty, id, any_i32(rng), tagged_body(rng.u64() + k as u64, len));
		out.push(f);
	}
	let mut bytes: Vec<Vec<u8>> = out.iter().map(|f| f.encode(e, K::DATAGRAM)).collect();
	let big = |rng: &mut Rng| {
		let max = cfg.max_read as usize;
		match rng.below(4) {
			0 => max + 1,
			1 => max + 2 + rng.below(30),
			_ => max + 1 + rng.below(9000),
		}
	};
	if mode == Mode::Oversize {
		let over = Frame::new(rng.below(5) as u32, rng.below(4) as u32, any_i32(rng), tagged_body(rng.u64(), big(rng)));
		let at = rng.below(bytes.len() + 1);
		if K::DATAGRAM {
			bytes.insert(at, over.datagram(e));
			if rng.chance(1, 3) {
				let at = rng.below(bytes.len() + 1);
				let n = big(rng);
				bytes.insert(at, Frame::new(rng.below(5) as u32, rng.below(4) as u32, 1, tagged_body(rng.u64(), n)).datagram(e));
			}
		} else {
			let mut b = over.stream(e);
			if rng.chance(1, 2) {
				// Announce much more than follows.
				let n = match rng.below(5) {
					0 => u32::MAX,
					1 => u32::MAX - 12 - rng.below(3) as u32,
					2 => 1 << 31,
					3 => (1 << 24) + rng.below(1 << 20) as u32,
					_ => (cfg.max_read + 13) + rng.below(1 << 22) as u32,
				};
				b[..4].copy_from_slice(&e.put(n));
			}
			if rng.chance(1, 3) {
				let n = rng.below(b.len() - 16 + 1);
				b.truncate(16 + n);
			}
			bytes.insert(at, b);
		}
		return bytes;
	}
	// Corruptions.
	if K::DATAGRAM {
		for b in bytes.iter_mut() {
			if !rng.chance(1, 6) {
				continue;
			}
			match rng.below(4) {
				0 => b.truncate(1 + rng.below(b.len())),
				1 => {
					let n = b.len();
					b[rng.below(n)] ^= 1 << rng.below(8);
				}
				2 => b[..4].copy_from_slice(&e.put(5 + any_u32(rng) % 0xfffffff0)),
				_ => {
					let n = big(rng) + 12;
					b.resize(n, 0x55);
				}
			}
		}
		if rng.chance(1, 8) {
			let n = 1 + rng.below(40);
			bytes.push(rng.bytes(n));
		}
		for b in bytes.iter_mut() {
			// Too large and also undecodable: either error would be right, so that is not generated.
			if b.len() > cfg.max_read as usize + 12 && e.get(b) > 4 {
				b[..4].copy_from_slice(&e.put(rng.below(5) as u32));
			}
		}
		return bytes;
	}
	let mut all: Vec<u8> = vec![];
	for b in &mut bytes {
		if rng.chance(1, 10) {
			let n = match rng.below(8) {
				0 => rng.below(12) as u32,
				1 => 11,
				2 => 12,
				3 => u32::MAX - rng.below(14) as u32,
				4 => cfg.max_read + 12 + rng.below(3) as u32,
				5 => 0,
				6 => 1 << (16 + rng.below(16)),
				_ => any_u32(rng),
			};
			b[..4].copy_from_slice(&e.put(n));
		}
		if rng.chance(1, 12) {
			b[4..8].copy_from_slice(&e.put(any_u32(rng)));
		}
		all.extend_from_slice(b);
	}
	match rng.below(6) {
		0 if !all.is_empty() => {
			for _ in 0..1 + rng.below(3) {
				let n = all.len();
				all[rng.below(n)] ^= 1 << rng.below(8);
			}
		}
		1 if !all.is_empty() => {
			let at = rng.below(all.len());
			all.remove(at);
		}
		2 => {
			let at = rng.below(all.len() + 1);
			all.insert(at, rng.u32() as u8);
		}
		3 => all.truncate(rng.below(all.len() + 1)),
		4 => {
			let n = 1 + rng.below(60);
			all.extend(rng.bytes(n));
		}
		_ => {}
	}
	vec![all]
}

/// What the independent decoder makes of it: the messages, in order, and how it ends.
#[derive(Debug, PartialEq)]
enum Ending {
	Clean,
	/// Ends in the middle of a message.
	Cut,
	Bad(String),
}

fn decode_all<K: Kit>(input: &[Vec<u8>], cfg: &Cfg) -> (Vec<Result<Frame, String>>, Ending) {
	let e = cfg.end();
	let mut out = vec![];
	if K::DATAGRAM {
		for b in input {
			if b.len() > cfg.max_read as usize + 12 {
				out.push(Err(format!("oversize datagram {}", b.len())));
				continue;
			}
			match Frame::parse_datagram(b, e) {
				Ok(f) => out.push(Ok(f)),
				Err(m) => return (out, Ending::Bad(m)),
			}
		}
		return (out, Ending::Clean);
	}
	let mut p = StreamParser::default();
	p.push(&input.concat());
	loop {
		match p.next(e, cfg.max_read as usize) {
			Parsed::Frame(f) => out.push(Ok(f)),
			Parsed::Bad(m) => return (out, Ending::Bad(m)),
			Parsed::Incomplete => return (out, if p.leftover().is_empty() { Ending::Clean } else { Ending::Cut }),
		}
	}
}

async fn inject<K: Kit>(sim: &Sim, raw: &Raw, input: &[Vec<u8>], rng: &mut Rng) {
	let chunk = *rng.pick(&[1usize, 3, 20, 300, 1 << 20]);
	for b in input {
		let mut pos = 0;
		let chunk = chunk.max(b.len() / 400);
		let mut stuck = 0;
		while pos < b.len() {
			let n = if K::DATAGRAM { b.len() } else { (1 + rng.below(chunk)).min(b.len() - pos) };
			match raw.try_send_some(&b[pos..pos + n], &[]) {
				Ok(k) => {
					pos += k;
					if rng.chance(1, 2) {
						sim.steps(rng.below(3) as u64).await;
					}
				}
				Err(e) if e.kind() == std::io::ErrorKind::WouldBlock && stuck < 1000 => {
					stuck += 1;
					sim.settle(100_000).await;
				}
				// The peer ended the connection already.
				Err(_) => return,
			}
		}
	}
}

/// Hostile input to a whole peer with pending operations, next to an unrelated connection.
fn case_peer<K: Kit>(mode: Mode, seed: u64) -> Obs {
	let mut rng = Rng::new(seed);
	let mut obs = Obs::default();
	let mut cfg = Cfg { endian: *rng.pick(&[ECfg::Little, ECfg::Big]), max_read: *rng.pick(&[0u32, 20, 100, 1000, 9000]), ..Default::default() };
	if mode == Mode::Oversize {
		cfg.max_read = *rng.pick(&[0u32, 1, 12, 100, 1000, 9000, 60_000]);
	}
	block_on(async {
		crate::alloc::reset();
		let sim = Sim::new(rng.u64());
		settle_grace::<K>(&sim);
		let (a, b) = K::pair();
		let raw = Raw::new(b, K::DATAGRAM, cfg.end());
		let (peer, handle) = Peer::new(K::transport(a, &cfg));
		let run = sim.spawn("peer", peer.run());
		let close = handle.close_handle();
		let (mut read, write) = handle.split();
		// Another connection in the same process.
		let (c, d) = K::pair();
		let (p1, h1) = Peer::new(K::transport(c, &Cfg::default()));
		let (p2, h2) = Peer::new(K::transport(d, &Cfg::default()));
		sim.spawn("peer", p1.run());
		sim.spawn("peer", p2.run());
		let (mut other_read, _other_keep) = h2.split();
		sim.spawn("other server", async move {
			while let Ok(ReceivedMessage::Request(r, b)) = other_read.recv_message().await {
				if r.send_response(9, b).await.is_err() {
					break;
				}
			}
		});
		let (other_keep_read, other) = h1.split();
		let other_tasks: Vec<Handle<bool>> = (0..2 + rng.below(3))
			.map(|k| {
				let w = other.clone();
				let mut r2 = rng.fork();
				sim.spawn("other client", async move {
					for i in 0..3u64 {
						yields(r2.below(20)).await;
						let body = tagged_body(k as u64 * 10 + i, 40);
						let Ok(mut h) = w.send_request(5, K::body(body.clone())).await else { return false };
						match h.recv_response().await {
							Ok(m) if K::data(&m.body) == &body[..] => {}
							_ => return false,
						}
					}
					true
				})
			})
			.collect();
		// Open requests with pending receives.
		let w = write.clone();
		let n_sent = rng.below(4);
		let t = sim.spawn("user", async move {
			let mut out = vec![];
			for k in 0..n_sent {
				if let Ok(h) = w.send_request(k as i32, K::body(vec![])).await {
					out.push(h);
				}
			}
			out
		});
		sim.settle(200_000).await;
		let Some(handles) = t.take() else {
			obs.inconclusive = Some("setup".into());
			return;
		};
		let sent_ids: Vec<u32> = handles.iter().map(|h| h.request_id()).collect();
		raw.drain();
		let mut per_sent: BTreeMap<u32, (Rc<RefCell<Vec<Frame>>>, Handle<()>)> = BTreeMap::new();
		for mut h in handles {
			let list: Rc<RefCell<Vec<Frame>>> = Default::default();
			let l2 = list.clone();
			let id = h.request_id();
			let t = sim.spawn("user", async move {
				while let Some(m) = h.recv_update().await {
					l2.borrow_mut().push(frame_of::<K>(m));
				}
				if let Ok(m) = h.recv_response().await {
					l2.borrow_mut().push(frame_of::<K>(m));
				}
			});
			per_sent.insert(id, (list, t));
		}
		let events: Rc<RefCell<Vec<Ev>>> = Default::default();
		let aborted: Rc<RefCell<usize>> = Default::default();
		let per_rcvd: Rc<RefCell<Vec<(u32, Rc<RefCell<Vec<Frame>>>, Handle<()>)>>> = Default::default();
		let (e2, a2, p2, s2) = (events.clone(), aborted.clone(), per_rcvd.clone(), sim.clone());
		let reader = sim.spawn("user", async move {
			loop {
				match read.recv_message().await {
					Ok(ReceivedMessage::Stream(m)) => e2.borrow_mut().push(Ev::Stream(frame_of::<K>(m))),
					Ok(ReceivedMessage::Request(mut r, b)) => {
						let (data, _) = K::into_parts(b);
						e2.borrow_mut().push(Ev::Request(r.request_id(), r.service_id(), data));
						let list: Rc<RefCell<Vec<Frame>>> = Default::default();
						let l2 = list.clone();
						let id = r.request_id();
						let t = s2.spawn("user", async move {
							while let Some(m) = r.recv_update().await {
								l2.borrow_mut().push(frame_of::<K>(m));
							}
						});
						p2.borrow_mut().push((id, list, t));
					}
					Err(e) if e.is_connection_aborted() => {
						*a2.borrow_mut() += 1;
						if *a2.borrow() >= 2 {
							break;
						}
					}
					Err(_) => {
						e2.borrow_mut().push(Ev::Error);
						if e2.borrow().len() > 1000 {
							break;
						}
					}
				}
			}
			read
		});
		let input = hostile_input::<K>(&mut rng, &cfg, mode, &sent_ids);
		let (frames, ending) = decode_all::<K>(&input, &cfg);
		// An oversized datagram whose header is not valid either may be treated either way.
		inject::<K>(&sim, &raw, &input, &mut rng).await;
		if rng.chance(1, 2) {
			sim.settle(200_000).await;
		}
		let fatal = matches!(ending, Ending::Bad(_));
		if !fatal || rng.chance(1, 2) {
			raw.shutdown_write();
		}
		sim.settle(500_000).await;
		check_panics(&sim, &mut obs);
		// Expected events.
		let mut open_sent: BTreeMap<u32, bool> = sent_ids.iter().map(|i| (*i, true)).collect();
		let mut rcvd: Vec<(u32, Vec<Frame>)> = vec![];
		let mut want_sent: BTreeMap<u32, Vec<Frame>> = sent_ids.iter().map(|i| (*i, vec![])).collect();
		let mut want: Vec<Ev> = vec![];
		for f in &frames {
			match f {
				Err(_) => want.push(Ev::Error),
				Ok(f) => match f.ty {
					REQUEST => {
						if rcvd.iter().any(|r| r.0 == f.id) {
							want.push(Ev::Error);
						} else {
							rcvd.push((f.id, vec![]));
							want.push(Ev::Request(f.id, f.svc, f.body.clone()));
						}
					}
					STREAM => want.push(Ev::Stream(f.clone())),
					REQ_UPDATE => match rcvd.iter_mut().find(|r| r.0 == f.id) {
						Some(r) => r.1.push(f.clone()),
						None => want.push(Ev::Error),
					},
					_ => match open_sent.get(&f.id) {
						Some(true) => {
							want_sent.get_mut(&f.id).unwrap().push(f.clone());
							if f.ty == RESPONSE {
								open_sent.insert(f.id, false);
							}
						}
						_ => want.push(Ev::Error),
					},
				},
			}
		}
		match &ending {
			Ending::Bad(_) => want.push(Ev::Error),
			Ending::Cut => want.push(Ev::MaybeError),
			Ending::Clean => {}
		}
		let describe = || format!("{}: input decodes to {frames:?} then {ending:?}, input {:02x?}", K::NAME, input.concat().iter().take(80).collect::<Vec<_>>());
		let over = frames.iter().any(|f| f.is_err()) || matches!(&ending, Ending::Bad(m) if m.starts_with("oversize"));
		let key = if over { "oversize-" } else { "" };
		let got = events.borrow();
		let mut w: VecDeque<&Ev> = want.iter().collect();
		let mut ok = true;
		for g in got.iter() {
			match w.pop_front() {
				Some(e) if e == g => {}
				Some(Ev::MaybeError) if *g == Ev::Error => {}
				_ => ok = false,
			}
		}
		if !ok || w.iter().any(|e| **e != Ev::MaybeError) {
			obs.violate(format!("{key}events-diff"), format!("receiver got {got:?}, expected {want:?}; {}", describe()));
		}
		for (id, list) in &want_sent {
			let (got, t) = &per_sent[id];
			if let Some(d) = first_diff(list, &got.borrow()) {
				obs.violate(format!("{key}sent-request-diff"), format!("on the handle of request {id}: {d}; {}", describe()));
			}
			if !t.is_done() {
				obs.violate("pending-hangs", format!("a receive on open request {id} does not complete after the end; {}", describe()));
			}
		}
		for (i, (id, list)) in rcvd.iter().enumerate() {
			if let Some((gid, got, t)) = per_rcvd.borrow().get(i) {
				if gid == id {
					if let Some(d) = first_diff(list, &got.borrow()) {
						obs.violate(format!("{key}received-request-diff"), format!("on received request {id}: {d}; {}", describe()));
					}
				}
				if !t.is_done() {
					obs.violate("pending-hangs", format!("a receive on received request {id} does not complete after the end; {}", describe()));
				}
			}
		}
		if !run.is_done() {
			obs.violate("peer-does-not-end", format!("the peer task does not end; {}", describe()));
		}
		if !reader.is_done() {
			obs.violate("pending-hangs", format!("recv_message does not complete after the end; {}", describe()));
		}
		let w2 = write.clone();
		let late = sim.spawn("user", async move { w2.send_stream(1, K::body(vec![])).await.is_err() });
		sim.settle(500_000).await;
		if run.is_done() && late.take() != Some(true) {
			obs.violate("late-send", format!("a send after the end does not fail; {}", describe()));
		}
		for t in &other_tasks {
			if t.take() != Some(true) {
				obs.violate("other-connection", format!("an unrelated connection was disturbed; {}", describe()));
				break;
			}
		}
		drop(other_keep_read);
		let largest = crate::alloc::largest();
		if let Ending::Bad(m) = &ending {
			if let Some(n) = m.strip_prefix("oversize ").and_then(|n| n.parse::<usize>().ok()) {
				if n > 1 << 20 && largest >= n {
					obs.violate("oversize-allocated", format!("{}: {n} bytes were announced (limit {}) and an allocation of {largest} bytes was made", K::NAME, cfg.max_read));
				}
				obs.count("announced_over_limit", 1);
				if n > 1 << 20 {
					obs.count("announced_over_1MiB", 1);
				}
			}
		}
		obs.count("oversize_datagrams", frames.iter().filter(|f| f.is_err()).count() as u64);
		obs.count("messages_before", frames.iter().filter(|f| f.is_ok()).count() as u64);
		obs.count(match &ending { Ending::Clean => "clean_end", Ending::Cut => "cut_in_message", Ending::Bad(_) => "undecodable" }, 1);
		obs.sample = describe();
		if !input.concat().is_empty() {
			obs.signature = Some(hash_bytes(&input.concat()));
		}
		drop(close);
		sim.clear();
	});
	obs
}

/// Hostile input to a bare transport.
fn case_transport<K: Kit>(mode: Mode, seed: u64) -> Obs {
	let mut rng = Rng::new(seed);
	let mut obs = Obs::default();
	let cfg = Cfg { endian: *rng.pick(&[ECfg::Little, ECfg::Big]), max_read: *rng.pick(&[0u32, 20, 100, 1000, 9000]), ..Default::default() };
	block_on(async {
		crate::alloc::reset();
		let sim = Sim::new(rng.u64());
		settle_grace::<K>(&sim);
		let (a, b) = K::pair();
		let raw = Raw::new(b, K::DATAGRAM, cfg.end());
		let mut t = K::transport(a, &cfg);
		let got: Rc<RefCell<Vec<Result<Frame, bool>>>> = Default::default();
		let g2 = got.clone();
		let input = hostile_input::<K>(&mut rng, &cfg, mode, &[]);
		let (frames, ending) = decode_all::<K>(&input, &cfg);
		let task = sim.spawn("peer", async move {
			let (mut r, _w) = t.split();
			loop {
				match r.read_msg().await {
					Ok(m) => g2.borrow_mut().push(Ok(frame_of::<K>(m))),
					Err(e) => {
						let fatal = fizyr_rpc::transport::TransportError::is_fatal(&e);
						g2.borrow_mut().push(Err(fatal));
						if fatal {
							break;
						}
					}
				}
			}
		});
		inject::<K>(&sim, &raw, &input, &mut rng).await;
		raw.shutdown_write();
		sim.settle(500_000).await;
		check_panics(&sim, &mut obs);
		let describe = || format!("{}: input decodes to {frames:?} then {ending:?}, input {:02x?}", K::NAME, input.concat().iter().take(80).collect::<Vec<_>>());
		let mut want: Vec<Result<Frame, bool>> = frames.iter().map(|f| f.clone().map_err(|_| false)).collect();
		want.push(Err(true));
		if want != *got.borrow() {
			obs.violate("transport-diff", format!("reads gave {:?}, expected {want:?}; {}", got.borrow(), describe()));
		}
		if !task.is_done() {
			obs.violate("transport-hang", format!("a read does not complete after the end; {}", describe()));
		}
		obs.count("transport_inputs", 1);
		obs.sample = describe();
		if !input.concat().is_empty() {
			obs.signature = Some(hash_bytes(&input.concat()));
		}
		sim.clear();
	});
	obs
}

pub fn run_hostile(rep: &Report) {
	let t = rep.settings.thorough();
	rep.rule("hostile: random valid messages with corrupted, inserted, removed, cut or appended bytes, hostile length and type fields, delivered in arbitrary pieces; the independent decoder says what must be delivered; a second connection must stay undisturbed; non-trivial = at least one byte");
	let f = if t { 60 } else { 1 };
	let s = if t { 120.0 } else { 15.0 };
	rep.run_cases("hostile-unix-stream", 4000 * f, s, 8, |s| case_peer::<UnixS>(Mode::Hostile, s));
	rep.run_cases("hostile-seqpacket", 3000 * f, s, 8, |s| case_peer::<Seq>(Mode::Hostile, s));
	rep.run_cases("hostile-tcp", 400 * f, s, 8, |s| case_peer::<Tcp>(Mode::Hostile, s));
	rep.run_cases("hostile-transport-unix-stream", 4000 * f, s, 8, |s| case_transport::<UnixS>(Mode::Hostile, s));
	rep.run_cases("hostile-transport-seqpacket", 3000 * f, s, 8, |s| case_transport::<Seq>(Mode::Hostile, s));
	rep.require("undecodable", 1000);
	rep.require("cut_in_message", 500);
	rep.require("messages_before", 5000);
}

pub fn run_oversize(rep: &Report) {
	let t = rep.settings.thorough();
	rep.rule("oversize: messages over and at the limit with announced sizes up to 4 GiB; largest single allocation of the thread is monitored");
	let f = if t { 60 } else { 1 };
	let s = if t { 100.0 } else { 15.0 };
	rep.run_cases("oversize-unix-stream", 3000 * f, s, 8, |s| case_peer::<UnixS>(Mode::Oversize, s));
	rep.run_cases("oversize-seqpacket", 2000 * f, s, 8, |s| case_peer::<Seq>(Mode::Oversize, s));
	rep.run_cases("oversize-tcp", 300 * f, s, 8, |s| case_peer::<Tcp>(Mode::Oversize, s));
	rep.run_cases("oversize-transport-unix-stream", 2000 * f, s, 8, |s| case_transport::<UnixS>(Mode::Oversize, s));
	rep.run_cases("oversize-transport-seqpacket", 2000 * f, s, 8, |s| case_transport::<Seq>(Mode::Oversize, s));
	rep.require("announced_over_limit", 1000);
	rep.require("announced_over_1MiB", 200);
	rep.require("oversize_datagrams", 1000);
}
