//! C04, C01: the far end of the scale. Limits of (nearly) 4 GiB, bodies that do not fit the length field of a frame,
//! datagrams larger than the socket can carry, and bodies of many MiB.

use crate::kit::*;
use crate::report::*;
use crate::rng::{hash_bytes, Rng};
use crate::util::*;
use crate::wire::*;
use fizyr_rpc::*;
use std::os::fd::AsRawFd;
use std::time::Duration;

const PATIENCE: Duration = Duration::from_secs(30);

/// The next frame, which must be this one.
async fn expect(raw: &Raw, ty: u32, svc: i32, body: &[u8]) -> Result<Frame, String> {
	match tokio::time::timeout(PATIENCE, raw.recv_event()).await {
		Err(_) => Err(format!("nothing on the wire; expected type {ty} service {svc}")),
		Ok(RawEvent::Frame(f, _)) if f.ty == ty && f.svc == svc && f.body == body => Ok(f),
		Ok(RawEvent::Frame(f, _)) => Err(format!("on the wire: type {} service {} with {} bytes; expected type {ty} service {svc}", f.ty, f.svc, f.body.len())),
		Ok(e) => Err(format!("on the wire: {e:?}; expected type {ty} service {svc}")),
	}
}

/// Every kind of message with a body that can not be sent: refused by that call, and nothing else happens.
async fn refused<K: Kit>(rng: &mut Rng, obs: &mut Obs, key: &'static str, limit: u32, snd: i32, sizes: &[usize]) -> Result<String, String>
where
	K::T: Send,
	K::B: Send + Sync,
{
	let cfg = Cfg { max_write: limit, max_read: 8192, ..Cfg::default() };
	let (a, b) = K::pair();
	set_bufs(a.as_raw_fd(), snd, 0);
	let raw = Raw::new(b, K::DATAGRAM, cfg.end());
	let mut h = Peer::spawn(K::transport(a, &cfg));
	let len = *rng.pick(sizes);
	let what = format!("{}: limit {limit}, body of {len} bytes", K::NAME);
	obs.sample = what.clone();
	let body = || K::body(vec![0u8; len]);
	let fail = |e: String| format!("{what}: {e}");
	// An open request in each direction.
	let mut s = h.send_request(1, K::body(vec![1])).await.map_err(|e| fail(e.to_string()))?;
	expect(&raw, 0, 1, &[1]).await.map_err(fail)?;
	raw.send_frame(&Frame { ty: 0, id: 77, svc: 2, body: vec![2] }).await.map_err(|e| fail(e.to_string()))?;
	let mut r = match tokio::time::timeout(PATIENCE, h.recv_message()).await {
		Ok(Ok(ReceivedMessage::Request(r, _))) => r,
		_ => return Err(fail("a request does not arrive".into())),
	};
	for _ in 0..rng.range(1, 5) {
		let kind = rng.below(5);
		let call = async {
			match kind {
				0 => h.send_stream(3, body()).await,
				1 => h.send_request(3, body()).await.map(drop),
				2 => s.send_update(3, body()).await,
				3 => r.send_update(3, body()).await,
				_ => r.send_response(3, body()).await,
			}
		};
		let name = ["stream", "request", "update of the requester", "update of the responder", "response"][kind];
		match tokio::time::timeout(PATIENCE, call).await {
			Err(_) => return Err(fail(format!("sending this {name} hangs"))),
			Ok(Ok(())) => return Err(fail(format!("sending this {name} succeeds"))),
			Ok(Err(e)) if e.is_connection_aborted() => {
				obs.violate(key, format!("{what}: sending this {name} ends the connection: {e}"));
				return Ok(what);
			}
			Ok(Err(_)) => obs.count("refused_at_the_limits_of_the_transport", 1),
		}
		// Everything is as before.
		if let Err(e) = h.send_stream(4, K::body(vec![4])).await {
			obs.violate(key, format!("{what}: after refusing this {name} nothing can be sent: {e}"));
			return Ok(what);
		}
		expect(&raw, 4, 4, &[4]).await.map_err(fail)?;
	}
	s.send_update(5, K::body(vec![5])).await.map_err(|e| fail(e.to_string()))?;
	expect(&raw, 2, 5, &[5]).await.map_err(fail)?;
	r.send_response(6, K::body(vec![6])).await.map_err(|e| fail(format!("the response: {e}")))?;
	expect(&raw, 1, 6, &[6]).await.map_err(fail)?;
	raw.send_frame(&Frame { ty: 1, id: s.request_id(), svc: 7, body: vec![7] }).await.map_err(|e| fail(e.to_string()))?;
	match tokio::time::timeout(PATIENCE, s.recv_response()).await {
		Ok(Ok(m)) if m.header.service_id == 7 => (),
		_ => return Err(fail("the response does not arrive".into())),
	}
	if tokio::time::timeout(Duration::ZERO, r.recv_update()).await.is_ok_and(|x| x.is_some()) {
		return Err(fail("an update from nowhere".into()));
	}
	Ok(what)
}

/// Bodies of many MiB between two peers.
async fn large<K: Kit>(rng: &mut Rng, obs: &mut Obs) -> Result<String, String>
where
	K::T: Send,
	K::B: Send + Sync,
{
	let len = *rng.pick(&[(1usize << 16) - 12, 1 << 16, (1 << 20) + 1, (1 << 24) - 13, (1 << 24) - 12, 1 << 24, (1 << 24) + 5, 40_000_001]);
	let cfg = Cfg { max_read: if rng.chance(1, 2) { u32::MAX } else { len as u32 }, max_write: if rng.chance(1, 2) { u32::MAX } else { len as u32 }, ..Cfg::default() };
	let (a, b) = K::pair();
	let what = format!("{}: bodies of {len} bytes", K::NAME);
	obs.sample = what.clone();
	if rng.chance(1, 4) {
		set_bufs(a.as_raw_fd(), 1 << 17, 0);
	}
	let tx = Peer::spawn(K::transport(a, &cfg));
	let mut rx = Peer::spawn(K::transport(b, &cfg));
	let start = rng.below(251);
	let data: Vec<u8> = (0..len).map(|i| ((i + start) % 251) as u8 ^ (i >> 12) as u8).collect();
	let all = async {
		for i in 0..2 {
			let send = tx.send_stream(i, K::body(data.clone()));
			let (r, m) = tokio::join!(send, rx.recv_message());
			r.map_err(|e| format!("{what}: {e}"))?;
			match m {
				Ok(ReceivedMessage::Stream(m)) if m.header.service_id == i => {
					let d = K::data(&m.body);
					if d != data {
						let at = d.iter().zip(&data).position(|(a, b)| a != b);
						return Err(format!("{what}: {} bytes received, first difference at {at:?}", d.len()));
					}
				}
				Ok(_) => return Err(format!("{what}: received something else")),
				Err(e) => return Err(format!("{what}: {e}")),
			}
			obs.count("large_bodies", 1);
			obs.count("large_body_mib", (len >> 20) as u64);
		}
		Ok(())
	};
	tokio::time::timeout(PATIENCE, all).await.map_err(|_| format!("{what}: not received"))??;
	Ok(what)
}

fn finish(mut obs: Obs, r: Result<String, String>, key: &str, seed: u64) -> Obs {
	match r {
		Ok(w) => obs.signature = Some(hash_bytes(format!("{w}{seed}").as_bytes())),
		Err(e) => obs.violate(key, e),
	}
	obs
}

pub fn run_refused(rep: &Report, quick: u64) {
	rep.rule("extremes: bodies that do not fit the length field, datagrams larger than the socket can carry; distinct = cases");
	let n = if rep.settings.thorough() { quick * 20 } else { quick };
	let m = u32::MAX as usize;
	rep.run_cases("extremes", n, if rep.settings.thorough() { 100.0 } else { 30.0 }, 8, |seed| {
		block_on(async move {
			let mut rng = Rng::new(seed);
			let mut obs = Obs::default();
			let limit = u32::MAX - rng.below(12) as u32;
			let sizes = [m - 11, m - 10, m - 6, m - 1, m, m + 1, m + 13];
			let r = match seed % 3 {
				0 => refused::<UnixS>(&mut rng, &mut obs, "refusal-ends-connection", limit, 0, &sizes).await,
				1 => refused::<Tcp>(&mut rng, &mut obs, "refusal-ends-connection", limit, 0, &sizes).await,
				_ => refused::<Seq>(&mut rng, &mut obs, "datagram-larger-than-socket", 1 << 26, 1 << 15, &[1 << 17, 300_000, 1 << 20, 1 << 25]).await,
			};
			finish(obs, r, "extreme", seed)
		})
	});
	rep.require("refused_at_the_limits_of_the_transport", 20);
}

pub fn run_large(rep: &Report, quick: u64) {
	rep.rule("extremes: bodies of up to 40 MB between two peers");
	let n = if rep.settings.thorough() { quick * 20 } else { quick };
	rep.run_cases("extremes-large", n, if rep.settings.thorough() { 100.0 } else { 30.0 }, 4, |seed| {
		block_on(async move {
			let mut rng = Rng::new(seed);
			let mut obs = Obs::default();
			let r = if seed % 2 == 0 { large::<UnixS>(&mut rng, &mut obs).await } else { large::<Tcp>(&mut rng, &mut obs).await };
			finish(obs, r, "large-body", seed)
		})
	});
	rep.require("large_bodies", 10);
}
