//! C07, C10: very many requests open at the same time, in both directions, updated and answered in random order.

use crate::kit::*;
use crate::report::*;
use crate::rng::{hash_bytes, Rng};
use crate::util::*;
use fizyr_rpc::*;
use std::collections::{HashMap, HashSet};
use std::time::Duration;

const PATIENCE: Duration = Duration::from_secs(60);

struct Side<K: Kit> {
	read: PeerReadHandle<K::B>,
	write: PeerWriteHandle<K::B>,
}

fn shuffle<T>(rng: &mut Rng, v: &mut [T]) {
	for i in (1..v.len()).rev() {
		v.swap(i, rng.below(i + 1));
	}
}

/// Open `n` requests from `a` to `b`: the handles of both sides by uid.
async fn open<K: Kit>(a: &Side<K>, b: &mut Side<K>, n: usize, base: u64) -> Result<(Vec<(u64, SentRequestHandle<K::B>)>, HashMap<u64, ReceivedRequestHandle<K::B>>), String> {
	let send = async {
		let mut out = Vec::with_capacity(n);
		for i in 0..n as u64 {
			let h = a.write.send_request((i % 1000) as i32, K::body((base + i).to_le_bytes().to_vec())).await.map_err(|e| format!("send_request {i} of {n} fails: {e}"))?;
			out.push((base + i, h));
		}
		Ok::<_, String>(out)
	};
	let recv = async {
		let mut out = HashMap::new();
		for i in 0..n as u64 {
			match b.read.recv_message().await {
				Ok(ReceivedMessage::Request(h, body)) => {
					let uid = uid_of(K::data(&body)).unwrap_or(u64::MAX);
					if uid != base + i || h.service_id() != (i % 1000) as i32 {
						return Err(format!("request {i} of {n}: received request {uid} of service {}", h.service_id()));
					}
					out.insert(uid, h);
				}
				r => return Err(format!("request {i} of {n}: received {}", r.map(|_| "a stream message".to_string()).unwrap_or_else(|e| e.to_string()))),
			}
		}
		Ok(out)
	};
	let (s, r) = tokio::join!(send, recv);
	Ok((s?, r?))
}

async fn case<K: Kit>(seed: u64, max: usize) -> Obs
where
	K::T: Send,
	K::B: Send + Sync,
{
	let mut rng = Rng::new(seed);
	let mut obs = Obs::default();
	let cfg = Cfg::default();
	let (x, y) = K::pair();
	let (p, h) = Peer::new(K::transport(x, &cfg));
	let t1 = tokio::spawn(p.run());
	let (read, write) = h.split();
	let mut a = Side::<K> { read, write };
	let (p, h) = Peer::new(K::transport(y, &cfg));
	let t2 = tokio::spawn(p.run());
	let (read, write) = h.split();
	let mut b = Side::<K> { read, write };
	let n = if rng.chance(1, 2) { rng.range(max * 9 / 10, max) } else { rng.range(1, max / 10) };
	let m = rng.range(1, 1 + max / 20);
	let around = rng.chance(1, 2);
	if around {
		fizyr_rpc::verify::set_next_request_id(0u32.wrapping_sub(rng.below(n) as u32));
	}
	let what = format!("{}: {n} requests one way, {m} the other, around zero: {around}", K::NAME);
	obs.sample = what.clone();
	obs.signature = Some(hash_bytes(format!("{what}{seed}").as_bytes()));
	let r = tokio::time::timeout(PATIENCE, async {
		let (mut sent, mut rcvd) = open(&a, &mut b, n, 0).await?;
		let (mut sent2, mut rcvd2) = open(&b, &mut a, m, 1 << 40).await?;
		for s in [&sent, &sent2] {
			let ids: HashSet<u32> = s.iter().map(|(_, h)| h.request_id()).collect();
			if ids.len() != s.len() {
				return Err(format!("{} open requests have {} different IDs", s.len(), ids.len()));
			}
		}
		let mut shared = 0;
		let ids: HashSet<u32> = sent.iter().map(|(_, h)| h.request_id()).collect();
		for (_, h) in &sent2 {
			shared += ids.contains(&h.request_id()) as u64;
		}
		obs.count("ids_used_in_both_directions", shared);
		for (sent, rcvd, count) in [(&mut sent2, &mut rcvd2, m), (&mut sent, &mut rcvd, n)] {
			// Some updates both ways.
			shuffle(&mut rng, sent);
			let k = rng.below(count.min(3000) + 1);
			for (uid, h) in sent.iter().take(k) {
				h.send_update(7, K::body(uid.to_le_bytes().to_vec())).await.map_err(|e| format!("send_update fails: {e}"))?;
			}
			for (uid, _) in sent.iter().take(k) {
				let u = rcvd.get_mut(uid).unwrap().recv_update().await.ok_or("no update")?;
				if uid_of(K::data(&u.body)) != Some(*uid) {
					return Err(format!("request {uid} got an update of request {:?}", uid_of(K::data(&u.body))));
				}
			}
			let k2 = rng.below(count.min(3000) + 1);
			for (uid, _) in sent.iter().take(k2) {
				rcvd[uid].send_update(8, K::body(uid.to_le_bytes().to_vec())).await.map_err(|e| format!("send_update fails: {e}"))?;
			}
			for (uid, h) in sent.iter_mut().take(k2) {
				let u = h.recv_update().await.ok_or("no update")?;
				if uid_of(K::data(&u.body)) != Some(*uid) {
					return Err(format!("request {uid} got an update of request {:?}", uid_of(K::data(&u.body))));
				}
			}
			obs.count("crowd_updates", (k + k2) as u64);
			// Answer them all, in another order than that of waiting.
			shuffle(&mut rng, sent);
			for (uid, _) in sent.iter() {
				rcvd[uid].send_response(9, K::body(uid.to_le_bytes().to_vec())).await.map_err(|e| format!("send_response fails: {e}"))?;
			}
			rcvd.clear();
			shuffle(&mut rng, sent);
			for (uid, h) in sent.iter_mut() {
				let r = h.recv_response().await.map_err(|e| format!("request {uid} got no response: {e}"))?;
				if uid_of(K::data(&r.body)) != Some(*uid) || r.header.service_id != 9 {
					return Err(format!("request {uid} got the response of request {:?}", uid_of(K::data(&r.body))));
				}
			}
			obs.count("crowd_requests", count as u64);
			obs.count("max_open_requests", count as u64);
			sent.clear();
		}
		// The connection still works, and nothing is left over.
		a.write.send_stream(1, K::body(vec![1])).await.map_err(|e| e.to_string())?;
		match b.read.recv_message().await {
			Ok(ReceivedMessage::Stream(_)) => {}
			r => return Err(format!("after all: {}", r.map(|_| "a request".to_string()).unwrap_or_else(|e| e.to_string()))),
		}
		Ok::<_, String>(())
	})
	.await;
	match r {
		Ok(Ok(())) => {}
		Ok(Err(e)) => obs.violate("crowd", format!("{what}: {e}")),
		Err(_) => obs.violate("crowd-hang", format!("{what}: no end after {PATIENCE:?}")),
	}
	drop(a);
	drop(b);
	let _ = tokio::time::timeout(PATIENCE, t1).await;
	let _ = tokio::time::timeout(PATIENCE, t2).await;
	obs
}

pub fn run(rep: &Report, quick: u64) {
	rep.rule("crowd: up to 70 000 requests open at once, updated and answered in random order; distinct = cases");
	let t = rep.settings.thorough();
	let n = if t { quick * 20 } else { quick };
	rep.run_cases("crowd", n, if t { 200.0 } else { 90.0 }, 8, |seed| {
		block_on(async move {
			match seed % 3 {
				0 => case::<UnixS>(seed, 70_000).await,
				1 => case::<Tcp>(seed, 70_000).await,
				_ => case::<Seq>(seed, 70_000).await,
			}
		})
	});
	rep.require("max_open_requests", 60_000);
}
