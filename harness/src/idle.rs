//! C28: who waits, sleeps. A real runtime with one thread is brought into some situation in which nobody can make progress;
//! from then on the thread must sleep: the runtime tells how often it woke up, the kernel how much time it used.

use crate::frugal::once;
use crate::kit::*;
use crate::listen::{LKit, Scratch};
use crate::report::*;
use crate::rng::{hash_bytes, Rng};
use crate::wire::*;
use fizyr_rpc::*;
use std::time::Duration;

fn cpu() -> Duration {
	unsafe {
		let mut t: libc::timespec = std::mem::zeroed();
		libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t);
		Duration::new(t.tv_sec as u64, t.tv_nsec as u32)
	}
}

const WINDOW: Duration = Duration::from_millis(100);
const WAKEUPS: u64 = 7;
const CPU: Duration = Duration::from_millis(30);

/// Everyone has done what there was to do; now nobody may do anything.
async fn sleeps(obs: &mut Obs, label: &str) {
	let m = tokio::runtime::Handle::current().metrics();
	let mut worst = (0, Duration::ZERO);
	for _ in 0..3 {
		tokio::time::sleep(Duration::from_millis(5)).await;
		let before = (m.worker_park_count(0), cpu());
		tokio::time::sleep(WINDOW).await;
		worst = (m.worker_park_count(0) - before.0, cpu() - before.1);
		if worst.0 <= WAKEUPS && worst.1 <= CPU {
			obs.count("windows_quiet", 1);
			obs.counts.entry("max_wakeups".into()).and_modify(|v| *v = (*v).max(worst.0)).or_insert(worst.0);
			return;
		}
		obs.count("windows_repeated", 1);
	}
	// Three times in a row, so it is no event that came late.
	obs.violate("awake", format!("{label}: nobody can make progress, but within {WINDOW:?} the thread woke up {} times and used {:?}", worst.0, worst.1));
}

struct Ctx<K: Kit> {
	read: Option<PeerReadHandle<K::B>>,
	write: Option<PeerWriteHandle<K::B>>,
	raw: Option<Raw>,
	sent: Vec<SentRequestHandle<K::B>>,
	rcvd: Vec<ReceivedRequestHandle<K::B>>,
	tasks: Vec<tokio::task::JoinHandle<()>>,
	blocked: bool,
	id: u32,
	rng: Rng,
}

const SITUATIONS: &[&str] = &[
	"just connected",
	"traffic before",
	"open requests",
	"open requests with receivers waiting",
	"received requests",
	"received requests with receivers waiting",
	"unread messages",
	"errors",
	"receiver waiting",
	"cancelled operations",
	"refused bodies",
	"oversized datagram",
	"part of a message",
	"writes blocked",
	"read handle dropped",
	"write handles dropped",
	"the remote ends its direction",
	"the remote is gone",
	"closed",
];

impl<K: Kit> Ctx<K>
where
	K::B: Send + Sync,
{
	fn body(&mut self) -> K::B {
		let n = *self.rng.pick(&[0usize, 1, 50, 150]);
		K::body(vec![5; n])
	}
	async fn say(&mut self, ty: u32, id: u32) -> bool {
		let n = *self.rng.pick(&[0usize, 1, 50, 150]);
		let f = Frame::new(ty, id, 2, vec![5; n]);
		match &self.raw {
			Some(r) => r.send_frame(&f).await.is_ok(),
			None => false,
		}
	}
	fn detach(&mut self, f: impl std::future::Future<Output = ()> + Send + 'static) {
		self.tasks.push(tokio::spawn(f));
	}
	/// Let the remote read what there is, unless it is meant to be stuck.
	async fn drain(&mut self) {
		if !self.blocked {
			tokio::time::sleep(Duration::from_millis(1)).await;
			if let Some(r) = &self.raw {
				r.drain();
			}
		}
	}

	/// False if it makes no sense any more.
	async fn bring(&mut self, what: &str) -> bool {
		let n = self.rng.range(1, 6);
		match what {
			"just connected" => {}
			"traffic before" => {
				let (Some(w), false) = (self.write.clone(), self.blocked) else { return false };
				for _ in 0..n * 5 {
					let b = self.body();
					let _ = w.send_stream(1, b).await;
					self.say(4, 0).await;
					if let Some(r) = &mut self.read {
						let _ = r.recv_message().await;
					}
				}
				self.drain().await;
			}
			"open requests" | "open requests with receivers waiting" => {
				let (Some(w), false) = (self.write.clone(), self.blocked) else { return false };
				for i in 0..n {
					let b = self.body();
					let Ok(mut r) = w.send_request(1, b).await else { return false };
					if what.len() > 20 {
						let update = i % 2 == 0;
						self.detach(async move {
							if update {
								let _ = r.recv_update().await;
							}
							let _ = r.recv_response().await;
						});
					} else {
						self.sent.push(r);
					}
				}
				self.drain().await;
			}
			"received requests" | "received requests with receivers waiting" => {
				if self.read.is_none() {
					return false;
				}
				for _ in 0..n {
					self.id += 1;
					if !self.say(0, self.id).await {
						return false;
					}
					if self.blocked {
						continue;
					}
					match self.read.as_mut().unwrap().recv_message().await {
						Ok(ReceivedMessage::Request(mut r, _)) if what.len() > 20 => {
							self.detach(async move {
								let _ = r.recv_update().await;
								std::future::pending::<()>().await;
							});
						}
						Ok(ReceivedMessage::Request(r, _)) => self.rcvd.push(r),
						_ => {}
					}
				}
			}
			"unread messages" => {
				for _ in 0..n * 3 {
					let ty = *self.rng.pick(&[4, 4, 0, 1, 3]);
					self.id += 1;
					let id = self.id;
					if !self.say(ty, id).await {
						return false;
					}
				}
			}
			"errors" => {
				for _ in 0..n {
					let ty = *self.rng.pick(&[1, 2, 3]);
					if !self.say(ty, 0x7000_0000).await {
						return false;
					}
					if let (Some(r), false) = (&mut self.read, self.blocked) {
						let _ = r.recv_message().await;
					}
				}
			}
			"receiver waiting" => {
				let Some(mut r) = self.read.take() else { return false };
				self.detach(async move {
					while r.recv_message().await.map_or_else(|e| !e.is_connection_aborted(), |_| true) {}
					std::future::pending::<()>().await;
				});
			}
			"cancelled operations" => {
				let Some(w) = self.write.clone() else { return false };
				for _ in 0..n {
					let (a, b) = (self.body(), self.body());
					once(w.send_stream(1, a)).await;
					once(w.send_request(1, b)).await;
					if let Some(r) = &mut self.read {
						once(r.recv_message()).await;
					}
					for r in &mut self.sent {
						once(r.recv_update()).await;
						once(r.recv_response()).await;
					}
				}
				self.drain().await;
			}
			"refused bodies" => {
				let (Some(w), false) = (self.write.clone(), self.blocked) else { return false };
				for _ in 0..n {
					let _ = w.send_stream(1, K::body(vec![5; 70_000])).await;
					let _ = w.send_request(1, K::body(vec![5; 70_000])).await;
				}
			}
			"oversized datagram" => {
				let (Some(r), true) = (&self.raw, K::DATAGRAM) else { return false };
				for _ in 0..n {
					let f = Frame::new(4, 0, 3, vec![1; 70_000]);
					if r.send_frame(&f).await.is_err() {
						return false;
					}
				}
			}
			"part of a message" => {
				let (Some(r), false) = (&self.raw, K::DATAGRAM) else { return false };
				let b = Frame::new(4, 0, 3, vec![1; 500]).encode(r.end, false);
				let n = *self.rng.pick(&[1, 2, 3, 4, 5, 8, 11, 12, 13, 15, 16, 17, 100, 515]);
				let _ = r.send_all(&b[..n]).await;
			}
			"writes blocked" => {
				let Some(w) = self.write.clone() else { return false };
				self.blocked = true;
				let b = self.raw.is_some();
				for i in 0..if b { 250 } else { 10 } {
					let w = w.clone();
					self.detach(async move {
						if i % 7 == 3 {
							let _ = w.send_request(1, K::body(vec![5; 30_000])).await;
						} else {
							let _ = w.send_stream(1, K::body(vec![5; 30_000])).await;
						}
					});
				}
				tokio::time::sleep(Duration::from_millis(20)).await;
				if self.rng.chance(1, 2) {
					for t in self.tasks.drain(..) {
						t.abort();
					}
				}
			}
			"read handle dropped" => {
				if self.read.take().is_none() {
					return false;
				}
			}
			"write handles dropped" => {
				if self.write.take().is_none() {
					return false;
				}
			}
			"the remote ends its direction" => match &self.raw {
				Some(r) => r.shutdown_write(),
				None => return false,
			},
			"the remote is gone" => {
				if self.raw.take().is_none() {
					return false;
				}
			}
			"closed" => match (&self.write, &self.read) {
				(Some(w), _) => w.close(),
				(_, Some(r)) => r.close_handle().close(),
				_ => return false,
			},
			k => unreachable!("{k}"),
		}
		true
	}
}

async fn connection<K: Kit>(seed: u64) -> Obs
where
	K::T: Send,
	K::B: Send + Sync,
{
	let mut rng = Rng::new(seed);
	let mut obs = Obs::default();
	let cfg = Cfg { max_read: 60_000, max_write: 60_000, ..Cfg::default() };
	let (a, b) = K::pair();
	let raw = Raw::new(b, K::DATAGRAM, cfg.end());
	let (read, write) = Peer::spawn(K::transport(a, &cfg)).split();
	let mut c = Ctx::<K> { read: Some(read), write: Some(write), raw: Some(raw), sent: vec![], rcvd: vec![], tasks: vec![], blocked: false, id: 0, rng: rng.fork() };
	let mut label = K::NAME.to_string();
	let mut done = 0;
	for _ in 0..12 {
		let what = *rng.pick(SITUATIONS);
		match tokio::time::timeout(Duration::from_secs(20), c.bring(what)).await {
			Ok(true) => {}
			Ok(false) => continue,
			Err(_) => {
				obs.foreign.push(Violation::new("operation", format!("{label}: {what}: does not complete")));
				return obs;
			}
		}
		label += ", ";
		label += what;
		obs.count(&format!("asleep: {what}"), 1);
		sleeps(&mut obs, &label).await;
		done += 1;
		if done == 4 || !obs.violations.is_empty() {
			break;
		}
	}
	obs.sample = label.clone();
	obs.signature = Some(hash_bytes(label.as_bytes()));
	for t in &c.tasks {
		t.abort();
	}
	obs
}

async fn listener<K: LKit>(seed: u64) -> Obs
where
	K::T: Send,
	K::B: Send + Sync,
{
	let mut rng = Rng::new(seed);
	let mut obs = Obs::default();
	let dir = Scratch::new();
	let cfg = Cfg::default();
	let mut label = format!("{} listener", K::NAME);
	let (mut l, addr) = match K::listen(&cfg, &dir.0).await {
		Ok(x) => x,
		Err(e) => {
			obs.inconclusive = Some(format!("no listener: {e}"));
			return obs;
		}
	};
	let accept = rng.chance(1, 3);
	if accept {
		label += " that accepts";
	}
	let accepting = tokio::spawn(async move {
		if accept {
			let mut all = vec![];
			while let Ok((h, _)) = l.accept().await {
				all.push(h);
			}
			return;
		}
		let _ = l
			.run(|mut peer, _| async move {
				while let Ok(m) = peer.recv_message().await {
					if let ReceivedMessage::Request(r, b) = m {
						let _ = r.send_response(1, b).await;
					}
				}
			})
			.await;
	});
	let mut raws = vec![];
	let mut peers = vec![];
	for _ in 0..3 {
		let what = *rng.pick(&["nobody", "silent clients", "clients", "clients that left", "clients that talked", "clients with half a message"]);
		label += ", ";
		label += what;
		let n = rng.range(1, 6);
		for _ in 0..n {
			match what {
				"silent clients" | "clients with half a message" => match K::raw(&addr) {
					Ok(fd) => {
						use std::os::fd::AsRawFd;
						if what != "silent clients" && !K::DATAGRAM {
							let _ = sendmsg_raw(fd.as_raw_fd(), &[30, 0, 0, 0, 1, 0], &[]);
						}
						raws.push(fd);
					}
					Err(e) => {
						obs.inconclusive = Some(format!("no connection: {e}"));
						return obs;
					}
				},
				"nobody" => {}
				_ => match K::connect(&addr, &cfg).await {
					Ok((h, _)) => {
						if what == "clients that talked" && !accept {
							for _ in 0..3 {
								if let Ok(mut r) = h.send_request(1, K::body(vec![1; 20])).await {
									let _ = r.recv_response().await;
								}
							}
						}
						if what != "clients that left" {
							peers.push(h);
						}
					}
					Err(e) => {
						obs.inconclusive = Some(format!("no connection: {e}"));
						return obs;
					}
				},
			}
		}
		obs.count(&format!("listener asleep: {what}"), 1);
		sleeps(&mut obs, &label).await;
		if !obs.violations.is_empty() {
			break;
		}
	}
	obs.sample = label.clone();
	obs.signature = Some(hash_bytes(label.as_bytes()));
	accepting.abort();
	let _ = accepting.await;
	obs
}

fn alone<F: std::future::Future<Output = Obs>>(f: F) -> Obs {
	let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
	let mut obs = rt.block_on(f);
	rt.shutdown_background();
	obs.count("runtimes", 1);
	obs
}

pub fn run_idle(rep: &Report) {
	rep.rule("asleep: one to four of 19 situations brought about one after the other on a connection (or 3 of 6 at a listener), each followed by a window of 100 ms; distinct = sequences of situations");
	let t = rep.settings.thorough();
	rep.run_cases("idle", if t { 8000 } else { 1200 }, if t { 500.0 } else { 90.0 }, 48, |seed| match seed % 3 {
		0 => alone(connection::<UnixS>(seed)),
		1 => alone(connection::<Tcp>(seed)),
		_ => alone(connection::<Seq>(seed)),
	});
	rep.run_cases("idle-listener", if t { 1500 } else { 150 }, if t { 120.0 } else { 30.0 }, 48, |seed| match seed % 3 {
		0 => alone(listener::<UnixS>(seed)),
		1 => alone(listener::<Tcp>(seed)),
		_ => alone(listener::<Seq>(seed)),
	});
	rep.require("windows_quiet", 500);
	for k in SITUATIONS {
		rep.require(&format!("asleep: {k}"), 3);
	}
}
