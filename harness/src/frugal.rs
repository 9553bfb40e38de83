//! C27: what is finished leaves nothing behind. One connection (or one listener) does the same things again and again, and the
//! memory in use at the quiet moments in between must not grow.

use crate::kit::*;
use crate::listen::{LKit, Scratch};
use crate::report::*;
use crate::rng::{hash_bytes, Rng};
use crate::util::*;
use crate::wire::*;
use fizyr_rpc::*;
use std::future::Future;
use std::time::Duration;

const PATIENCE: Duration = Duration::from_secs(60);

struct Ctx<K: Kit> {
	h: Option<PeerHandle<K::B>>,
	/// When the read handle is dropped.
	w: Option<PeerWriteHandle<K::B>>,
	raw: Raw,
	rng: Rng,
	id: u32,
	max: usize,
}

const KINDS: &[&str] = &[
	"request answered",
	"request with updates answered",
	"request dropped, then answered",
	"request dropped, then updated and answered",
	"response never read",
	"updates never read",
	"write handle of a request outlives it",
	"received request answered",
	"received request with updates answered",
	"received request answered with an error",
	"received request answered by a write handle after the handle was dropped",
	"received request updated after its handle was dropped",
	"message after the response",
	"stream out",
	"stream in",
	"unmatched response",
	"unmatched updates",
	"duplicate request",
	"refused stream",
	"refused request",
	"refused response",
	"cancelled request",
	"cancelled stream",
	"cancelled receive",
	"cancelled receive of an update",
	"close handles cloned",
	"oversized datagram",
	"burst of streams",
	"burst of received streams",
	"several requests open at once",
	"peek at the wrong kind",
];

/// Those that work without a read handle.
const UNREAD: &[&str] = &[
	"request answered",
	"request with updates answered",
	"request dropped, then answered",
	"response never read",
	"write handle of a request outlives it",
	"stream out",
	"refused stream",
	"refused request",
	"cancelled request",
	"write handles cloned",
	"unread request",
	"unread stream",
	"unread error",
	"unread oversized datagram",
];

type R<T> = Result<T, String>;

fn s<T, E: std::fmt::Display>(what: &'static str) -> impl Fn(Result<T, E>) -> R<T> {
	move |r| r.map_err(|e| format!("{what}: {e}"))
}

/// Poll once, then drop.
pub async fn once<T>(f: impl Future<Output = T>) -> Option<T> {
	let mut f = Box::pin(f);
	std::future::poll_fn(|cx| {
		std::task::Poll::Ready(match f.as_mut().poll(cx) {
			std::task::Poll::Ready(x) => Some(x),
			std::task::Poll::Pending => None,
		})
	})
	.await
}

impl<K: Kit> Ctx<K>
where
	K::B: Send + Sync,
{
	fn body(&mut self) -> K::B {
		let n = *self.rng.pick(&[0usize, 1, 20, 60, 60, 180]);
		let data = vec![7; n];
		if K::DATAGRAM && self.rng.chance(1, 4) {
			return K::body_fds(data, vec![memfd("verif").0]);
		}
		K::body(data)
	}
	fn big(&mut self) -> K::B {
		K::body(vec![7; self.max + 1 + self.rng.below(200)])
	}
	async fn frame(&self, ty: u32) -> R<Frame> {
		match self.raw.recv_event().await {
			RawEvent::Frame(f, _) if f.ty == ty => Ok(f),
			RawEvent::Frame(f, _) => Err(format!("type {} on the wire instead of {ty}", f.ty)),
			e => Err(format!("{e:?} on the wire")),
		}
	}
	async fn say(&mut self, ty: u32, id: u32) -> R<()> {
		let n = *self.rng.pick(&[0usize, 1, 20, 60, 60, 180]);
		let f = Frame::new(ty, id, 3, vec![1; n]);
		s("sending")(self.raw.send_frame(&f).await)
	}
	async fn ask(&mut self) -> R<SentRequestHandle<K::B>> {
		let b = self.body();
		let r = match (&self.h, &self.w) {
			(Some(h), _) => h.send_request(1, b).await,
			(_, Some(w)) => w.send_request(1, b).await,
			_ => unreachable!(),
		};
		let r = s("send_request")(r)?;
		self.frame(0).await?;
		Ok(r)
	}
	async fn stream(&mut self, b: K::B) -> Result<(), Error> {
		match (&self.h, &self.w) {
			(Some(h), _) => h.send_stream(1, b).await,
			(_, Some(w)) => w.send_stream(1, b).await,
			_ => unreachable!(),
		}
	}
	/// A request from the remote, received.
	async fn take(&mut self) -> R<ReceivedRequestHandle<K::B>> {
		self.id = self.id.wrapping_add(1);
		let id = self.id;
		self.say(0, id).await?;
		match self.h.as_mut().unwrap().recv_message().await {
			Ok(ReceivedMessage::Request(r, _)) => Ok(r),
			Ok(_) => Err("a stream instead of a request".into()),
			Err(e) => Err(format!("recv_message: {e}")),
		}
	}
	async fn error(&mut self) -> R<()> {
		match self.h.as_mut().unwrap().recv_message().await {
			Err(e) if !e.is_connection_aborted() => Ok(()),
			Err(e) => Err(format!("recv_message: {e}")),
			Ok(_) => Err("a message instead of an error".into()),
		}
	}
	async fn incoming_stream(&mut self) -> R<()> {
		match self.h.as_mut().unwrap().recv_message().await {
			Ok(ReceivedMessage::Stream(_)) => Ok(()),
			Ok(_) => Err("a request instead of a stream".into()),
			Err(e) => Err(format!("recv_message: {e}")),
		}
	}

	/// When this is done, the peer has handled everything before it.
	async fn fence(&mut self) -> R<()> {
		s("send_stream")(self.stream(K::body(vec![])).await)?;
		self.frame(4).await?;
		if self.h.is_some() {
			self.say(4, 0).await?;
			self.incoming_stream().await?;
		} else {
			let mut r = self.ask().await?;
			self.say(1, r.request_id()).await?;
			s("recv_response")(r.recv_response().await)?;
		}
		for _ in 0..5 {
			tokio::task::yield_now().await;
		}
		Ok(())
	}

	async fn op(&mut self, kind: &str) -> R<()> {
		match kind {
			"request answered" => {
				let mut r = self.ask().await?;
				self.say(1, r.request_id()).await?;
				s("recv_response")(r.recv_response().await)?;
			}
			"request with updates answered" => {
				let mut r = self.ask().await?;
				let n = self.rng.below(4);
				for _ in 0..n {
					self.say(3, r.request_id()).await?;
				}
				let b = self.body();
				s("send_update")(r.send_update(1, b).await)?;
				self.frame(2).await?;
				for _ in 0..n {
					r.recv_update().await.ok_or("no update")?;
				}
				self.say(1, r.request_id()).await?;
				s("recv_response")(r.recv_response().await)?;
			}
			"request dropped, then answered" => {
				let r = self.ask().await?;
				let id = r.request_id();
				drop(r);
				self.say(1, id).await?;
			}
			"request dropped, then updated and answered" => {
				let r = self.ask().await?;
				let id = r.request_id();
				drop(r);
				self.say(3, id).await?;
				self.error().await?;
				self.say(1, id).await?;
			}
			"response never read" => {
				let r = self.ask().await?;
				self.say(1, r.request_id()).await?;
				self.fence().await?;
			}
			"updates never read" => {
				let r = self.ask().await?;
				let n = self.rng.range(1, 20);
				for _ in 0..n {
					self.say(3, r.request_id()).await?;
				}
				self.say(1, r.request_id()).await?;
				self.fence().await?;
			}
			"write handle of a request outlives it" => {
				let mut r = self.ask().await?;
				let w = r.write_handle();
				let w2 = w.clone();
				self.say(1, r.request_id()).await?;
				s("recv_response")(r.recv_response().await)?;
				drop(r);
				if w.send_update(1, K::body(vec![1; 30])).await.is_ok() || w2.send_update(1, K::body(vec![1; 30])).await.is_ok() {
					return Err("an update of a finished request was sent".into());
				}
			}
			"received request answered" => {
				let r = self.take().await?;
				let b = self.body();
				s("send_response")(r.send_response(1, b).await)?;
				self.frame(1).await?;
			}
			"received request with updates answered" => {
				let mut r = self.take().await?;
				let n = self.rng.range(1, 4);
				for _ in 0..n {
					self.say(2, self.id).await?;
				}
				let b = self.body();
				s("send_update")(r.send_update(1, b).await)?;
				self.frame(3).await?;
				for _ in 0..self.rng.below(n) {
					r.recv_update().await.ok_or("no update")?;
				}
				self.fence().await?;
				let w = r.write_handle();
				let b = self.body();
				s("send_response")(r.send_response(1, b).await)?;
				self.frame(1).await?;
				drop(w);
			}
			"received request answered with an error" => {
				let r = self.take().await?;
				s("send_error_response")(r.send_error_response("no thank you").await)?;
				self.frame(1).await?;
			}
			"received request answered by a write handle after the handle was dropped" => {
				let r = self.take().await?;
				let w = r.write_handle();
				drop(r);
				let b = self.body();
				s("send_response")(w.send_response(1, b).await)?;
				self.frame(1).await?;
			}
			"received request updated after its handle was dropped" => {
				let r = self.take().await?;
				let w = r.write_handle();
				drop(r);
				self.say(2, self.id).await?;
				self.error().await?;
				let b = self.body();
				s("send_response")(w.send_response(1, b).await)?;
				self.frame(1).await?;
			}
			"message after the response" => {
				let r = self.take().await?;
				let w = r.write_handle();
				let b = self.body();
				s("send_response")(r.send_response(1, b).await)?;
				self.frame(1).await?;
				let b = self.body();
				if w.send_response(1, b).await.is_ok() {
					return Err("a second response was sent".into());
				}
				self.say(2, self.id).await?;
				self.error().await?;
			}
			"stream out" => {
				let b = self.body();
				s("send_stream")(self.stream(b).await)?;
				self.frame(4).await?;
			}
			"stream in" => {
				self.say(4, 0).await?;
				self.incoming_stream().await?;
			}
			"unmatched response" => {
				let id = 0x7000_0000 + self.rng.below(1 << 20) as u32;
				self.say(1, id).await?;
				self.error().await?;
			}
			"unmatched updates" => {
				let id = 0x7000_0000 + self.rng.below(1 << 20) as u32;
				let ty = *self.rng.pick(&[2, 3]);
				self.say(ty, id).await?;
				self.error().await?;
			}
			"duplicate request" => {
				let r = self.take().await?;
				self.say(0, self.id).await?;
				self.error().await?;
				let b = self.body();
				s("send_response")(r.send_response(1, b).await)?;
				self.frame(1).await?;
			}
			"refused stream" => {
				let b = self.big();
				if self.stream(b).await.is_ok() {
					return Err("too large, but sent".into());
				}
			}
			"refused request" => {
				let b = self.big();
				let r = match (&self.h, &self.w) {
					(Some(h), _) => h.send_request(1, b).await,
					(_, Some(w)) => w.send_request(1, b).await,
					_ => unreachable!(),
				};
				if r.is_ok() {
					return Err("too large, but sent".into());
				}
			}
			"refused response" => {
				let r = self.take().await?;
				let b = self.big();
				let w = r.write_handle();
				if w.send_response(1, b).await.is_ok() {
					return Err("too large, but sent".into());
				}
				s("send_response")(r.send_response(1, K::body(vec![])).await)?;
				self.frame(1).await?;
			}
			"cancelled request" => {
				let b = self.body();
				let r = match (&self.h, &self.w) {
					(Some(h), _) => once(h.send_request(1, b)).await,
					(_, Some(w)) => once(w.send_request(1, b)).await,
					_ => unreachable!(),
				};
				if r.is_some() {
					return Err("send_request is done at once".into());
				}
				// It may be on the wire. Whether an answer matches is not defined.
				s("send_stream")(self.stream(K::body(vec![9])).await)?;
				let f = match self.raw.recv_event().await {
					RawEvent::Frame(f, _) => f,
					e => return Err(format!("{e:?} on the wire")),
				};
				if f.ty == 0 {
					self.frame(4).await?;
					self.say(1, f.id).await?;
					if self.h.is_some() {
						self.say(4, 0).await?;
						if self.error().await.is_ok() {
							self.incoming_stream().await?;
						}
					}
				}
			}
			"cancelled stream" => {
				let b = self.body();
				let _ = once(self.stream(b)).await;
				s("send_stream")(self.stream(K::body(vec![9])).await)?;
				if self.frame(4).await?.body != [9] {
					self.frame(4).await?;
				}
			}
			"cancelled receive" => {
				if once(self.h.as_mut().unwrap().recv_message()).await.is_some() {
					return Err("a message from nowhere".into());
				}
			}
			"cancelled receive of an update" => {
				let mut r = self.ask().await?;
				if once(r.recv_update()).await.is_some() || once(r.recv_response()).await.is_some() {
					return Err("a message from nowhere".into());
				}
				self.say(1, r.request_id()).await?;
				s("recv_response")(r.recv_response().await)?;
			}
			"write handles cloned" => {
				let w = self.w.as_ref().unwrap().clone();
				let v: Vec<_> = (0..self.rng.below(5)).map(|_| w.clone()).collect();
				s("send_stream")(w.send_stream(1, K::body(vec![])).await)?;
				self.frame(4).await?;
				drop(v);
			}
			"close handles cloned" => {
				let c = self.h.as_ref().unwrap().close_handle();
				let _d = self.h.as_ref().unwrap().close_handle();
				drop(c);
			}
			"oversized datagram" => {
				if K::DATAGRAM {
					let f = Frame::new(4, 0, 3, vec![1; self.max + 1]);
					s("sending")(self.raw.send_frame(&f).await)?;
					self.error().await?;
				}
			}
			"burst of streams" => {
				let n = self.rng.range(2, 40);
				let bodies: Vec<_> = (0..n).map(|_| self.body()).collect();
				let h = self.h.as_ref().unwrap();
				let mut list: Vec<_> = bodies.into_iter().map(|b| Box::pin(h.send_stream(1, b))).collect();
				let mut done = vec![false; n];
				std::future::poll_fn(|cx| {
					for (f, d) in list.iter_mut().zip(&mut done) {
						*d = *d || f.as_mut().poll(cx).is_ready();
					}
					if done.iter().all(|d| *d) { std::task::Poll::Ready(()) } else { std::task::Poll::Pending }
				})
				.await;
				drop(list);
				for _ in 0..n {
					self.frame(4).await?;
				}
			}
			"burst of received streams" => {
				let n = self.rng.range(2, 40);
				for _ in 0..n {
					self.say(4, 0).await?;
				}
				for _ in 0..n {
					self.incoming_stream().await?;
				}
			}
			"several requests open at once" => {
				let n = self.rng.range(2, 12);
				let mut list = vec![];
				for _ in 0..n {
					list.push(self.ask().await?);
				}
				for _ in 0..n {
					let i = self.rng.below(list.len());
					let mut r = list.swap_remove(i);
					self.say(1, r.request_id()).await?;
					s("recv_response")(r.recv_response().await)?;
				}
			}
			"peek at the wrong kind" => {
				let mut r = self.ask().await?;
				self.say(3, r.request_id()).await?;
				let e = r.recv_response().await;
				if e.is_ok() {
					return Err("an update as a response".into());
				}
				if self.rng.chance(1, 2) {
					r.recv_update().await.ok_or("no update")?;
				}
				self.say(1, r.request_id()).await?;
				self.fence().await?;
			}
			"unread request" => {
				self.id = self.id.wrapping_add(1);
				self.say(0, self.id).await?;
				self.frame(1).await?;
			}
			"unread stream" => self.say(4, 0).await?,
			"unread error" => {
				let ty = *self.rng.pick(&[1, 2, 3]);
				self.say(ty, 0x7000_0000).await?;
			}
			"unread oversized datagram" => {
				if K::DATAGRAM {
					let f = Frame::new(4, 0, 3, vec![1; self.max + 1]);
					s("sending")(self.raw.send_frame(&f).await)?;
				}
			}
			k => return Err(format!("no such thing: {k}")),
		}
		Ok(())
	}
}

/// How many file descriptors the process has.
fn descriptors() -> usize {
	std::fs::read_dir("/proc/self/fd").map(|d| d.count()).unwrap_or(0)
}

/// What may remain: blocks of the queues, buffers of the harness.
const SLACK: isize = 8000;

fn judge(obs: &mut Obs, label: &str, marks: &[(isize, isize)], ops: usize, open: Option<&Vec<usize>>) {
	if let Some(open) = open {
		obs.count("descriptors_counted", open.len() as u64);
		if open[open.len() - 1] > open[1] + 8 {
			obs.violate("descriptors", format!("{label}: after {ops} more rounds more file descriptors are open: {open:?}"));
		}
		return;
	}
	let (first, last) = (marks[1], marks[marks.len() - 1]);
	let grown = last.0 - first.0;
	obs.counts.entry("max_growth".into()).and_modify(|v| *v = (*v).max(grown.max(0) as u64)).or_insert(grown.max(0) as u64);
	// A leak grows again and again, a queue or table that reached its size does not.
	let steps = marks[1..].windows(2).filter(|w| w[1].0 > w[0].0).count();
	if grown > SLACK && steps >= 2 {
		obs.violate("growth", format!("{label}: after {ops} more rounds {grown} bytes more are in use, in {} blocks more, although nothing is open or undelivered: {marks:?}", last.1 - first.1));
	}
}

async fn connection<K: Kit>(seed: u64, rounds: usize, alone: bool) -> Obs
where
	K::T: Send,
	K::B: Send + Sync,
{
	let mut rng = Rng::new(seed);
	let mut obs = Obs::default();
	let cfg = Cfg { max_read: 200, max_write: 200, ..Cfg::default() };
	let (a, b) = K::pair();
	let raw = Raw::new(b, K::DATAGRAM, cfg.end());
	let h = Peer::spawn(K::transport(a, &cfg));
	let unread = rng.chance(1, 5);
	let all = if unread { UNREAD } else { KINDS };
	let n = if rng.chance(1, 2) { 1 } else { rng.range(2, 5) };
	let kinds: Vec<&str> = (0..n).map(|_| *rng.pick(all)).collect();
	let label = format!("{} {kinds:?}", K::NAME);
	obs.sample = label.clone();
	obs.signature = Some(hash_bytes(label.as_bytes()));
	let mut c = Ctx::<K> { h: None, w: None, raw, rng, id: 0, max: 200 };
	if unread {
		let (_, w) = h.split();
		c.w = Some(w);
	} else {
		c.h = Some(h);
	}
	let mut marks = vec![];
	marks.reserve(20);
	let mut open = vec![];
	open.reserve(20);
	for step in 0..9 {
		// The first part fills queues and buffers.
		for i in 0..rounds / 8 {
			let kind = kinds[if kinds.len() == 1 { 0 } else { c.rng.below(kinds.len()) }];
			let r = match tokio::time::timeout(PATIENCE, c.op(kind)).await {
				Ok(r) => r,
				Err(_) => Err("does not complete".to_string()),
			};
			if let Err(e) = r {
				obs.foreign.push(Violation::new("operation", format!("{label}: step {step}.{i}: {kind}: {e}")));
				return obs;
			}
		}
		if let Err(e) = c.fence().await {
			obs.foreign.push(Violation::new("operation", format!("{label}: {e}")));
			return obs;
		}
		// Less what the harness itself keeps of the stream.
		let (bytes, blocks) = crate::alloc::in_use();
		marks.push((bytes - c.raw.parser.borrow().buf.capacity() as isize, blocks));
		open.push(descriptors());
	}
	obs.count("rounds", rounds as u64 * 9 / 8);
	for k in kinds {
		obs.count(&format!("did: {k}"), 1);
	}
	judge(&mut obs, &label, &marks, rounds, alone.then_some(&open));
	obs
}

/// Connections that come and go.
async fn listener<K: LKit>(seed: u64, rounds: usize, alone: bool) -> Obs
where
	K::T: Send,
	K::B: Send + Sync,
{
	let mut rng = Rng::new(seed);
	let mut obs = Obs::default();
	let dir = Scratch::new();
	let cfg = Cfg::default();
	let style = *rng.pick(&["nothing", "raw", "request", "stream", "garbage", "open request"]);
	let label = format!("listener: {} clients that do: {style}", K::NAME);
	obs.sample = label.clone();
	obs.signature = Some(hash_bytes(format!("{label} {}", seed % 8).as_bytes()));
	let (mut l, addr) = match K::listen(&cfg, &dir.0).await {
		Ok(x) => x,
		Err(e) => {
			obs.inconclusive = Some(format!("no listener: {e}"));
			return obs;
		}
	};
	let (tx, mut rx) = tokio::sync::mpsc::unbounded_channel::<()>();
	let accepting = tokio::spawn(async move {
		let _ = l
			.run(|mut peer, _| {
				let tx = tx.clone();
				async move {
					let mut kept = None;
					loop {
						match peer.recv_message().await {
							Ok(ReceivedMessage::Request(r, _)) if r.service_id() == 2 => kept = Some(r),
							Ok(ReceivedMessage::Request(r, b)) => drop(r.send_response(1, b).await),
							Ok(_) => {}
							Err(_) => break,
						}
					}
					drop(kept);
					let _ = tx.send(());
				}
			})
			.await;
	});
	let mut marks = vec![];
	marks.reserve(20);
	let mut open = vec![];
	open.reserve(20);
	let r = tokio::time::timeout(PATIENCE * 2, async {
		for _ in 0..9 {
			for _ in 0..rounds / 8 {
				if matches!(style, "raw" | "garbage") {
					let fd = s("connecting")(K::raw(&addr))?;
					if style == "garbage" {
						use std::os::fd::AsRawFd;
						let _ = sendmsg_raw(fd.as_raw_fd(), &[9; 40], &[]);
					}
				} else {
					let (h, _) = s("connecting")(K::connect(&addr, &cfg).await)?;
					match style {
						"request" => drop(s("request")(s("send_request")(h.send_request(1, K::body(vec![1; 50])).await)?.recv_response().await)?),
						"stream" => s("send_stream")(h.send_stream(1, K::body(vec![1; 50])).await)?,
						"open request" => drop(s("send_request")(h.send_request(2, K::body(vec![1; 50])).await)?),
						_ => (),
					}
				}
				// The other side has seen the end.
				rx.recv().await.ok_or("no more listener")?;
			}
			for _ in 0..10 {
				tokio::task::yield_now().await;
			}
			tokio::time::sleep(Duration::from_millis(3)).await;
			marks.push(crate::alloc::in_use());
			open.push(descriptors());
		}
		Ok::<(), String>(())
	})
	.await;
	match r {
		Ok(Ok(())) => {
			obs.count("connections", rounds as u64 * 9 / 8);
			judge(&mut obs, &label, &marks, rounds, alone.then_some(&open));
		}
		Ok(Err(e)) => obs.foreign.push(Violation::new("listener", format!("{label}: {e}"))),
		Err(_) => obs.foreign.push(Violation::new("listener", format!("{label}: does not complete"))),
	}
	accepting.abort();
	let _ = accepting.await;
	obs
}

pub fn run_memory(rep: &Report) {
	rep.rule("memory: one to five kinds of finished business (out of 32, or 14 without a read handle) repeated on one connection, or connections that come and go at one listener; memory of the thread in use, measured at 9 quiet moments; distinct = combinations of kinds");
	let t = rep.settings.thorough();
	rep.run_cases("memory", if t { 2400 } else { 400 }, if t { 600.0 } else { 150.0 }, 8, |seed| {
		let n = if t { 40_000 } else { 9600 };
		block_on(async move {
			match seed % 3 {
				0 => connection::<UnixS>(seed, n, false).await,
				1 => connection::<Tcp>(seed, n, false).await,
				_ => connection::<Seq>(seed, n, false).await,
			}
		})
	});
	rep.run_cases("memory-listener", if t { 400 } else { 48 }, if t { 300.0 } else { 60.0 }, 8, |seed| {
		let n = if t { 4000 } else { 960 };
		block_on(async move {
			match seed % 3 {
				0 => listener::<UnixS>(seed, n, false).await,
				1 => listener::<Tcp>(seed, n, false).await,
				_ => listener::<Seq>(seed, n, false).await,
			}
		})
	});
	// Descriptors belong to the whole process, so one case at a time.
	rep.run_cases("descriptors", if t { 300 } else { 60 }, if t { 200.0 } else { 40.0 }, 1, |seed| {
		block_on(async move {
			match seed % 6 {
				0 => connection::<UnixS>(seed, 400, true).await,
				1 => connection::<Tcp>(seed, 400, true).await,
				2 | 3 => connection::<Seq>(seed, 400, true).await,
				4 => listener::<UnixS>(seed, 160, true).await,
				_ if seed % 12 < 6 => listener::<Tcp>(seed, 160, true).await,
				_ => listener::<Seq>(seed, 160, true).await,
			}
		})
	});
	rep.require("descriptors_counted", 100);
	rep.require("rounds", 200_000);
	rep.require("connections", 5_000);
	for k in KINDS.iter().chain(UNREAD) {
		rep.require(&format!("did: {k}"), 1);
	}
}
