//! Handles of a connection used from many threads at once. Two peers, each with many clients and a server, on a
//! multi-threaded runtime or with a thread per task; what happens is recorded and checked afterwards.
//!
//! Usage: fizyr-verif-mt <seed> <cases> <seconds> <size> [<case seed>]

#[path = "../../harness/src/rng.rs"]
#[allow(dead_code)]
mod rng;
mod mem;

use fizyr_rpc::transport::Transport;
use fizyr_rpc::{Body, Peer, PeerReadHandle, PeerWriteHandle, ReceivedMessage, ReceivedRequestHandle, ReceivedRequestWriteHandle, SentRequestHandle};
use rng::{hash_bytes, mix, Rng};
use std::collections::{BTreeMap, HashMap};
use std::future::Future;
use std::pin::{pin, Pin};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::task::{Context, Poll, Wake, Waker};
use std::time::{Duration, Instant};

trait AnyBody: Body + From<Vec<u8>> {
	fn data(&self) -> &[u8];
}
impl AnyBody for fizyr_rpc::StreamBody {
	fn data(&self) -> &[u8] {
		&self.data
	}
}
impl AnyBody for fizyr_rpc::UnixBody {
	fn data(&self) -> &[u8] {
		&self.data
	}
}

// ---- running tasks ----

struct ThreadWaker(std::thread::Thread, AtomicBool);
impl Wake for ThreadWaker {
	fn wake(self: Arc<Self>) {
		self.wake_by_ref()
	}
	fn wake_by_ref(self: &Arc<Self>) {
		self.1.store(true, Ordering::Release);
		self.0.unpark();
	}
}

fn block_on<T>(f: impl Future<Output = T>) -> T {
	let mut f = pin!(f);
	let w = Arc::new(ThreadWaker(std::thread::current(), AtomicBool::new(false)));
	let waker = Waker::from(w.clone());
	let mut cx = Context::from_waker(&waker);
	loop {
		if let Poll::Ready(x) = f.as_mut().poll(&mut cx) {
			return x;
		}
		while !w.1.swap(false, Ordering::Acquire) {
			std::thread::park();
		}
	}
}

/// Counts running tasks.
struct Latch {
	n: Mutex<usize>,
	cv: Condvar,
}
impl Latch {
	fn new() -> Arc<Self> {
		Arc::new(Latch { n: Mutex::new(0), cv: Condvar::new() })
	}
	fn wait(&self, limit: Duration) -> bool {
		let mut n = self.n.lock().unwrap();
		if cfg!(miri) {
			// The interpreter notices a deadlock by itself.
			while *n > 0 {
				n = self.cv.wait(n).unwrap();
			}
			return true;
		}
		let end = Instant::now() + limit;
		while *n > 0 {
			let now = Instant::now();
			if now >= end {
				return false;
			}
			n = self.cv.wait_timeout(n, end - now).unwrap().0;
		}
		true
	}
}
struct Ticket(Arc<Latch>);
impl Ticket {
	fn new(l: &Arc<Latch>) -> Self {
		*l.n.lock().unwrap() += 1;
		Ticket(l.clone())
	}
}
impl Drop for Ticket {
	fn drop(&mut self) {
		*self.0.n.lock().unwrap() -= 1;
		self.0.cv.notify_all();
	}
}

#[derive(Clone)]
enum Spawner {
	/// Tasks on a multi-threaded runtime.
	Tasks(tokio::runtime::Handle),
	/// A thread for each task; with a runtime for the sockets.
	Threads(Option<tokio::runtime::Handle>),
	/// Either, at random.
	Mixed(tokio::runtime::Handle),
}

struct Slot {
	what: String,
	/// Operation in progress.
	op: AtomicUsize,
	done: AtomicBool,
}

const OPS: [&str; 12] = ["start", "send_request", "send_stream", "recv_message", "send request update", "recv request update", "send response update", "recv response update", "send_response", "recv_response", "run", "wait"];

/// What tasks share. The log is only touched at the end of a task, so that it does not order the operations.
struct World {
	spawner: Spawner,
	latch: Arc<Latch>,
	log: Mutex<Vec<Ev>>,
	slots: Mutex<Vec<Arc<Slot>>>,
	/// The connection is being ended on purpose.
	ending: AtomicBool,
	base: u64,
	tokens: AtomicU64,
	/// Set when a side got the last message of the other.
	fences: [AtomicBool; 2],
	delays: u32,
	small: bool,
}

#[derive(Debug, Clone, PartialEq)]
enum Ev {
	/// `None`: not waited for.
	StreamSent { from: u64, seq: u32, ok: Option<bool> },
	StreamRecv { side: usize, from: u64, seq: u32 },
	Request { side: usize, token: u64, ok: bool },
	RequestRecv { side: usize, token: u64 },
	/// The order in which a server saw what the clients sent.
	Order(u64),
	/// Updates: direction (0 from the requester), token, writer, sequence.
	UpdateSent { dir: u8, token: u64, writer: u32, seq: u32, ok: bool },
	UpdateRecv { dir: u8, token: u64, writer: u32, seq: u32 },
	ResponseSent { token: u64, who: u32, ok: bool },
	ResponseRecv { token: u64, who: Option<u32> },
	Bad(&'static str, String),
}

type Log = Vec<Ev>;

fn jitter(w: &World, r: &mut Rng) {
	if w.delays == 0 {
		return;
	}
	match r.below(12) {
		0 => std::thread::yield_now(),
		1 if !cfg!(miri) => std::thread::sleep(Duration::from_micros(r.below(w.delays as usize) as u64)),
		2 => {
			for _ in 0..r.below(if cfg!(miri) { 4 } else { 2000 }) {
				std::hint::spin_loop();
			}
		}
		_ => {}
	}
}

async fn breathe(w: &World, r: &mut Rng) {
	jitter(w, r);
	if r.chance(1, 4) {
		YieldNow(false).await;
	}
}

struct YieldNow(bool);
impl Future for YieldNow {
	type Output = ();
	fn poll(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<()> {
		if self.0 {
			return Poll::Ready(());
		}
		self.0 = true;
		cx.waker().wake_by_ref();
		Poll::Pending
	}
}

/// Poll a future a few times at most, then drop it.
struct Impatient<F>(Pin<Box<F>>, usize);
impl<F: Future> Future for Impatient<F> {
	type Output = Option<F::Output>;
	fn poll(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Self::Output> {
		if let Poll::Ready(x) = self.0.as_mut().poll(cx) {
			return Poll::Ready(Some(x));
		}
		if self.1 == usize::MAX {
			return Poll::Pending;
		}
		if self.1 == 0 {
			return Poll::Ready(None);
		}
		self.1 -= 1;
		cx.waker().wake_by_ref();
		Poll::Pending
	}
}

fn spawn<F>(w: &Arc<World>, r: &mut Rng, what: String, f: impl FnOnce(Arc<Slot>, Rng) -> F)
where
	F: Future<Output = Log> + Send + 'static,
{
	let ticket = Ticket::new(&w.latch);
	let slot = Arc::new(Slot { what, op: AtomicUsize::new(0), done: AtomicBool::new(false) });
	w.slots.lock().unwrap().push(slot.clone());
	let f = f(slot.clone(), r.fork());
	let w2 = w.clone();
	let all = async move {
		let log = Catch(Box::pin(f)).await;
		w2.log.lock().unwrap().extend(log);
		slot.done.store(true, Ordering::Release);
		drop(w2);
		drop(ticket);
	};
	let threads = match &w.spawner {
		Spawner::Tasks(h) => {
			h.spawn(all);
			return;
		}
		Spawner::Mixed(h) if r.chance(1, 2) => {
			h.spawn(all);
			return;
		}
		Spawner::Mixed(h) => Some(h.clone()),
		Spawner::Threads(h) => h.clone(),
	};
	let t = std::thread::spawn(move || {
		let _guard = threads.as_ref().map(|h| h.enter());
		block_on(all)
	});
	JOIN.lock().unwrap().push(t);
}

/// Threads to join at the end of a case.
static JOIN: Mutex<Vec<std::thread::JoinHandle<()>>> = Mutex::new(Vec::new());

thread_local! {
	static LAST_PANIC: std::cell::RefCell<(String, String)> = const { std::cell::RefCell::new((String::new(), String::new())) };
}

struct Catch<F>(Pin<Box<F>>);
impl<F: Future<Output = Log>> Future for Catch<F> {
	type Output = Log;
	fn poll(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Log> {
		match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.0.as_mut().poll(cx))) {
			Ok(x) => x,
			Err(_) => {
				let (m, l) = LAST_PANIC.with(|p| p.borrow().clone());
				Poll::Ready(vec![Ev::Bad(if l.starts_with("/repo/") { "panic" } else { "harness-panic" }, format!("{m} at {l}"))])
			}
		}
	}
}

// ---- bodies ----

fn padding(rng: &mut Rng, small: bool) -> usize {
	if small {
		return rng.below(8);
	}
	match rng.below(12) {
		0 => rng.range(200, 3000),
		1..=4 => rng.below(64),
		_ => 0,
	}
}

/// A body that can be recognised: kind, numbers, and a tail that depends on them.
fn make<B: AnyBody>(kind: u8, nums: &[u64], pad: usize) -> B {
	let mut v = vec![kind, nums.len() as u8];
	for n in nums {
		v.extend(n.to_le_bytes());
	}
	let h = hash_bytes(&v).to_le_bytes();
	v.extend((0..pad).map(|i| h[i % 8] ^ (i as u8)));
	v.extend(h);
	v.into()
}

fn parse(d: &[u8]) -> Option<(u8, Vec<u64>)> {
	let n = *d.get(1)? as usize;
	let head = d.get(..2 + 8 * n)?;
	let h = hash_bytes(head).to_le_bytes();
	let tail = &d[head.len()..];
	if tail.len() < 8 {
		return None;
	}
	let (pad, end) = tail.split_at(tail.len() - 8);
	if end != h || pad.iter().enumerate().any(|(i, b)| *b != h[i % 8] ^ (i as u8)) {
		return None;
	}
	Some((d[0], head[2..].chunks(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect()))
}

fn op(slot: &Slot, i: usize) {
	slot.op.store(i, Ordering::Relaxed);
}

/// An operation that fails although the connection is not ended is recorded.
fn check<T>(w: &World, log: &mut Log, what: &'static str, r: &Result<T, fizyr_rpc::Error>) -> bool {
	match r {
		Ok(_) => true,
		Err(e) => {
			if !w.ending.load(Ordering::SeqCst) {
				log.push(Ev::Bad("failed", format!("{what} fails while the connection is open: {e:?}")));
			}
			false
		}
	}
}

// ---- roles ----

#[derive(Clone, Copy, Debug)]
struct Plan {
	token: u64,
	q_writers: u32,
	q_each: u32,
	p_writers: u32,
	p_each: u32,
	responders: u32,
	service: i32,
}

async fn client<B: AnyBody>(w: Arc<World>, slot: Arc<Slot>, mut r: Rng, side: usize, n: usize, mut h: PeerWriteHandle<B>, ops: usize) -> Log {
	let mut log = Log::new();
	let from = ((side as u64) << 32) | n as u64;
	let mut seq = 0;
	for _ in 0..ops {
		breathe(&w, &mut r).await;
		if r.chance(1, 3) {
			// The number of handles goes up and down.
			h = h.clone();
		}
		if r.chance(1, 2) {
			op(&slot, 2);
			let body: B = make(b's', &[from, seq as u64], padding(&mut r, w.small));
			let id = any_id(&mut r);
			let n = if r.chance(1, 8) { r.below(3) } else { usize::MAX };
			let res = Impatient(Box::pin(h.send_stream(id, body)), n).await;
			let ok = res.as_ref().map(|res| check(&w, &mut log, "send_stream", res));
			log.push(Ev::StreamSent { from, seq, ok });
			seq += 1;
			if ok == Some(false) {
				break;
			}
			continue;
		}
		let token = w.tokens.fetch_add(1, Ordering::Relaxed);
		let some = |r: &mut Rng, m: usize| if r.chance(1, 2) { 0 } else { r.range(1, m) as u32 };
		let m = if w.small { 2 } else { 4 };
		let plan = Plan { token, q_writers: some(&mut r, 2), q_each: r.range(1, m) as u32, p_writers: some(&mut r, 2), p_each: r.range(1, m) as u32, responders: if r.chance(1, 3) { r.range(2, 3) as u32 } else { 1 }, service: any_id(&mut r) };
		let body: B = make(b'r', &[token, plan.q_writers as u64, plan.q_each as u64, plan.p_writers as u64, plan.p_each as u64, plan.responders as u64, plan.service as u32 as u64], padding(&mut r, w.small));
		op(&slot, 1);
		let res = h.send_request(plan.service, body).await;
		let ok = check(&w, &mut log, "send_request", &res);
		log.push(Ev::Request { side, token, ok });
		let Ok(sent) = res else { break };
		if sent.service_id() != plan.service {
			log.push(Ev::Bad("ids", format!("service ID {} for {}", sent.service_id(), plan.service)));
		}
		for writer in 0..plan.q_writers {
			let u = sent.write_handle();
			let w2 = w.clone();
			spawn(&w, &mut r, format!("side {side} request {token} writer {writer}"), |slot, mut r| async move {
				let mut log = Log::new();
				let u = if r.chance(1, 3) { u.clone() } else { u };
				for seq in 0..plan.q_each {
					breathe(&w2, &mut r).await;
					op(&slot, 4);
					let body: B = make(b'q', &[token, writer as u64, seq as u64], padding(&mut r, w2.small));
					let res = u.send_update(any_id(&mut r), body).await;
					let ok = check(&w2, &mut log, "send_update of a sent request", &res);
					log.push(Ev::UpdateSent { dir: 0, token, writer, seq, ok });
					if !ok {
						break;
					}
				}
				log
			});
		}
		// Wait for the response here, or elsewhere.
		if r.chance(1, 2) {
			log.extend(await_response(&w, &slot, &mut r, sent, plan).await);
		} else {
			let w2 = w.clone();
			spawn(&w, &mut r, format!("side {side} request {token}"), |slot, mut r| async move { await_response(&w2, &slot, &mut r, sent, plan).await });
		}
	}
	op(&slot, 0);
	log
}

fn any_id(r: &mut Rng) -> i32 {
	match r.u32() as i32 {
		-1 => 0,
		x => x,
	}
}

async fn await_response<B: AnyBody>(w: &Arc<World>, slot: &Slot, r: &mut Rng, mut sent: SentRequestHandle<B>, plan: Plan) -> Log {
	let mut log = Log::new();
	let token = plan.token;
	loop {
		breathe(w, r).await;
		op(slot, 7);
		let m = if r.chance(1, 5) {
			let n = r.below(3);
			match Impatient(Box::pin(sent.recv_update()), n).await {
				Some(m) => m,
				None => continue,
			}
		} else {
			sent.recv_update().await
		};
		let Some(m) = m else { break };
		match parse(m.body.data()) {
			Some((b'p', n)) if n.len() == 3 && m.header.request_id == sent.request_id() => log.push(Ev::UpdateRecv { dir: 1, token: n[0], writer: n[1] as u32, seq: n[2] as u32 }),
			p => log.push(Ev::Bad("corrupt", format!("response update of {token}: {:?} {p:?}", m.header))),
		}
		if let Some(Ev::UpdateRecv { token: t, .. }) = log.last() {
			if *t != token {
				log.push(Ev::Bad("misrouted", format!("an update of {t} arrives at {token}")));
			}
		}
	}
	breathe(w, r).await;
	op(slot, 9);
	let res = sent.recv_response().await;
	if !check(w, &mut log, "recv_response", &res) {
		log.push(Ev::ResponseRecv { token, who: None });
		return log;
	}
	let m = res.unwrap();
	match parse(m.body.data()) {
		Some((b'a', n)) if n.len() == 2 && n[0] == token && m.header.request_id == sent.request_id() => log.push(Ev::ResponseRecv { token, who: Some(n[1] as u32) }),
		p => log.push(Ev::Bad("misrouted", format!("response of {token}: {:?} {p:?}", m.header))),
	}
	log
}

async fn server<B: AnyBody>(w: Arc<World>, slot: Arc<Slot>, mut r: Rng, side: usize, mut h: PeerReadHandle<B>) -> Log {
	let mut log = Log::new();
	let mut order = 0u64;
	loop {
		jitter(&w, &mut r);
		op(&slot, 3);
		let m = if r.chance(1, 5) {
			let n = r.below(3);
			match Impatient(Box::pin(h.recv_message()), n).await {
				Some(m) => m,
				None => continue,
			}
		} else {
			h.recv_message().await
		};
		match m {
			Err(e) => {
				if !w.ending.load(Ordering::SeqCst) {
					log.push(Ev::Bad("failed", format!("recv_message fails while the connection is open: {e:?}")));
				}
				break;
			}
			Ok(ReceivedMessage::Stream(m)) => match parse(m.body.data()) {
				Some((b's', n)) if n.len() == 2 => {
					order = mix(order ^ n[0]);
					log.push(Ev::StreamRecv { side, from: n[0], seq: n[1] as u32 })
				}
				Some((b'f', n)) if n.len() == 1 => {
					w.fences[side].store(true, Ordering::Release);
					if n[0] == 1 {
						break;
					}
				}
				p => log.push(Ev::Bad("corrupt", format!("stream {:?} {p:?}", m.header))),
			},
			Ok(ReceivedMessage::Request(req, body)) => {
				let Some((b'r', n)) = parse(body.data()) else {
					log.push(Ev::Bad("corrupt", format!("request {} {}", req.request_id(), req.service_id())));
					continue;
				};
				let plan = Plan { token: n[0], q_writers: n[1] as u32, q_each: n[2] as u32, p_writers: n[3] as u32, p_each: n[4] as u32, responders: n[5] as u32, service: n[6] as u32 as i32 };
				if req.service_id() != plan.service {
					log.push(Ev::Bad("ids", format!("service ID {} for {}", req.service_id(), plan.service)));
				}
				order = mix(order ^ (plan.token - w.base) ^ 1 << 40);
				log.push(Ev::RequestRecv { side, token: plan.token });
				let w2 = w.clone();
				spawn(&w, &mut r, format!("side {side} handler of {}", plan.token), |slot, r| handler(w2, slot, r, side, req, plan));
			}
		}
	}
	log.push(Ev::Order(order));
	log
}

async fn handler<B: AnyBody>(w: Arc<World>, slot: Arc<Slot>, mut r: Rng, side: usize, mut req: ReceivedRequestHandle<B>, plan: Plan) -> Log {
	let mut log = Log::new();
	let token = plan.token;
	let left = Arc::new(AtomicUsize::new(plan.p_writers as usize));
	let (tx, mut rx) = tokio::sync::mpsc::unbounded_channel::<()>();
	for writer in 0..plan.p_writers {
		let u = req.write_handle();
		let w2 = w.clone();
		let left = left.clone();
		let tx = tx.clone();
		spawn(&w, &mut r, format!("side {side} handler of {token} writer {writer}"), |slot, mut r| async move {
			let mut log = Log::new();
			let u = if r.chance(1, 3) { u.clone() } else { u };
			for seq in 0..plan.p_each {
				breathe(&w2, &mut r).await;
				op(&slot, 6);
				let body: B = make(b'p', &[token, writer as u64, seq as u64], padding(&mut r, w2.small));
				let res = u.send_update(any_id(&mut r), body).await;
				let ok = check(&w2, &mut log, "send_update of a received request", &res);
				log.push(Ev::UpdateSent { dir: 1, token, writer, seq, ok });
				if !ok {
					break;
				}
			}
			left.fetch_sub(1, Ordering::AcqRel);
			let _ = tx.send(());
			log
		});
	}
	drop(tx);
	let mut got = 0;
	while got < plan.q_writers * plan.q_each {
		breathe(&w, &mut r).await;
		op(&slot, 5);
		let m = if r.chance(1, 5) {
			let n = r.below(3);
			match Impatient(Box::pin(req.recv_update()), n).await {
				Some(m) => m,
				None => continue,
			}
		} else {
			req.recv_update().await
		};
		let Some(m) = m else {
			if !w.ending.load(Ordering::SeqCst) {
				log.push(Ev::Bad("lost", format!("request {token}: no more updates after {got} of {}", plan.q_writers * plan.q_each)));
			}
			break;
		};
		got += 1;
		match parse(m.body.data()) {
			Some((b'q', n)) if n.len() == 3 && m.header.request_id == req.request_id() => {
				if n[0] != token {
					log.push(Ev::Bad("misrouted", format!("an update of {} arrives at {token}", n[0])));
				}
				log.push(Ev::UpdateRecv { dir: 0, token: n[0], writer: n[1] as u32, seq: n[2] as u32 })
			}
			p => log.push(Ev::Bad("corrupt", format!("request update of {token}: {:?} {p:?}", m.header))),
		}
	}
	op(&slot, 11);
	while left.load(Ordering::Acquire) > 0 {
		rx.recv().await;
	}
	for who in 1..plan.responders {
		let u = req.write_handle();
		let w2 = w.clone();
		spawn(&w, &mut r, format!("side {side} responder {who} of {token}"), |slot, mut r| async move { respond(&w2, &slot, &mut r, u, plan, who).await });
	}
	let u = req.write_handle();
	if r.chance(1, 2) {
		drop(req);
		log.extend(respond(&w, &slot, &mut r, u, plan, 0).await);
	} else {
		log.extend(respond(&w, &slot, &mut r, u, plan, 0).await);
		drop(req);
	}
	op(&slot, 0);
	log
}

async fn respond<B: AnyBody>(w: &World, slot: &Slot, r: &mut Rng, u: ReceivedRequestWriteHandle<B>, plan: Plan, who: u32) -> Log {
	breathe(w, r).await;
	op(slot, 8);
	let body: B = make(b'a', &[plan.token, who as u64], padding(r, w.small));
	let res = u.send_response(any_id(r), body).await;
	let mut log = Log::new();
	if plan.responders == 1 {
		check(w, &mut log, "send_response", &res);
	} else if let Err(e) = &res {
		if e.is_connection_aborted() && !w.ending.load(Ordering::SeqCst) {
			log.push(Ev::Bad("failed", format!("send_response reports {e:?} while the connection is open")));
		}
	}
	log.push(Ev::ResponseSent { token: plan.token, who, ok: res.is_ok() });
	log
}

// ---- a case ----

#[derive(Default)]
struct Outcome {
	violations: Vec<(String, String)>,
	counts: BTreeMap<&'static str, u64>,
	signature: u64,
	inconclusive: Option<String>,
}

fn pause(r: &mut Rng, micros: usize) {
	if cfg!(miri) {
		for _ in 0..r.below(micros / 8 + 1) {
			std::thread::yield_now();
		}
	} else {
		std::thread::sleep(Duration::from_micros(r.below(micros) as u64));
	}
}

/// How a case ends.
#[derive(Clone, Copy, Debug, PartialEq)]
enum End {
	/// Closed by one side or both, when everything is done.
	Closed,
	/// All handles of both sides are dropped, when everything is done.
	Dropped,
	/// Closed while operations are in progress.
	Abrupt,
}

/// `detached`: the end of one peer cannot be noticed by the other.
fn run_case<T>(seed: u64, size: usize, spawner: Spawner, name: &str, detached: bool, pair: impl FnOnce(&mut Rng, End) -> (T, T)) -> Outcome
where
	T: Transport + Send + 'static,
	T::Body: AnyBody + Send + Sync + 'static,
	T::Info: Send + 'static,
	for<'a> T::ReadHalf<'a>: Send,
	for<'a> T::WriteHalf<'a>: Send,
{
	let mut r = Rng::new(seed);
	let small = size < 3;
	let base = r.u32() as u64;
	let w = Arc::new(World {
		spawner,
		latch: Latch::new(),
		log: Mutex::new(Vec::new()),
		slots: Mutex::new(Vec::new()),
		ending: AtomicBool::new(false),
		base,
		tokens: AtomicU64::new(base),
		fences: Default::default(),
		delays: *r.pick(&[0, 1, 50, 300]),
		small,
	});
	let end = *r.pick(&[End::Closed, End::Dropped, End::Abrupt]);
	let (a, b) = pair(&mut r, end);
	let clients = [r.range(1, if small { 2 } else { 5 }), r.range(0, if small { 1 } else { 5 })];
	let (pa, ha) = Peer::new(a);
	let (pb, hb) = Peer::new(b);
	for (p, n) in [(pa, 0), (pb, 1)] {
		spawn(&w, &mut r, format!("peer {n}"), |slot, _| async move {
			op(&slot, 10);
			p.run().await;
			Log::new()
		});
	}
	let mut closers = Vec::new();
	let mut last = Vec::new();
	let mut readers = Vec::new();
	for (side, h) in [ha, hb].into_iter().enumerate() {
		for _ in 0..r.range(1, 3) {
			closers.push((side, h.close_handle()));
		}
		let (rd, wr) = h.split();
		readers.push(rd);
		for n in 0..clients[side] {
			let (h, w2, ops) = (wr.clone(), w.clone(), r.range(1, size * 4));
			spawn(&w, &mut r, format!("client {n} of side {side}"), |slot, r| client(w2, slot, r, side, n, h, ops));
		}
		last.push(wr);
	}
	for (side, rd) in readers.into_iter().enumerate() {
		let w2 = w.clone();
		spawn(&w, &mut r, format!("server {side}"), |slot, r| server(w2, slot, r, side, rd));
	}

	let limit = Duration::from_secs(60);
	let start = Instant::now();
	let mut out = Outcome::default();
	let until = |cond: &dyn Fn() -> bool| -> bool {
		while !cond() {
			if cfg!(miri) {
				std::thread::yield_now();
			} else {
				std::thread::sleep(Duration::from_micros(100));
				if start.elapsed() > limit {
					return false;
				}
			}
		}
		true
	};
	let stuck = || -> Vec<String> { w.slots.lock().unwrap().iter().filter(|s| !s.done.load(Ordering::Acquire)).map(|s| format!("{} in {}", s.what, OPS[s.op.load(Ordering::Relaxed)])).collect() };
	if end == End::Abrupt {
		pause(&mut r, if small { 400 } else { 4000 });
	} else {
		let quiet = || w.slots.lock().unwrap().iter().all(|s| s.done.load(Ordering::Acquire) || s.what.starts_with("peer") || s.what.starts_with("server"));
		if !until(&quiet) {
			out.violations.push(("hang".into(), format!("operations do not complete while the connection is open: {:?}", stuck())));
		} else {
			for (side, h) in last.iter().enumerate() {
				let body: T::Body = make(b'f', &[(end == End::Dropped) as u64], 0);
				let w2 = w.clone();
				let h = h.clone();
				spawn(&w, &mut r, format!("last message of side {side}"), |slot, _| async move {
					op(&slot, 2);
					let mut log = Log::new();
					let res = h.send_stream(0, body).await;
					if !(end == End::Dropped && res.is_err()) {
						check(&w2, &mut log, "send_stream", &res);
					}
					log
				});
			}
			if !until(&|| w.fences.iter().all(|f| f.load(Ordering::Acquire)) && quiet()) {
				out.violations.push(("lost".into(), format!("the last message of each side is not received; in progress: {:?}", stuck())));
			}
		}
	}
	w.ending.store(true, Ordering::SeqCst);
	let hung = !out.violations.is_empty();
	if end == End::Dropped && !hung {
		// The servers are gone. Nothing but these handles keeps the peers running.
		if r.chance(1, 2) {
			last.reverse();
		}
		for h in last.drain(..) {
			pause(&mut r, 50);
			drop(h);
		}
	} else {
		if !detached && !hung && r.chance(1, 2) {
			let side = r.below(2);
			closers.retain(|c| c.0 == side);
		}
		if r.chance(1, 2) {
			last.clear();
		}
		for (side, c) in closers.drain(..) {
			spawn(&w, &mut r, format!("closing side {side}"), |_, _| async move {
				c.close();
				Log::new()
			});
		}
	}
	if !hung && !w.latch.wait(limit) {
		out.violations.push(("hang".into(), format!("does not end ({end:?}): {:?}", stuck())));
	} else if hung {
		w.latch.wait(Duration::from_secs(5));
	}
	drop(closers);
	drop(last);
	let threads: Vec<_> = std::mem::take(&mut *JOIN.lock().unwrap());
	if out.violations.is_empty() {
		for t in threads {
			let _ = t.join();
		}
	}
	let log = std::mem::take(&mut *w.log.lock().unwrap());
	judge(&log, end, &mut out);
	for (_, m) in &mut out.violations {
		*m = format!("{name}, {} and {} clients, {end:?}: {m}", clients[0], clients[1]);
	}
	out
}

/// The oracle, over what was recorded.
fn judge(log: &Log, end: End, out: &mut Outcome) {
	let open = end != End::Abrupt && out.violations.is_empty();
	let bad = |k: &str, m: String, out: &mut Outcome| out.violations.push((k.into(), m));
	let mut sent: HashMap<(u64, u32), Option<bool>> = HashMap::new();
	let mut requests: HashMap<u64, (usize, bool)> = HashMap::new();
	let mut q_sent: HashMap<(u8, u64, u32, u32), bool> = HashMap::new();
	let mut responses: HashMap<u64, Vec<(u32, bool)>> = HashMap::new();
	for e in log {
		match e {
			Ev::StreamSent { from, seq, ok } => drop(sent.insert((*from, *seq), *ok)),
			Ev::Request { side, token, ok } => drop(requests.insert(*token, (*side, *ok))),
			Ev::UpdateSent { dir, token, writer, seq, ok } => drop(q_sent.insert((*dir, *token, *writer, *seq), *ok)),
			Ev::ResponseSent { token, who, ok } => responses.entry(*token).or_default().push((*who, *ok)),
			Ev::Bad("harness-panic", m) => out.inconclusive = Some(m.clone()),
			Ev::Bad(k, m) => bad(k, m.clone(), out),
			Ev::Order(x) => out.signature = mix(out.signature.wrapping_add(*x)),
			_ => {}
		}
	}
	if out.inconclusive.is_some() {
		return;
	}
	let mut got: HashMap<(u64, u32), usize> = HashMap::new();
	let mut next: HashMap<u64, u32> = HashMap::new();
	let mut req_got: HashMap<u64, usize> = HashMap::new();
	let mut upd_got: HashMap<(u8, u64, u32, u32), usize> = HashMap::new();
	let mut upd_next: HashMap<(u8, u64, u32), u32> = HashMap::new();
	let mut answered: HashMap<u64, Option<u32>> = HashMap::new();
	for e in log {
		match *e {
			Ev::StreamRecv { side, from, seq } => {
				*got.entry((from, seq)).or_default() += 1;
				if !sent.contains_key(&(from, seq)) || (from >> 32) as usize == side {
					bad("misrouted", format!("side {side} receives stream message {seq} of client {from:#x}, which was not sent to it"), out);
				}
				let n = next.entry(from).or_default();
				if seq < *n {
					bad("order", format!("stream message {seq} of client {from:#x} arrives after a later one"), out);
				}
				*n = (*n).max(seq + 1);
			}
			Ev::RequestRecv { side, token } => {
				*req_got.entry(token).or_default() += 1;
				if requests.get(&token).is_none_or(|x| x.0 == side) {
					bad("misrouted", format!("side {side} receives request {token}, which was not sent to it"), out);
				}
			}
			Ev::UpdateRecv { dir, token, writer, seq } => {
				*upd_got.entry((dir, token, writer, seq)).or_default() += 1;
				if !q_sent.contains_key(&(dir, token, writer, seq)) {
					bad("misrouted", format!("update {seq} of writer {writer} of request {token} (direction {dir}) was not sent"), out);
				}
				let n = upd_next.entry((dir, token, writer)).or_default();
				if seq < *n {
					bad("order", format!("update {seq} of writer {writer} of request {token} (direction {dir}) arrives after a later one"), out);
				}
				*n = (*n).max(seq + 1);
			}
			Ev::ResponseRecv { token, who } => {
				if answered.insert(token, who).is_some() {
					bad("duplicate", format!("request {token} has two results"), out);
				}
			}
			_ => {}
		}
	}
	for (k, n) in &got {
		if *n > 1 {
			bad("duplicate", format!("stream message {} of client {:#x} arrives {n} times", k.1, k.0), out);
		}
	}
	for (k, n) in &req_got {
		if *n > 1 {
			bad("duplicate", format!("request {k} arrives {n} times"), out);
		}
	}
	for (k, n) in &upd_got {
		if *n > 1 {
			bad("duplicate", format!("update {k:?} arrives {n} times"), out);
		}
	}
	for (from, n) in &next {
		// What arrives from a client is a beginning of what it sent, but for sends that were not waited for.
		if let Some(s) = (0..*n).find(|s| !got.contains_key(&(*from, *s)) && sent.get(&(*from, *s)) == Some(&Some(true))) {
			bad("lost", format!("stream message {s} of client {from:#x} does not arrive, a later one does"), out);
		}
	}
	for (token, who) in &answered {
		let r = responses.get(token).map(|x| x.as_slice()).unwrap_or(&[]);
		if let Some(who) = who {
			if !r.iter().any(|x| x.0 == *who) {
				bad("misrouted", format!("request {token} gets a response of {who} that was not sent"), out);
			}
			if open && !r.contains(&(*who, true)) {
				bad("winner", format!("request {token} gets the response of responder {who}, whose send_response fails: {r:?}"), out);
			}
		}
		if r.iter().filter(|x| x.1).count() > 1 {
			bad("winner", format!("request {token} has more than one successful response: {r:?}"), out);
		}
		if open && r.iter().filter(|x| x.1).count() != 1 {
			bad("winner", format!("request {token} does not have exactly one successful response: {r:?}"), out);
		}
	}
	if open {
		for (k, ok) in &sent {
			if *ok == Some(true) && !got.contains_key(k) {
				bad("lost", format!("stream message {} of client {:#x} does not arrive", k.1, k.0), out);
			}
		}
		for (k, (_, ok)) in &requests {
			if *ok && !req_got.contains_key(k) {
				bad("lost", format!("request {k} does not arrive"), out);
			}
			if *ok && answered.get(k).is_none_or(|x| x.is_none()) {
				bad("lost", format!("request {k} does not get its response"), out);
			}
		}
		for (k, ok) in &q_sent {
			if *ok && !upd_got.contains_key(k) {
				bad("lost", format!("update {k:?} does not arrive"), out);
			}
		}
	}
	for (k, n) in [
		("stream messages received", got.len()),
		("requests received", req_got.len()),
		("updates received", upd_got.len()),
		("responses received", answered.values().filter(|x| x.is_some()).count()),
		("requests ended without a response", answered.values().filter(|x| x.is_none()).count()),
		("responses that lost to another", responses.values().flatten().filter(|x| !x.1).count()),
		("events", log.len()),
	] {
		out.counts.insert(k, n as u64);
	}
	out.counts.insert(match end { End::Closed => "cases closed when done", End::Dropped => "cases ended by dropping handles", End::Abrupt => "cases closed midway" }, 1);
}

#[cfg(feature = "real")]
fn real_case(seed: u64, size: usize, which: u64, spawner: Spawner, rt: &tokio::runtime::Handle) -> Outcome {
	use fizyr_rpc::transport::{StreamTransport, UnixTransport};
	let _guard = rt.enter();
	match which {
		0 => run_case(seed, size, spawner, "Unix stream", false, |_, _| {
			let (a, b) = tokio::net::UnixStream::pair().unwrap();
			(StreamTransport::new(a, Default::default()), StreamTransport::new(b, Default::default()))
		}),
		1 => run_case(seed, size, spawner, "Unix seqpacket", false, |_, _| {
			let (a, b) = tokio_seqpacket::UnixSeqpacket::pair().unwrap();
			(UnixTransport::new(a, Default::default()), UnixTransport::new(b, Default::default()))
		}),
		_ => run_case(seed, size, spawner, "TCP", false, |_, _| {
			let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
			let a = std::net::TcpStream::connect(l.local_addr().unwrap()).unwrap();
			let (b, _) = l.accept().unwrap();
			let make = |s: std::net::TcpStream| {
				s.set_nonblocking(true).unwrap();
				StreamTransport::new(tokio::net::TcpStream::from_std(s).unwrap(), Default::default())
			};
			(make(a), make(b))
		}),
	}
}

fn one(seed: u64, size: usize, rt: Option<&tokio::runtime::Handle>) -> Outcome {
	let mut r = Rng::new(mix(seed));
	let spawner = match (r.below(4), rt) {
		(0, rt) => Spawner::Threads(rt.cloned()),
		(_, None) => Spawner::Threads(None),
		(1, Some(rt)) => Spawner::Mixed(rt.clone()),
		(_, Some(rt)) => Spawner::Tasks(rt.clone()),
	};
	// The cost of a case grows with the number of threads.
	let size = if matches!(spawner, Spawner::Threads(_)) { size.min(4) } else { size };
	let size = r.range(1, size);
	let which = r.below(4) as u64;
	#[cfg(feature = "real")]
	if which < 3 {
		return real_case(seed, size, which, spawner, rt.unwrap());
	}
	let _ = which;
	run_case(seed, size, spawner, "in memory", true, |r, end| mem::pair(if end == End::Abrupt { usize::MAX } else { r.range(1, 8) }))
}

fn json(s: &str) -> String {
	let mut o = String::from("\"");
	for c in s.chars() {
		match c {
			'"' => o.push_str("\\\""),
			'\\' => o.push_str("\\\\"),
			c if (c as u32) < 32 => o.push(' '),
			c => o.push(c),
		}
	}
	o.push('"');
	o
}

fn main() {
	std::panic::set_hook(Box::new(|info| {
		let m = info.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| info.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
		let l = info.location().map(|l| l.to_string()).unwrap_or_default();
		LAST_PANIC.with(|p| *p.borrow_mut() = (m, l));
	}));
	let args: Vec<u64> = std::env::args().skip(1).map(|a| a.parse().expect("a number")).collect();
	let &[seed, cases, seconds, size, ref only @ ..] = &args[..] else { panic!("usage: <seed> <cases> <seconds> <size> [<case seed>]") };
	let start = Instant::now();
	let mut rng = Rng::new(seed);
	let mut found = false;
	for i in 0..cases {
		let case = only.first().copied().unwrap_or_else(|| rng.u64());
		if !cfg!(miri) && start.elapsed() > Duration::from_secs(seconds) {
			break;
		}
		let mut r = Rng::new(case ^ 0x7a7a);
		let rt = if !cfg!(miri) || r.chance(1, 3) {
			let mut b = tokio::runtime::Builder::new_multi_thread();
			b.worker_threads(if cfg!(miri) { 2 } else { r.range(2, 12) });
			b.enable_all();
			Some(b.build().unwrap())
		} else {
			None
		};
		let out = one(case, size as usize, rt.as_ref().map(|r| r.handle()));
		if out.violations.is_empty() {
			drop(rt);
		} else if let Some(rt) = rt {
			rt.shutdown_background();
		}
		let v: Vec<String> = out.violations.iter().take(5).map(|(k, m)| format!("[{},{}]", json(k), json(m))).collect();
		let c: Vec<String> = out.counts.iter().map(|(k, n)| format!("{}:{n}", json(k))).collect();
		println!("{{\"case\":{case},\"n\":{i},\"violations\":[{}],\"inconclusive\":{},\"signature\":{},\"counts\":{{{}}}}}", v.join(","), out.inconclusive.as_deref().map(json).unwrap_or("null".into()), out.signature, c.join(","));
		if !out.violations.is_empty() {
			found = true;
			break;
		}
	}
	println!("{{\"end\":true}}");
	if found {
		// Tasks may still be running.
		std::process::exit(0);
	}
}
