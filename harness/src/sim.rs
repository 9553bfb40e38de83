//! Deterministic executor: polls all tasks in an order drawn from a seeded PRNG on top of a
//! tokio current_thread runtime (which only provides the I/O driver), and detects quiescence logically.

use crate::rng::Rng;
use std::cell::{Cell, RefCell};
use std::future::Future;
use std::panic::AssertUnwindSafe;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};

type LocalFuture = Pin<Box<dyn Future<Output = ()>>>;

#[derive(Default)]
struct Shared {
	state: Mutex<SharedState>,
}

#[derive(Default)]
struct SharedState {
	ready: Vec<usize>,
	queued: Vec<bool>,
}

struct TaskWaker {
	id: usize,
	shared: Arc<Shared>,
}

impl Wake for TaskWaker {
	fn wake(self: Arc<Self>) {
		self.wake_by_ref()
	}
	fn wake_by_ref(self: &Arc<Self>) {
		let mut s = self.shared.state.lock().unwrap();
		if !s.queued[self.id] {
			s.queued[self.id] = true;
			s.ready.push(self.id);
		}
	}
}

#[derive(Debug, Clone, PartialEq)]
pub struct PanicInfo {
	pub task: String,
	pub message: String,
	pub location: String,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Settled {
	/// Nothing is runnable and no I/O event is pending.
	Quiescent,
	/// The poll limit was hit.
	Limit,
}

struct Slot {
	name: Rc<str>,
	fut: Option<LocalFuture>,
	waker: Waker,
	prio: u64,
}

pub struct Inner {
	shared: Arc<Shared>,
	tasks: RefCell<Vec<Slot>>,
	rng: RefCell<Rng>,
	pub polls: Cell<u64>,
	sched_hash: Cell<u64>,
	pct: Cell<bool>,
	/// Number of consecutive idle driver turns that count as quiescence.
	idle_turns: Cell<u32>,
	/// Extra real time to wait before declaring quiescence (TCP only), in microseconds.
	pub idle_grace_us: Cell<u64>,
	pub panics: RefCell<Vec<PanicInfo>>,
}

#[derive(Clone)]
pub struct Sim(pub Rc<Inner>);

pub struct Handle<T> {
	pub id: usize,
	slot: Rc<RefCell<Option<T>>>,
	done: Rc<Cell<bool>>,
	sim: Sim,
}

impl<T> Handle<T> {
	pub fn is_done(&self) -> bool {
		self.done.get()
	}
	pub fn take(&self) -> Option<T> {
		self.slot.borrow_mut().take()
	}
	/// Drop the future of the task without completing it.
	pub fn cancel(&self) {
		self.sim.cancel(self.id);
	}
}

thread_local! {
	static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

/// Every panic in the process, also on other threads.
pub static ALL_PANICS: Mutex<Vec<PanicInfo>> = Mutex::new(Vec::new());

pub fn install_panic_hook() {
	std::panic::set_hook(Box::new(|info| {
		let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
			s.to_string()
		} else if let Some(s) = info.payload().downcast_ref::<String>() {
			s.clone()
		} else {
			"(non-string panic)".to_string()
		};
		let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
		if std::env::var_os("VERIF_PANIC_TRACE").is_some() {
			eprintln!("panic at {loc}: {msg}\n{}", std::backtrace::Backtrace::force_capture());
		}
		LAST_PANIC.with(|p| *p.borrow_mut() = Some((msg.clone(), loc.clone())));
		if let Ok(mut all) = ALL_PANICS.lock() {
			if all.len() < 1000 {
				all.push(PanicInfo { task: format!("{:?}", std::thread::current().id()), message: msg, location: loc });
			}
		}
	}));
}

pub fn take_last_panic() -> (String, String) {
	LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| ("?".into(), "?".into()))
}

impl Sim {
	pub fn new(seed: u64) -> Self {
		let mut rng = Rng::new(seed);
		let pct = rng.chance(2, 5);
		Sim(Rc::new(Inner {
			shared: Arc::new(Shared::default()),
			tasks: RefCell::new(Vec::new()),
			rng: RefCell::new(rng),
			polls: Cell::new(0),
			sched_hash: Cell::new(0),
			pct: Cell::new(pct),
			idle_turns: Cell::new(4),
			idle_grace_us: Cell::new(0),
			panics: RefCell::new(Vec::new()),
		}))
	}

	/// How many turns of the runtime without progress count as quiescence (tasks of the runtime itself need more).
	pub fn set_idle_turns(&self, n: u32) {
		self.0.idle_turns.set(n);
	}

	/// Hash over the sequence of scheduled tasks, to count distinct interleavings.
	pub fn schedule_hash(&self) -> u64 {
		self.0.sched_hash.get()
	}

	pub fn spawn<T: 'static>(&self, name: &str, fut: impl Future<Output = T> + 'static) -> Handle<T> {
		let slot = Rc::new(RefCell::new(None));
		let done = Rc::new(Cell::new(false));
		let (slot2, done2) = (slot.clone(), done.clone());
		let wrapped = async move {
			let v = fut.await;
			*slot2.borrow_mut() = Some(v);
			done2.set(true);
		};
		let mut tasks = self.0.tasks.borrow_mut();
		let id = tasks.len();
		let prio = self.0.rng.borrow_mut().u64();
		let waker = Waker::from(Arc::new(TaskWaker { id, shared: self.0.shared.clone() }));
		tasks.push(Slot { name: name.into(), fut: Some(Box::pin(wrapped)), waker, prio });
		let mut s = self.0.shared.state.lock().unwrap();
		s.queued.push(true);
		s.ready.push(id);
		drop(s);
		Handle { id, slot, done, sim: self.clone() }
	}

	pub fn cancel(&self, id: usize) {
		let fut = self.0.tasks.borrow_mut()[id].fut.take();
		drop(fut);
	}

	pub fn unfinished(&self) -> Vec<String> {
		self.0.tasks.borrow().iter().filter(|t| t.fut.is_some()).map(|t| t.name.to_string()).collect()
	}

	/// Drop all remaining tasks.
	pub fn clear(&self) {
		loop {
			let futs: Vec<_> = self.0.tasks.borrow_mut().iter_mut().filter_map(|t| t.fut.take()).collect();
			if futs.is_empty() {
				break;
			}
			drop(futs);
		}
	}

	fn poll_one(&self) -> bool {
		let id = {
			let mut s = self.0.shared.state.lock().unwrap();
			if s.ready.is_empty() {
				return false;
			}
			let mut rng = self.0.rng.borrow_mut();
			let i = if self.0.pct.get() {
				let mut tasks = self.0.tasks.borrow_mut();
				if rng.chance(1, 16) {
					let v = *rng.pick(&s.ready);
					tasks[v].prio = rng.u64();
				}
				let (i, _) = s.ready.iter().enumerate().max_by_key(|(_, t)| tasks[**t].prio).unwrap();
				// Avoid pure starvation by a task that keeps waking itself.
				let t = s.ready[i];
				if rng.chance(1, 8) {
					tasks[t].prio = rng.u64() >> 1;
				}
				i
			} else {
				rng.below(s.ready.len())
			};
			let id = s.ready.swap_remove(i);
			s.queued[id] = false;
			id
		};
		let (fut, waker, name) = {
			let mut tasks = self.0.tasks.borrow_mut();
			let t = &mut tasks[id];
			(t.fut.take(), t.waker.clone(), t.name.clone())
		};
		let Some(mut fut) = fut else { return true };
		self.0.polls.set(self.0.polls.get() + 1);
		let h = self.0.sched_hash.get();
		self.0.sched_hash.set((h ^ id as u64).wrapping_mul(0x100000001b3).rotate_left(7));
		let mut cx = Context::from_waker(&waker);
		match std::panic::catch_unwind(AssertUnwindSafe(|| fut.as_mut().poll(&mut cx))) {
			Ok(Poll::Ready(())) => {
				if let Err(_) = std::panic::catch_unwind(AssertUnwindSafe(|| drop(fut))) {
					let (message, location) = take_last_panic();
					self.0.panics.borrow_mut().push(PanicInfo { task: name.to_string(), message, location });
				}
			}
			Ok(Poll::Pending) => {
				let mut tasks = self.0.tasks.borrow_mut();
				tasks[id].fut = Some(fut);
			}
			Err(_) => {
				let (message, location) = take_last_panic();
				self.0.panics.borrow_mut().push(PanicInfo { task: name.to_string(), message, location });
				let _ = std::panic::catch_unwind(AssertUnwindSafe(|| drop(fut)));
			}
		}
		true
	}

	/// Run until nothing can make progress any more, or until the limit of task polls is hit.
	pub async fn settle(&self, max_polls: u64) -> Settled {
		self.settle_until(max_polls, || false).await
	}

	/// Like `settle`, but also stop as soon as the condition holds.
	pub async fn settle_until(&self, max_polls: u64, stop: impl Fn() -> bool) -> Settled {
		let start = self.0.polls.get();
		let mut idle = 0u32;
		let mut grace_left = self.0.idle_grace_us.get();
		loop {
			// One root poll: one task poll (fresh cooperative budget for each).
			driver_turn().await;
			if stop() {
				return Settled::Quiescent;
			}
			let progressed = self.poll_one();
			if progressed {
				idle = 0;
				grace_left = self.0.idle_grace_us.get();
				if self.0.polls.get() - start >= max_polls {
					return Settled::Limit;
				}
			} else {
				idle += 1;
				if idle >= self.0.idle_turns.get() {
					if grace_left == 0 {
						return Settled::Quiescent;
					}
					let step = grace_left.min(200);
					grace_left -= step;
					std::thread::sleep(std::time::Duration::from_micros(step));
				}
			}
		}
	}

	pub async fn run(&self) -> Settled {
		self.settle(2_000_000).await
	}

	/// Do at most `n` task polls (for stopping at an arbitrary moment).
	pub async fn steps(&self, n: u64) {
		self.settle(n.max(1)).await;
	}
}

/// Yield to the tokio driver once.
pub async fn driver_turn() {
	let mut first = true;
	std::future::poll_fn(move |cx| {
		if first {
			first = false;
			cx.waker().wake_by_ref();
			Poll::Pending
		} else {
			Poll::Ready(())
		}
	})
	.await
}

/// Yield `n` times inside a task.
pub async fn yields(n: usize) {
	for _ in 0..n {
		driver_turn().await;
	}
}
