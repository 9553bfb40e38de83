//! Global allocator that remembers, for each thread, the largest single allocation and what is in use.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
	static LARGEST: Cell<usize> = const { Cell::new(0) };
	static LIVE: Cell<(isize, isize)> = const { Cell::new((0, 0)) };
}

pub struct Watching;

fn note(n: usize) {
	let _ = LARGEST.try_with(|l| {
		if n > l.get() {
			l.set(n);
		}
	});
}

fn live(bytes: isize, blocks: isize) {
	let _ = LIVE.try_with(|l| l.set((l.get().0 + bytes, l.get().1 + blocks)));
}

unsafe impl GlobalAlloc for Watching {
	unsafe fn alloc(&self, l: Layout) -> *mut u8 {
		note(l.size());
		live(l.size() as isize, 1);
		unsafe { System.alloc(l) }
	}
	unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
		note(l.size());
		live(l.size() as isize, 1);
		unsafe { System.alloc_zeroed(l) }
	}
	unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
		note(n);
		live(n as isize - l.size() as isize, 0);
		unsafe { System.realloc(p, l, n) }
	}
	unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
		live(-(l.size() as isize), -1);
		unsafe { System.dealloc(p, l) }
	}
}

#[global_allocator]
static GLOBAL: Watching = Watching;

/// Start measuring on this thread.
pub fn reset() {
	LARGEST.with(|l| l.set(0));
}

/// Largest single allocation on this thread since the last reset.
pub fn largest() -> usize {
	LARGEST.with(|l| l.get())
}

/// Bytes and blocks that this thread allocated, less what it freed.
pub fn in_use() -> (isize, isize) {
	LIVE.with(|l| l.get())
}
