//! Interposed socket write calls.
//!
//! The binary defines `writev`, `write`, `send`, `sendto` and `sendmsg`, so all Rust code in the process (std, mio, tokio)
//! ends up here. For file descriptors that a case marked as chaotic, the amount written by a single call is
//! shortened to an arbitrary number of bytes, as the kernel may do at any time.
//! For all other descriptors the calls are passed through unchanged.
//!
//! A short write on an edge-triggered epoll descriptor is normally followed by a new writable event once there is
//! space again, and a runtime may rely on that. The kernel does not know that we shortened the write, so
//! after doing so the registration is re-armed with EPOLL_CTL_MOD, which generates that event.

use libc::{c_int, c_void, iovec, msghdr, size_t, ssize_t};
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering};

const MAX_FD: usize = 4096;

/// Per descriptor: 0 = pass through, otherwise the mode.
static MODE: [AtomicU32; MAX_FD] = [const { AtomicU32::new(0) }; MAX_FD];
/// Per descriptor PRNG state.
static SEED: [AtomicU64; MAX_FD] = [const { AtomicU64::new(0) }; MAX_FD];
/// Per descriptor epoll registration: (epfd << 32 | events), and user data.
static REG: [AtomicU64; MAX_FD] = [const { AtomicU64::new(0) }; MAX_FD];
static DATA: [AtomicU64; MAX_FD] = [const { AtomicU64::new(0) }; MAX_FD];

pub static SHORT_WRITES: AtomicU64 = AtomicU64::new(0);
pub static HEADER_SPLITS: AtomicU64 = AtomicU64::new(0);

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Mode {
	Off = 0,
	/// Shorten often, anywhere.
	Any = 1,
	/// At most a few bytes per call.
	Tiny = 2,
	/// Exactly one byte per call.
	One = 3,
	/// Shorten sometimes.
	Rare = 4,
}

pub fn set(fd: i32, mode: Mode, seed: u64) {
	if (fd as usize) < MAX_FD {
		SEED[fd as usize].store(seed, Ordering::SeqCst);
		MODE[fd as usize].store(mode as u32, Ordering::SeqCst);
	}
}

fn mode(fd: c_int) -> u32 {
	if fd >= 0 && (fd as usize) < MAX_FD {
		MODE[fd as usize].load(Ordering::Relaxed)
	} else {
		0
	}
}

fn next(fd: c_int) -> u64 {
	let x = SEED[fd as usize].fetch_add(0x9E3779B97F4A7C15, Ordering::Relaxed);
	crate::rng::mix(x)
}

/// Decide how many of `total` bytes this call may transfer.
fn limit(fd: c_int, mode: u32, total: usize) -> usize {
	if total <= 1 {
		return total;
	}
	let r = next(fd);
	let cut = match mode {
		1 => match r % 4 {
			0 => total,
			1 => 1 + (r >> 8) as usize % total.min(20),
			_ => 1 + (r >> 8) as usize % total,
		},
		2 => 1 + (r >> 8) as usize % total.min(7),
		3 => 1,
		4 => {
			if r % 8 == 0 {
				1 + (r >> 8) as usize % total
			} else {
				total
			}
		}
		_ => total,
	};
	cut.min(total)
}

/// Generate a new writable edge for the descriptor.
fn rearm(fd: c_int) {
	let reg = REG[fd as usize].load(Ordering::SeqCst);
	if reg != 0 {
		let mut ev = libc::epoll_event { events: reg as u32, u64: DATA[fd as usize].load(Ordering::SeqCst) };
		unsafe { libc::syscall(libc::SYS_epoll_ctl, (reg >> 32) as c_int, libc::EPOLL_CTL_MOD, fd, &mut ev as *mut _) };
	}
}

fn note_short(written: isize, total: usize) {
	if written > 0 && (written as usize) < total {
		SHORT_WRITES.fetch_add(1, Ordering::Relaxed);
		if written < 16 {
			HEADER_SPLITS.fetch_add(1, Ordering::Relaxed);
		}
	}
}

unsafe fn errno_ret(r: libc::c_long) -> ssize_t {
	// libc::syscall already sets errno and returns -1.
	r as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn epoll_ctl(epfd: c_int, op: c_int, fd: c_int, ev: *mut libc::epoll_event) -> c_int {
	if fd >= 0 && (fd as usize) < MAX_FD {
		if op == libc::EPOLL_CTL_DEL {
			REG[fd as usize].store(0, Ordering::SeqCst);
		} else if !ev.is_null() {
			let e = *ev;
			DATA[fd as usize].store(e.u64, Ordering::SeqCst);
			REG[fd as usize].store((epfd as u64) << 32 | e.events as u64, Ordering::SeqCst);
		}
	}
	libc::syscall(libc::SYS_epoll_ctl, epfd, op, fd, ev) as c_int
}

/// Descriptors are reused: closing one clears its mode.
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
	if fd >= 0 && (fd as usize) < MAX_FD {
		MODE[fd as usize].store(0, Ordering::SeqCst);
		REG[fd as usize].store(0, Ordering::SeqCst);
	}
	libc::syscall(libc::SYS_close, fd) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, len: size_t) -> ssize_t {
	let m = mode(fd);
	let n = if m != 0 { limit(fd, m, len) } else { len };
	let r = errno_ret(libc::syscall(libc::SYS_write, fd, buf, n));
	if n < len && r > 0 {
		note_short(r, len);
		rearm(fd);
	}
	r
}

#[no_mangle]
pub unsafe extern "C" fn sendto(fd: c_int, buf: *const c_void, len: size_t, flags: c_int, addr: *const libc::sockaddr, alen: libc::socklen_t) -> ssize_t {
	let m = mode(fd);
	let n = if m != 0 { limit(fd, m, len) } else { len };
	let r = errno_ret(libc::syscall(libc::SYS_sendto, fd, buf, n, flags, addr, alen as usize));
	if n < len && r > 0 {
		note_short(r, len);
		rearm(fd);
	}
	r
}

#[no_mangle]
pub unsafe extern "C" fn send(fd: c_int, buf: *const c_void, len: size_t, flags: c_int) -> ssize_t {
	sendto(fd, buf, len, flags, std::ptr::null(), 0)
}

/// Call `f` with the vectors cut to `n` bytes.
unsafe fn with_cut(iov: *const iovec, cnt: usize, n: usize, f: impl FnOnce(*const iovec, usize) -> ssize_t) -> ssize_t {
	let src = std::slice::from_raw_parts(iov, cnt);
	let mut out: [iovec; 16] = [iovec { iov_base: std::ptr::null_mut(), iov_len: 0 }; 16];
	let mut left = n;
	let mut k = 0;
	for v in src {
		if k == 16 || left == 0 {
			break;
		}
		let l = v.iov_len.min(left);
		out[k] = iovec { iov_base: v.iov_base, iov_len: l };
		left -= l;
		k += 1;
	}
	f(out.as_ptr(), k)
}

unsafe fn total_len(iov: *const iovec, cnt: usize) -> usize {
	std::slice::from_raw_parts(iov, cnt).iter().map(|v| v.iov_len).sum()
}

#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const iovec, cnt: c_int) -> ssize_t {
	let m = mode(fd);
	if m == 0 || cnt <= 0 {
		return errno_ret(libc::syscall(libc::SYS_writev, fd, iov, cnt as usize));
	}
	let total = total_len(iov, cnt as usize);
	let n = limit(fd, m, total);
	if n == total {
		return errno_ret(libc::syscall(libc::SYS_writev, fd, iov, cnt as usize));
	}
	let r = with_cut(iov, cnt as usize, n, |p, k| errno_ret(libc::syscall(libc::SYS_writev, fd, p, k)));
	if r > 0 {
		note_short(r, total);
		rearm(fd);
	}
	r
}

#[no_mangle]
pub unsafe extern "C" fn sendmsg(fd: c_int, msg: *const msghdr, flags: c_int) -> ssize_t {
	let m = mode(fd);
	if m == 0 {
		return errno_ret(libc::syscall(libc::SYS_sendmsg, fd, msg, flags));
	}
	let hdr = &*msg;
	let total = total_len(hdr.msg_iov, hdr.msg_iovlen as usize);
	let n = limit(fd, m, total);
	if n == total {
		return errno_ret(libc::syscall(libc::SYS_sendmsg, fd, msg, flags));
	}
	let r = with_cut(hdr.msg_iov, hdr.msg_iovlen as usize, n, |p, k| {
		let mut copy = std::ptr::read(msg);
		copy.msg_iov = p as *mut iovec;
		copy.msg_iovlen = k as _;
		errno_ret(libc::syscall(libc::SYS_sendmsg, fd, &copy as *const msghdr, flags))
	});
	if r > 0 {
		note_short(r, total);
		rearm(fd);
	}
	r
}
