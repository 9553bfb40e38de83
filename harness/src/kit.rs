//! Uniform access to the three transports, and raw sockets for the other side of a connection.

use crate::wire::{End, Frame, Parsed, StreamParser};
use filedesc::FileDesc;
use fizyr_rpc::transport::{Endian, Transport};
use fizyr_rpc::{StreamBody, StreamConfig, TcpTransport, UnixBody, UnixConfig, UnixSeqpacketTransport, UnixStreamTransport};
use std::io;
use std::os::fd::{AsRawFd, FromRawFd, IntoRawFd, OwnedFd, RawFd};
use tokio::io::unix::AsyncFd;
use tokio::io::Interest;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum ECfg {
	Little,
	Big,
	Native,
}

#[derive(Debug, Clone)]
pub struct Cfg {
	pub max_read: u32,
	pub max_write: u32,
	pub fds_read: u32,
	pub fds_write: u32,
	pub endian: ECfg,
}

impl Default for Cfg {
	fn default() -> Self {
		Cfg { max_read: 8192, max_write: 8192, fds_read: 10, fds_write: 10, endian: ECfg::Little }
	}
}

impl Cfg {
	pub fn end(&self) -> End {
		match self.endian {
			ECfg::Little => End::Little,
			ECfg::Big => End::Big,
			ECfg::Native => End::native(),
		}
	}
	fn endian(&self) -> Endian {
		match self.endian {
			ECfg::Little => Endian::LittleEndian,
			ECfg::Big => Endian::BigEndian,
			ECfg::Native => Endian::NativeEndian,
		}
	}
	pub fn stream(&self) -> StreamConfig {
		let mut c = StreamConfig::default();
		c.max_body_len_read = self.max_read;
		c.max_body_len_write = self.max_write;
		c.endian = self.endian();
		c
	}
	pub fn unix(&self) -> UnixConfig {
		let mut c = UnixConfig::default();
		c.max_body_len_read = self.max_read;
		c.max_body_len_write = self.max_write;
		c.max_fds_read = self.fds_read;
		c.max_fds_write = self.fds_write;
		c.endian = self.endian();
		c
	}
}

pub trait Kit: 'static {
	type B: fizyr_rpc::Body + 'static;
	type T: Transport<Body = Self::B> + 'static;
	const NAME: &'static str;
	const DATAGRAM: bool;
	/// Delivery between the ends may take real time.
	const TCP: bool = false;
	fn transport(fd: OwnedFd, cfg: &Cfg) -> Self::T;
	/// With the default configuration of the crate.
	fn transport_default(fd: OwnedFd) -> Self::T;
	fn pair() -> (OwnedFd, OwnedFd);
	fn body(data: Vec<u8>) -> Self::B;
	fn body_fds(data: Vec<u8>, fds: Vec<FileDesc>) -> Self::B;
	fn data(b: &Self::B) -> &[u8];
	fn into_parts(b: Self::B) -> (Vec<u8>, Vec<FileDesc>);
}

pub struct UnixS;
pub struct Tcp;
pub struct Seq;

fn socketpair(ty: i32) -> (OwnedFd, OwnedFd) {
	let mut fds = [0; 2];
	let r = unsafe { libc::socketpair(libc::AF_UNIX, ty | libc::SOCK_NONBLOCK | libc::SOCK_CLOEXEC, 0, fds.as_mut_ptr()) };
	assert!(r == 0, "socketpair: {}", io::Error::last_os_error());
	unsafe { (OwnedFd::from_raw_fd(fds[0]), OwnedFd::from_raw_fd(fds[1])) }
}

impl Kit for UnixS {
	type B = StreamBody;
	type T = UnixStreamTransport;
	const NAME: &'static str = "unix-stream";
	const DATAGRAM: bool = false;
	fn transport(fd: OwnedFd, cfg: &Cfg) -> Self::T {
		let s = std::os::unix::net::UnixStream::from(fd);
		s.set_nonblocking(true).unwrap();
		UnixStreamTransport::new(tokio::net::UnixStream::from_std(s).unwrap(), cfg.stream())
	}
	fn transport_default(fd: OwnedFd) -> Self::T {
		UnixStreamTransport::new_default(tokio::net::UnixStream::from_std(std::os::unix::net::UnixStream::from(fd)).unwrap())
	}
	fn pair() -> (OwnedFd, OwnedFd) {
		socketpair(libc::SOCK_STREAM)
	}
	fn body(data: Vec<u8>) -> StreamBody {
		data.into()
	}
	fn body_fds(data: Vec<u8>, _fds: Vec<FileDesc>) -> StreamBody {
		data.into()
	}
	fn data(b: &StreamBody) -> &[u8] {
		&b.data
	}
	fn into_parts(b: StreamBody) -> (Vec<u8>, Vec<FileDesc>) {
		(b.data, Vec::new())
	}
}

impl Kit for Tcp {
	type B = StreamBody;
	type T = TcpTransport;
	const NAME: &'static str = "tcp";
	const DATAGRAM: bool = false;
	const TCP: bool = true;
	fn transport(fd: OwnedFd, cfg: &Cfg) -> Self::T {
		let s = std::net::TcpStream::from(fd);
		s.set_nonblocking(true).unwrap();
		TcpTransport::new(tokio::net::TcpStream::from_std(s).unwrap(), cfg.stream())
	}
	fn transport_default(fd: OwnedFd) -> Self::T {
		TcpTransport::new_default(tokio::net::TcpStream::from_std(std::net::TcpStream::from(fd)).unwrap())
	}
	fn pair() -> (OwnedFd, OwnedFd) {
		let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
		let a = std::net::TcpStream::connect(l.local_addr().unwrap()).unwrap();
		let (b, _) = l.accept().unwrap();
		a.set_nodelay(true).unwrap();
		b.set_nodelay(true).unwrap();
		a.set_nonblocking(true).unwrap();
		b.set_nonblocking(true).unwrap();
		(a.into(), b.into())
	}
	fn body(data: Vec<u8>) -> StreamBody {
		data.into()
	}
	fn body_fds(data: Vec<u8>, _fds: Vec<FileDesc>) -> StreamBody {
		data.into()
	}
	fn data(b: &StreamBody) -> &[u8] {
		&b.data
	}
	fn into_parts(b: StreamBody) -> (Vec<u8>, Vec<FileDesc>) {
		(b.data, Vec::new())
	}
}

impl Kit for Seq {
	type B = UnixBody;
	type T = UnixSeqpacketTransport;
	const NAME: &'static str = "unix-seqpacket";
	const DATAGRAM: bool = true;
	fn transport(fd: OwnedFd, cfg: &Cfg) -> Self::T {
		let s = unsafe { tokio_seqpacket::UnixSeqpacket::from_raw_fd(fd.into_raw_fd()).unwrap() };
		UnixSeqpacketTransport::new(s, cfg.unix())
	}
	fn transport_default(fd: OwnedFd) -> Self::T {
		UnixSeqpacketTransport::new_default(unsafe { tokio_seqpacket::UnixSeqpacket::from_raw_fd(fd.into_raw_fd()).unwrap() })
	}
	fn pair() -> (OwnedFd, OwnedFd) {
		socketpair(libc::SOCK_SEQPACKET)
	}
	fn body(data: Vec<u8>) -> UnixBody {
		data.into()
	}
	fn body_fds(data: Vec<u8>, fds: Vec<FileDesc>) -> UnixBody {
		UnixBody::new(data, fds)
	}
	fn data(b: &UnixBody) -> &[u8] {
		&b.data
	}
	fn into_parts(b: UnixBody) -> (Vec<u8>, Vec<FileDesc>) {
		(b.data, b.fds)
	}
}

pub fn set_bufs(fd: RawFd, snd: i32, rcv: i32) {
	unsafe {
		if snd > 0 {
			libc::setsockopt(fd, libc::SOL_SOCKET, libc::SO_SNDBUF, &snd as *const i32 as *const _, 4);
		}
		if rcv > 0 {
			libc::setsockopt(fd, libc::SOL_SOCKET, libc::SO_RCVBUF, &rcv as *const i32 as *const _, 4);
		}
	}
}

/// Identity of the open file behind a descriptor (device and inode).
pub fn identity(fd: RawFd) -> (u64, u64) {
	unsafe {
		let mut st: libc::stat = std::mem::zeroed();
		assert!(libc::fstat(fd, &mut st) == 0, "fstat: {}", io::Error::last_os_error());
		(st.st_dev as u64, st.st_ino as u64)
	}
}

/// Number of descriptors open in this process that refer to each of the given files.
pub fn census(ids: &[(u64, u64)]) -> Vec<usize> {
	let mut out = vec![0; ids.len()];
	for e in std::fs::read_dir("/proc/self/fd").unwrap().flatten() {
		let Some(fd) = e.file_name().to_str().and_then(|s| s.parse::<i32>().ok()) else { continue };
		unsafe {
			let mut st: libc::stat = std::mem::zeroed();
			if libc::fstat(fd, &mut st) == 0 {
				for (i, id) in ids.iter().enumerate() {
					if *id == (st.st_dev as u64, st.st_ino as u64) {
						out[i] += 1;
					}
				}
			}
		}
	}
	out
}

/// A fresh anonymous file with some contents, with its identity.
pub fn memfd(tag: &str) -> (FileDesc, (u64, u64)) {
	let name = std::ffi::CString::new(tag).unwrap();
	let fd = unsafe { libc::memfd_create(name.as_ptr(), libc::MFD_CLOEXEC) };
	assert!(fd >= 0);
	let id = identity(fd);
	(unsafe { FileDesc::from_raw_fd(fd) }, id)
}

/// Raw socket driven directly by the harness.
pub struct Raw {
	fd: AsyncFd<OwnedFd>,
	pub datagram: bool,
	pub end: End,
	pub parser: std::cell::RefCell<StreamParser>,
	/// File descriptors received, in order of arrival, by datagram.
	pub max_body: usize,
}

#[derive(Debug)]
pub enum RawEvent {
	Frame(Frame, Vec<OwnedFd>),
	Bad(String),
	/// Clean end of stream; the bytes left over of an incomplete frame.
	Eof(usize),
	Error(io::Error),
}

impl Raw {
	pub fn new(fd: OwnedFd, datagram: bool, end: End) -> Self {
		unsafe {
			let fl = libc::fcntl(fd.as_raw_fd(), libc::F_GETFL);
			libc::fcntl(fd.as_raw_fd(), libc::F_SETFL, fl | libc::O_NONBLOCK);
		}
		Raw { fd: AsyncFd::new(fd).unwrap(), datagram, end, parser: Default::default(), max_body: usize::MAX }
	}

	pub fn raw_fd(&self) -> RawFd {
		self.fd.get_ref().as_raw_fd()
	}

	/// Send some bytes (one datagram for datagram sockets), possibly partially.
	pub async fn send_some(&self, data: &[u8], fds: &[RawFd]) -> io::Result<usize> {
		self.fd.async_io(Interest::WRITABLE, |fd| sendmsg_raw(fd.as_raw_fd(), data, fds)).await
	}

	pub fn try_send_some(&self, data: &[u8], fds: &[RawFd]) -> io::Result<usize> {
		sendmsg_raw(self.raw_fd(), data, fds)
	}

	pub async fn send_all(&self, mut data: &[u8]) -> io::Result<()> {
		if self.datagram {
			self.send_some(data, &[]).await?;
			return Ok(());
		}
		while !data.is_empty() {
			let n = self.send_some(data, &[]).await?;
			data = &data[n..];
		}
		Ok(())
	}

	pub async fn send_frame(&self, f: &Frame) -> io::Result<()> {
		self.send_all(&f.encode(self.end, self.datagram)).await
	}

	/// Receive some bytes / one datagram.
	pub async fn recv_some(&self, max: usize) -> io::Result<(Vec<u8>, Vec<OwnedFd>)> {
		self.fd.async_io(Interest::READABLE, |fd| recvmsg_raw(fd.as_raw_fd(), max)).await
	}

	pub fn try_recv_some(&self, max: usize) -> io::Result<(Vec<u8>, Vec<OwnedFd>)> {
		recvmsg_raw(self.raw_fd(), max)
	}

	/// Next decoded frame or event.
	pub async fn recv_event(&self) -> RawEvent {
		loop {
			if !self.datagram {
				let p = self.parser.borrow_mut().next(self.end, self.max_body);
				match p {
					Parsed::Frame(f) => return RawEvent::Frame(f, vec![]),
					Parsed::Bad(e) => return RawEvent::Bad(e),
					Parsed::Incomplete => {}
				}
			}
			match self.recv_some(1 << 18).await {
				Err(e) => return RawEvent::Error(e),
				Ok((b, fds)) => {
					if b.is_empty() {
						return RawEvent::Eof(self.parser.borrow().leftover().len());
					}
					if self.datagram {
						return match Frame::parse_datagram(&b, self.end) {
							Ok(f) => RawEvent::Frame(f, fds),
							Err(e) => RawEvent::Bad(e),
						};
					}
					self.parser.borrow_mut().push(&b);
				}
			}
		}
	}

	/// Everything available right now without waiting.
	pub fn drain(&self) -> Vec<RawEvent> {
		let mut out = vec![];
		loop {
			if !self.datagram {
				let p = self.parser.borrow_mut().next(self.end, self.max_body);
				match p {
					Parsed::Frame(f) => {
						out.push(RawEvent::Frame(f, vec![]));
						continue;
					}
					Parsed::Bad(e) => {
						out.push(RawEvent::Bad(e));
						return out;
					}
					Parsed::Incomplete => {}
				}
			}
			match self.try_recv_some(1 << 18) {
				Err(e) if e.kind() == io::ErrorKind::WouldBlock => return out,
				Err(e) => {
					out.push(RawEvent::Error(e));
					return out;
				}
				Ok((b, fds)) => {
					if b.is_empty() {
						out.push(RawEvent::Eof(self.parser.borrow().leftover().len()));
						return out;
					}
					if self.datagram {
						out.push(match Frame::parse_datagram(&b, self.end) {
							Ok(f) => RawEvent::Frame(f, fds),
							Err(e) => RawEvent::Bad(e),
						});
					} else {
						self.parser.borrow_mut().push(&b);
					}
				}
			}
		}
	}

	pub fn shutdown_write(&self) {
		unsafe { libc::shutdown(self.raw_fd(), libc::SHUT_WR) };
	}
}

pub fn sendmsg_raw(fd: RawFd, data: &[u8], fds: &[RawFd]) -> io::Result<usize> {
	unsafe {
		let mut iov = libc::iovec { iov_base: data.as_ptr() as *mut _, iov_len: data.len() };
		let mut msg: libc::msghdr = std::mem::zeroed();
		msg.msg_iov = &mut iov;
		msg.msg_iovlen = 1;
		let mut ctl = vec![0u64; (libc::CMSG_SPACE((fds.len() * 4) as u32) as usize + 7) / 8];
		if !fds.is_empty() {
			msg.msg_control = ctl.as_mut_ptr() as *mut _;
			msg.msg_controllen = libc::CMSG_SPACE((fds.len() * 4) as u32) as _;
			let c = libc::CMSG_FIRSTHDR(&msg);
			(*c).cmsg_level = libc::SOL_SOCKET;
			(*c).cmsg_type = libc::SCM_RIGHTS;
			(*c).cmsg_len = libc::CMSG_LEN((fds.len() * 4) as u32) as _;
			std::ptr::copy_nonoverlapping(fds.as_ptr() as *const u8, libc::CMSG_DATA(c), fds.len() * 4);
		}
		let r = libc::syscall(libc::SYS_sendmsg, fd, &msg as *const _, libc::MSG_NOSIGNAL);
		if r < 0 {
			Err(io::Error::last_os_error())
		} else {
			Ok(r as usize)
		}
	}
}

pub fn recvmsg_raw(fd: RawFd, max: usize) -> io::Result<(Vec<u8>, Vec<OwnedFd>)> {
	unsafe {
		let mut buf = vec![0u8; max];
		let mut iov = libc::iovec { iov_base: buf.as_mut_ptr() as *mut _, iov_len: buf.len() };
		let mut msg: libc::msghdr = std::mem::zeroed();
		msg.msg_iov = &mut iov;
		msg.msg_iovlen = 1;
		let mut ctl = vec![0u64; 256];
		msg.msg_control = ctl.as_mut_ptr() as *mut _;
		msg.msg_controllen = (ctl.len() * 8) as _;
		let r = libc::recvmsg(fd, &mut msg, libc::MSG_CMSG_CLOEXEC);
		if r < 0 {
			return Err(io::Error::last_os_error());
		}
		let mut fds = vec![];
		let mut c = libc::CMSG_FIRSTHDR(&msg);
		while !c.is_null() {
			if (*c).cmsg_level == libc::SOL_SOCKET && (*c).cmsg_type == libc::SCM_RIGHTS {
				let n = ((*c).cmsg_len as usize - libc::CMSG_LEN(0) as usize) / 4;
				let p = libc::CMSG_DATA(c) as *const i32;
				for i in 0..n {
					fds.push(OwnedFd::from_raw_fd(std::ptr::read_unaligned(p.add(i))));
				}
			}
			c = libc::CMSG_NXTHDR(&msg, c);
		}
		buf.truncate(r as usize);
		Ok((buf, fds))
	}
}

/// Short label of an error, by its public classification only.
pub fn err_class(e: &fizyr_rpc::Error) -> &'static str {
	if e.is_connection_aborted() {
		"aborted"
	} else if e.is_unexpected_message_type() {
		"unexpected-type"
	} else if e.is_remote_error() {
		"remote"
	} else {
		"other"
	}
}

pub fn mtype(t: fizyr_rpc::MessageType) -> u32 {
	use fizyr_rpc::MessageType::*;
	match t {
		Request => 0,
		Response => 1,
		RequesterUpdate => 2,
		ResponderUpdate => 3,
		Stream => 4,
	}
}

pub fn header(ty: u32, id: u32, svc: i32) -> fizyr_rpc::MessageHeader {
	use fizyr_rpc::MessageHeader as H;
	match ty {
		0 => H::request(id, svc),
		1 => H::response(id, svc),
		2 => H::requester_update(id, svc),
		3 => H::responder_update(id, svc),
		4 => H::stream(id, svc),
		_ => unreachable!(),
	}
}

/// A received message as a frame (descriptors dropped).
pub fn frame_of<K: Kit>(m: fizyr_rpc::Message<K::B>) -> Frame {
	let h = m.header;
	let (data, _) = K::into_parts(m.body);
	Frame { ty: mtype(h.message_type), id: h.request_id, svc: h.service_id, body: data }
}
