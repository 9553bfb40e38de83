//! A transport in memory with a small capacity, for the undefined behaviour interpreter (and the others).

use fizyr_rpc::transport::{Transport, TransportError, TransportReadHalf, TransportWriteHalf};
use fizyr_rpc::{Message, MessageHeader, StreamBody};
use std::collections::VecDeque;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};

#[derive(Default)]
struct Pipe {
	queue: VecDeque<(MessageHeader, Vec<u8>)>,
	reader: Option<Waker>,
	writer: Option<Waker>,
}

pub struct Mem {
	read: Arc<Mutex<Pipe>>,
	write: Arc<Mutex<Pipe>>,
	capacity: usize,
}

pub struct Half<'a> {
	pipe: &'a Arc<Mutex<Pipe>>,
	capacity: usize,
}

pub fn pair(capacity: usize) -> (Mem, Mem) {
	let a = Arc::new(Mutex::new(Pipe::default()));
	let b = Arc::new(Mutex::new(Pipe::default()));
	(Mem { read: a.clone(), write: b.clone(), capacity }, Mem { read: b, write: a, capacity })
}

impl Transport for Mem {
	type Body = StreamBody;
	type Info = ();
	type Config = ();
	type ReadHalf<'a> = Half<'a>;
	type WriteHalf<'a> = Half<'a>;
	fn split(&mut self) -> (Half<'_>, Half<'_>) {
		(Half { pipe: &self.read, capacity: self.capacity }, Half { pipe: &self.write, capacity: self.capacity })
	}
	fn info(&self) -> std::io::Result<()> {
		Ok(())
	}
}

impl TransportReadHalf for Half<'_> {
	type Body = StreamBody;
	fn poll_read_msg(self: Pin<&mut Self>, cx: &mut Context) -> Poll<Result<Message<StreamBody>, TransportError>> {
		let mut p = self.pipe.lock().unwrap();
		match p.queue.pop_front() {
			Some((h, b)) => {
				let w = p.writer.take();
				drop(p);
				if let Some(w) = w {
					w.wake();
				}
				Poll::Ready(Ok(Message::new(h, b.into())))
			}
			None => {
				p.reader = Some(cx.waker().clone());
				Poll::Pending
			}
		}
	}
}

impl TransportWriteHalf for Half<'_> {
	type Body = StreamBody;
	fn poll_write_msg(self: Pin<&mut Self>, cx: &mut Context, header: &MessageHeader, body: &StreamBody) -> Poll<Result<(), TransportError>> {
		let mut p = self.pipe.lock().unwrap();
		if p.queue.len() >= self.capacity {
			p.writer = Some(cx.waker().clone());
			return Poll::Pending;
		}
		p.queue.push_back((*header, body.data.clone()));
		let r = p.reader.take();
		drop(p);
		if let Some(r) = r {
			r.wake();
		}
		Poll::Ready(Ok(()))
	}
}
