//! Independent implementation of the documented wire protocol (doc/fizyr-rpc.adoc).
//! Shares no code with the crate under test.

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum End {
	Little,
	Big,
}

impl End {
	pub fn native() -> End {
		if 1u16.to_ne_bytes()[0] == 1 { End::Little } else { End::Big }
	}
	pub fn put(self, x: u32) -> [u8; 4] {
		let le = [x as u8, (x >> 8) as u8, (x >> 16) as u8, (x >> 24) as u8];
		match self {
			End::Little => le,
			End::Big => [le[3], le[2], le[1], le[0]],
		}
	}
	pub fn get(self, b: &[u8]) -> u32 {
		let b = match self {
			End::Little => [b[0], b[1], b[2], b[3]],
			End::Big => [b[3], b[2], b[1], b[0]],
		};
		b[0] as u32 | (b[1] as u32) << 8 | (b[2] as u32) << 16 | (b[3] as u32) << 24
	}
}

pub const REQUEST: u32 = 0;
pub const RESPONSE: u32 = 1;
pub const REQ_UPDATE: u32 = 2;
pub const RESP_UPDATE: u32 = 3;
pub const STREAM: u32 = 4;

#[derive(Clone, PartialEq, Eq, Hash)]
pub struct Frame {
	pub ty: u32,
	pub id: u32,
	pub svc: i32,
	pub body: Vec<u8>,
}

impl std::fmt::Debug for Frame {
	fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
		let name = match self.ty {
			0 => "REQ",
			1 => "RESP",
			2 => "REQ_UPD",
			3 => "RESP_UPD",
			4 => "STREAM",
			_ => "?",
		};
		write!(f, "{}({}) id={} svc={} body[{}]={:02x?}", name, self.ty, self.id, self.svc, self.body.len(), &self.body[..self.body.len().min(12)])
	}
}

impl Frame {
	pub fn new(ty: u32, id: u32, svc: i32, body: Vec<u8>) -> Self {
		Self { ty, id, svc, body }
	}

	/// Datagram encoding: header and body.
	pub fn datagram(&self, e: End) -> Vec<u8> {
		let mut out = Vec::with_capacity(12 + self.body.len());
		out.extend_from_slice(&e.put(self.ty));
		out.extend_from_slice(&e.put(self.id));
		out.extend_from_slice(&e.put(self.svc as u32));
		out.extend_from_slice(&self.body);
		out
	}

	/// Stream encoding: length, header and body.
	pub fn stream(&self, e: End) -> Vec<u8> {
		let mut out = Vec::with_capacity(16 + self.body.len());
		out.extend_from_slice(&e.put(self.body.len() as u32 + 12));
		out.extend_from_slice(&self.datagram(e));
		out
	}

	pub fn encode(&self, e: End, datagram: bool) -> Vec<u8> {
		if datagram { self.datagram(e) } else { self.stream(e) }
	}

	/// Decode the contents of a datagram.
	pub fn parse_datagram(b: &[u8], e: End) -> Result<Frame, String> {
		if b.len() < 12 {
			return Err(format!("short message: {} bytes", b.len()));
		}
		let ty = e.get(&b[0..]);
		if ty > 4 {
			return Err(format!("bad type {ty}"));
		}
		Ok(Frame { ty, id: e.get(&b[4..]), svc: e.get(&b[8..]) as i32, body: b[12..].to_vec() })
	}
}

/// Incremental decoder for the stream framing.
#[derive(Default)]
pub struct StreamParser {
	pub buf: Vec<u8>,
	pub pos: usize,
}

#[derive(Debug, PartialEq)]
pub enum Parsed {
	Frame(Frame),
	/// More bytes are needed.
	Incomplete,
	/// The stream is undecodable from here on.
	Bad(String),
}

impl StreamParser {
	pub fn push(&mut self, data: &[u8]) {
		if self.pos > 1 << 16 {
			self.buf.drain(..self.pos);
			self.pos = 0;
		}
		self.buf.extend_from_slice(data);
	}
	pub fn leftover(&self) -> &[u8] {
		&self.buf[self.pos..]
	}
	pub fn next(&mut self, e: End, max_body: usize) -> Parsed {
		let b = &self.buf[self.pos..];
		if b.len() < 4 {
			return Parsed::Incomplete;
		}
		let len = e.get(b) as usize;
		if b.len() < 16 {
			return Parsed::Incomplete;
		}
		if len < 12 {
			return Parsed::Bad(format!("length {len} < 12"));
		}
		let ty = e.get(&b[4..]);
		if ty > 4 {
			return Parsed::Bad(format!("bad type {ty}"));
		}
		if len - 12 > max_body {
			return Parsed::Bad(format!("oversize {}", len - 12));
		}
		if b.len() < 4 + len {
			return Parsed::Incomplete;
		}
		let f = Frame::parse_datagram(&b[4..4 + len], e).unwrap();
		self.pos += 4 + len;
		Parsed::Frame(f)
	}
}
