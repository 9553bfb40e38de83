//! What the generated crates of the interface checks use: a binary format, and object-safe traits over the API that
//! `fizyr_rpc::interface!` generates, so that one runner can drive every interface.

pub use fizyr_rpc::format::{DecodeBody, EncodeBody, Format};
pub use fizyr_rpc::introspection as intro;
pub use fizyr_rpc::{Error, Message, ParseUpdateError, PeerCloseHandle, PeerHandle, PeerReadHandle, PeerWriteHandle, RecvMessageError, StreamBody, UnixBody};
use std::cell::RefCell;
use std::fmt::Debug;
use std::future::Future;
use std::pin::Pin;

pub type Fut<'a, T> = Pin<Box<dyn Future<Output = T> + 'a>>;

/// Values of the interfaces: a canonical binary encoding.
pub trait Wire: Sized + Debug + Clone + PartialEq + 'static {
	fn name() -> String;
	fn put(&self, out: &mut Vec<u8>);
	fn get(r: &mut &[u8]) -> Result<Self, String>;
	/// A part of the value that the format refuses to encode or decode.
	fn refuse(&self) -> Option<u32> {
		None
	}
}

pub fn take<'a>(r: &mut &'a [u8], n: usize) -> Result<&'a [u8], String> {
	if r.len() < n {
		return Err(format!("need {n} bytes, have {}", r.len()));
	}
	let (a, b) = r.split_at(n);
	*r = b;
	Ok(a)
}
pub fn byte(r: &mut &[u8]) -> Result<u8, String> {
	Ok(take(r, 1)?[0])
}
fn len(r: &mut &[u8]) -> Result<usize, String> {
	Ok(u32::from_le_bytes(take(r, 4)?.try_into().unwrap()) as usize)
}

#[derive(Debug, Clone, PartialEq)]
pub struct Fussy(pub u32);

impl Wire for () {
	fn name() -> String {
		"unit".into()
	}
	fn put(&self, _: &mut Vec<u8>) {}
	fn get(_: &mut &[u8]) -> Result<Self, String> {
		Ok(())
	}
}
impl Wire for u8 {
	fn name() -> String {
		"u8".into()
	}
	fn put(&self, out: &mut Vec<u8>) {
		out.push(*self);
	}
	fn get(r: &mut &[u8]) -> Result<Self, String> {
		byte(r)
	}
}
impl Wire for u32 {
	fn name() -> String {
		"u32".into()
	}
	fn put(&self, out: &mut Vec<u8>) {
		out.extend(self.to_le_bytes());
	}
	fn get(r: &mut &[u8]) -> Result<Self, String> {
		Ok(u32::from_le_bytes(take(r, 4)?.try_into().unwrap()))
	}
}
impl Wire for i64 {
	fn name() -> String {
		"i64".into()
	}
	fn put(&self, out: &mut Vec<u8>) {
		out.extend(self.to_le_bytes());
	}
	fn get(r: &mut &[u8]) -> Result<Self, String> {
		Ok(i64::from_le_bytes(take(r, 8)?.try_into().unwrap()))
	}
}
impl Wire for bool {
	fn name() -> String {
		"bool".into()
	}
	fn put(&self, out: &mut Vec<u8>) {
		out.push(*self as u8);
	}
	fn get(r: &mut &[u8]) -> Result<Self, String> {
		match byte(r)? {
			0 => Ok(false),
			1 => Ok(true),
			x => Err(format!("bad bool {x}")),
		}
	}
}
impl Wire for String {
	fn name() -> String {
		"str".into()
	}
	fn put(&self, out: &mut Vec<u8>) {
		out.extend((self.len() as u32).to_le_bytes());
		out.extend(self.as_bytes());
	}
	fn get(r: &mut &[u8]) -> Result<Self, String> {
		let n = len(r)?;
		String::from_utf8(take(r, n)?.to_vec()).map_err(|e| e.to_string())
	}
}
/// Parts that can not be decoded come before those that can not be encoded.
pub fn worst(a: Option<u32>, b: Option<u32>) -> Option<u32> {
	a.into_iter().chain(b).min()
}

impl Wire for Fussy {
	fn name() -> String {
		"fussy".into()
	}
	fn put(&self, out: &mut Vec<u8>) {
		out.extend(self.0.to_le_bytes());
	}
	fn get(r: &mut &[u8]) -> Result<Self, String> {
		Ok(Fussy(u32::get(r)?))
	}
	fn refuse(&self) -> Option<u32> {
		(self.0 >> 28 == 0xe || self.0 >> 28 == 0xd).then_some(self.0)
	}
}
impl<T: Wire> Wire for Vec<T> {
	fn name() -> String {
		format!("vec<{}>", T::name())
	}
	fn put(&self, out: &mut Vec<u8>) {
		out.extend((self.len() as u32).to_le_bytes());
		self.iter().for_each(|x| x.put(out));
	}
	fn get(r: &mut &[u8]) -> Result<Self, String> {
		let n = len(r)?;
		if n > 1000 {
			return Err(format!("list of {n} items"));
		}
		(0..n).map(|_| T::get(r)).collect()
	}
	fn refuse(&self) -> Option<u32> {
		self.iter().fold(None, |a, x| worst(a, x.refuse()))
	}
}
impl<T: Wire> Wire for Option<T> {
	fn name() -> String {
		format!("opt<{}>", T::name())
	}
	fn put(&self, out: &mut Vec<u8>) {
		out.push(self.is_some() as u8);
		if let Some(x) = self {
			x.put(out);
		}
	}
	fn get(r: &mut &[u8]) -> Result<Self, String> {
		match byte(r)? {
			0 => Ok(None),
			1 => Ok(Some(T::get(r)?)),
			x => Err(format!("bad option {x}")),
		}
	}
	fn refuse(&self) -> Option<u32> {
		self.as_ref().and_then(|x| x.refuse())
	}
}
impl<T: Wire> Wire for Box<T> {
	fn name() -> String {
		format!("box<{}>", T::name())
	}
	fn put(&self, out: &mut Vec<u8>) {
		(**self).put(out);
	}
	fn get(r: &mut &[u8]) -> Result<Self, String> {
		T::get(r).map(Box::new)
	}
	fn refuse(&self) -> Option<u32> {
		(**self).refuse()
	}
}
impl<T: Wire> Wire for [T; 4] {
	fn name() -> String {
		format!("arr4<{}>", T::name())
	}
	fn put(&self, out: &mut Vec<u8>) {
		self.iter().for_each(|x| x.put(out));
	}
	fn get(r: &mut &[u8]) -> Result<Self, String> {
		Ok([T::get(r)?, T::get(r)?, T::get(r)?, T::get(r)?])
	}
	fn refuse(&self) -> Option<u32> {
		self.iter().fold(None, |a, x| worst(a, x.refuse()))
	}
}
macro_rules! tuple {
	($($t:ident $i:tt),*) => {
		impl<$($t: Wire),*> Wire for ($($t,)*) {
			fn name() -> String {
				format!("tuple<{}>", [$($t::name()),*].join(","))
			}
			fn put(&self, out: &mut Vec<u8>) {
				$(self.$i.put(out);)*
			}
			fn get(r: &mut &[u8]) -> Result<Self, String> {
				Ok(($($t::get(r)?,)*))
			}
			fn refuse(&self) -> Option<u32> {
				let r = None;
				$(let r = worst(r, self.$i.refuse());)*
				r
			}
		}
	};
}
tuple!(A 0);
tuple!(A 0, B 1);
tuple!(A 0, B 1, C 2);

/// An error of the format, with a text that names the cause.
#[derive(Debug)]
pub struct FormatError(pub String);
impl std::fmt::Display for FormatError {
	fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
		f.write_str(&self.0)
	}
}
impl std::error::Error for FormatError {}

thread_local! {
	static LAST_ERROR: RefCell<Option<String>> = const { RefCell::new(None) };
	static ALL_ERRORS: RefCell<std::collections::HashSet<String>> = RefCell::new(Default::default());
	static COMPLAINTS: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
	static COUNTER: RefCell<u64> = const { RefCell::new(0) };
}

fn format_error(text: String) -> Box<dyn std::error::Error + Send> {
	let n = COUNTER.with(|c| {
		*c.borrow_mut() += 1;
		*c.borrow()
	});
	let text = format!("{text} [{n}]");
	LAST_ERROR.with(|e| *e.borrow_mut() = Some(text.clone()));
	ALL_ERRORS.with(|e| e.borrow_mut().insert(text.clone()));
	Box::new(FormatError(text))
}

/// The text of the last error that the format reported.
pub fn take_format_error() -> Option<String> {
	LAST_ERROR.with(|e| e.borrow_mut().take())
}
/// Whether the format reported an error with this text (each text is unique).
pub fn was_format_error(text: &str) -> bool {
	ALL_ERRORS.with(|e| e.borrow().contains(text))
}
pub fn forget_format_errors() {
	ALL_ERRORS.with(|e| e.borrow_mut().clear());
}
pub fn complain(text: String) {
	COMPLAINTS.with(|c| c.borrow_mut().push(text));
}
pub fn take_complaints() -> Vec<String> {
	COMPLAINTS.with(|c| std::mem::take(&mut *c.borrow_mut()))
}

fn encode<T: Wire>(v: &T) -> Result<Vec<u8>, Box<dyn std::error::Error + Send>> {
	match v.refuse() {
		Some(x) => Err(format_error(format!("can not encode {x:#x}"))),
		None => Ok(bytes(v)),
	}
}
fn decode<T: Wire>(data: &[u8]) -> Result<T, Box<dyn std::error::Error + Send>> {
	let mut r = data;
	match T::get(&mut r) {
		Err(e) => Err(format_error(format!("can not decode: {e}"))),
		Ok(_) if !r.is_empty() => Err(format_error(format!("{} bytes too many", r.len()))),
		Ok(v) => match v.refuse() {
			Some(x) if x >> 28 == 0xd => Err(format_error(format!("can not decode {x:#x}"))),
			_ => Ok(v),
		},
	}
}

pub struct Bin;
pub struct BinUnix;

impl Format for Bin {
	type Body = StreamBody;
}
impl<T: Wire> EncodeBody<T> for Bin {
	fn encode_body(v: &T) -> Result<StreamBody, Box<dyn std::error::Error + Send>> {
		encode(v).map(Into::into)
	}
}
impl<T: Wire> DecodeBody<T> for Bin {
	fn decode_body(b: StreamBody) -> Result<T, Box<dyn std::error::Error + Send>> {
		decode(&b.data)
	}
}
impl intro::IntrospectableFormat for Bin {
	type TypeInfo = String;
}
impl<T: Wire> intro::FormatTypeInfo<T> for Bin {
	fn type_info() -> String {
		T::name()
	}
}
impl Format for BinUnix {
	type Body = UnixBody;
}
impl<T: Wire> EncodeBody<T> for BinUnix {
	fn encode_body(v: &T) -> Result<UnixBody, Box<dyn std::error::Error + Send>> {
		encode(v).map(Into::into)
	}
}
impl<T: Wire> DecodeBody<T> for BinUnix {
	fn decode_body(b: UnixBody) -> Result<T, Box<dyn std::error::Error + Send>> {
		if !b.fds.is_empty() {
			return Err(format_error("unexpected file descriptors".into()));
		}
		decode(&b.data)
	}
}
impl intro::IntrospectableFormat for BinUnix {
	type TypeInfo = String;
}
impl<T: Wire> intro::FormatTypeInfo<T> for BinUnix {
	fn type_info() -> String {
		T::name()
	}
}

pub fn bytes<T: Wire>(v: &T) -> Vec<u8> {
	let mut out = Vec::new();
	v.put(&mut out);
	out
}
pub fn val<T: Wire>(mut data: &[u8]) -> T {
	let v = T::get(&mut data).expect("harness: value");
	assert!(data.is_empty(), "harness: value with {} bytes too many", data.len());
	v
}

pub enum Called<B: 'static> {
	Response(Vec<u8>),
	Sent(Box<dyn DynSent<B>>),
}

pub trait DynClient<B: 'static> {
	fn stream<'a>(&'a self, i: usize, v: &'a [u8]) -> Fut<'a, Result<(), Error>>;
	fn call<'a>(&'a self, i: usize, v: &'a [u8]) -> Fut<'a, Result<Called<B>, Error>>;
	fn dup(&self) -> Box<dyn DynClient<B>>;
	fn close(self: Box<Self>);
	fn close_handle(&self) -> PeerCloseHandle<B>;
	fn debug(&self) -> String;
}

pub trait DynSent<B: 'static> {
	fn ids(&self) -> (u32, i32);
	fn send_update<'a>(&'a self, i: usize, v: &'a [u8]) -> Fut<'a, Result<(), Error>>;
	fn recv_update<'a>(&'a mut self) -> Fut<'a, Option<Result<(usize, Vec<u8>), ParseUpdateError<B>>>>;
	fn recv_response<'a>(&'a mut self) -> Fut<'a, Result<Vec<u8>, Error>>;
	fn writer(&self) -> Box<dyn DynSentWriter>;
	fn debug(&self) -> String;
	fn raw(&self) -> Option<fizyr_rpc::SentRequestWriteHandle<B>> {
		None
	}
}

pub trait DynSentWriter {
	fn ids(&self) -> (u32, i32);
	fn send_update<'a>(&'a self, i: usize, v: &'a [u8]) -> Fut<'a, Result<(), Error>>;
	fn dup(&self) -> Box<dyn DynSentWriter>;
}

pub enum Got<B: 'static> {
	Stream(usize, Vec<u8>),
	Request(usize, Vec<u8>, Box<dyn DynRcvd<B>>),
}

pub trait DynServer<B: 'static> {
	fn recv<'a>(&'a mut self) -> Fut<'a, Result<Got<B>, RecvMessageError<B>>>;
	fn close(self: Box<Self>);
	fn close_handle(&self) -> PeerCloseHandle<B>;
}

pub trait DynRcvd<B: 'static> {
	fn ids(&self) -> (u32, i32);
	fn send_update<'a>(&'a self, i: usize, v: &'a [u8]) -> Fut<'a, Result<(), Error>>;
	fn recv_update<'a>(&'a mut self) -> Fut<'a, Option<Result<(usize, Vec<u8>), ParseUpdateError<B>>>>;
	fn send_response<'a>(&'a self, v: &'a [u8]) -> Fut<'a, Result<(), Error>>;
	fn send_error<'a>(&'a self, text: &'a str) -> Fut<'a, Result<(), Error>>;
	fn writer(&self) -> Box<dyn DynRcvdWriter>;
	fn raw(&self) -> Option<fizyr_rpc::ReceivedRequestWriteHandle<B>> {
		None
	}
}

pub trait DynRcvdWriter {
	fn ids(&self) -> (u32, i32);
	fn send_update<'a>(&'a self, i: usize, v: &'a [u8]) -> Fut<'a, Result<(), Error>>;
	fn send_response<'a>(&'a self, v: &'a [u8]) -> Fut<'a, Result<(), Error>>;
	fn send_error<'a>(&'a self, text: &'a str) -> Fut<'a, Result<(), Error>>;
	fn dup(&self) -> Box<dyn DynRcvdWriter>;
}

/// Decode a message as one of the message enums, look at it through `into_*` of variant `j`.
pub type EnumProbe<B> = fn(Message<B>, usize) -> Result<EnumSeen, Error>;
pub struct EnumSeen {
	pub variant: usize,
	pub value: Vec<u8>,
	pub is: Vec<bool>,
	pub as_: Vec<Option<Vec<u8>>>,
	/// `encode_message` of the value.
	pub encoded: Result<(i32, Vec<u8>), String>,
	pub into: Result<Vec<u8>, Error>,
	pub debug: String,
}

pub struct Entry<B: 'static> {
	pub client: fn(PeerWriteHandle<B>) -> Box<dyn DynClient<B>>,
	pub client_new: fn(PeerWriteHandle<B>) -> Box<dyn DynClient<B>>,
	pub client_whole: fn(PeerHandle<B>) -> Box<dyn DynClient<B>>,
	pub server: fn(PeerReadHandle<B>) -> Box<dyn DynServer<B>>,
	pub server_whole: fn(PeerHandle<B>) -> Box<dyn DynServer<B>>,
	/// Streams (if any), then per service with updates: request updates, response updates (if any).
	pub enums: Vec<EnumProbe<B>>,
}

pub enum AnyEntry {
	Stream(Entry<StreamBody>),
	Unix(Entry<UnixBody>),
}

/// Introspection data of a compiled interface.
pub struct Seen {
	pub name: &'static str,
	pub doc: &'static str,
	pub definition: intro::InterfaceDefinition<String>,
	pub services: Vec<intro::ServiceDefinition<String>>,
	pub streams: Vec<intro::StreamDefinition<String>>,
}

pub struct Compiled {
	pub index: usize,
	pub seen: fn() -> Seen,
	pub entry: Option<fn() -> AnyEntry>,
}

pub trait IntoBytes {
	fn into_bytes(self) -> Vec<u8>;
}
impl IntoBytes for StreamBody {
	fn into_bytes(self) -> Vec<u8> {
		self.data
	}
}
impl IntoBytes for UnixBody {
	fn into_bytes(self) -> Vec<u8> {
		self.data
	}
}
