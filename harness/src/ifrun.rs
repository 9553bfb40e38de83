//! Drives generated interfaces end to end (C22, C23) and compares introspection data with the definitions (C24).
//! Each side of a connection is either generated code or raw peer handles with an independent table of the declared IDs.

use crate::iface::*;
use crate::ifgen::*;
use crate::kit::*;
use crate::report::*;
use crate::rng::{hash_bytes, Rng};
use crate::sim::*;
use crate::util::*;
use fizyr_rpc::{Body, MessageType, Peer, ReceivedMessage, ReceivedRequestHandle, ReceivedRequestWriteHandle, SentRequestHandle, SentRequestWriteHandle};
use std::collections::VecDeque;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
enum Kind {
	Known(usize, Vec<u8>),
	Unknown(i32, Vec<u8>),
	Invalid(i32, Vec<u8>),
}

fn classify(def: &Def, id: i32, body: &[u8], table: &[(i32, &Ty)]) -> Kind {
	match table.iter().position(|(i, _)| *i == id) {
		None => Kind::Unknown(id, body.to_vec()),
		Some(k) if def.decodes(table[k].1, body) => Kind::Known(k, body.to_vec()),
		Some(_) => Kind::Invalid(id, body.to_vec()),
	}
}

fn table<'a>(msgs: &[&'a Msg]) -> Vec<(i32, &'a Ty)> {
	msgs.iter().map(|m| (m.id, &m.ty)).collect()
}

// ---- raw sides ----

struct RawClient<K: Kit> {
	h: PeerWriteHandle<K::B>,
	def: Rc<Def>,
}
struct RawSent<K: Kit> {
	h: SentRequestHandle<K::B>,
	def: Rc<Def>,
	svc: Option<usize>,
}
struct RawSentWriter<K: Kit> {
	h: SentRequestWriteHandle<K::B>,
	def: Rc<Def>,
	svc: Option<usize>,
}
struct RawServer<K: Kit> {
	h: PeerReadHandle<K::B>,
	def: Rc<Def>,
}
struct RawRcvd<K: Kit> {
	h: ReceivedRequestHandle<K::B>,
	def: Rc<Def>,
	svc: usize,
}
struct RawRcvdWriter<K: Kit> {
	h: ReceivedRequestWriteHandle<K::B>,
	def: Rc<Def>,
	svc: usize,
}

impl<K: Kit> DynClient<K::B> for RawClient<K> {
	fn stream<'a>(&'a self, i: usize, v: &'a [u8]) -> Fut<'a, Result<(), Error>> {
		Box::pin(async move { self.h.send_stream(self.def.streams[i].id, K::body(v.to_vec())).await })
	}
	fn call<'a>(&'a self, i: usize, v: &'a [u8]) -> Fut<'a, Result<Called<K::B>, Error>> {
		Box::pin(async move {
			let h = self.h.send_request(self.def.services[i].id, K::body(v.to_vec())).await?;
			Ok(Called::Sent(Box::new(RawSent::<K> { h, def: self.def.clone(), svc: Some(i) }) as Box<dyn DynSent<K::B>>))
		})
	}
	fn dup(&self) -> Box<dyn DynClient<K::B>> {
		Box::new(RawClient::<K> { h: self.h.clone(), def: self.def.clone() })
	}
	fn close(self: Box<Self>) {
		self.h.close()
	}
	fn close_handle(&self) -> PeerCloseHandle<K::B> {
		self.h.close_handle()
	}
	fn debug(&self) -> String {
		String::new()
	}
}

fn by_table<K: Kit>(def: &Def, m: Message<K::B>, msgs: &[&Msg], ty: MessageType, id: u32) -> Result<(usize, Vec<u8>), ParseUpdateError<K::B>> {
	if m.header.message_type != ty || m.header.request_id != id {
		complain(format!("update of request {id} arrives as {:?}", m.header));
	}
	match classify(def, m.header.service_id, K::data(&m.body), &table(msgs)) {
		Kind::Known(k, v) => Ok((k, v)),
		Kind::Unknown(..) => Err(ParseUpdateError::UnknownUpdate(m)),
		Kind::Invalid(..) => Err(ParseUpdateError::InvalidUpdate(m.header, Box::new(FormatError("invalid".into())))),
	}
}

impl<K: Kit> DynSent<K::B> for RawSent<K> {
	fn ids(&self) -> (u32, i32) {
		(self.h.request_id(), self.h.service_id())
	}
	fn send_update<'a>(&'a self, i: usize, v: &'a [u8]) -> Fut<'a, Result<(), Error>> {
		Box::pin(async move { self.h.send_update(self.def.services[self.svc.unwrap()].req_updates()[i].id, K::body(v.to_vec())).await })
	}
	fn recv_update<'a>(&'a mut self) -> Fut<'a, Option<Result<(usize, Vec<u8>), ParseUpdateError<K::B>>>> {
		Box::pin(async move {
			let m = self.h.recv_update().await?;
			let msgs = self.svc.map(|s| self.def.services[s].resp_updates()).unwrap_or_default();
			Some(by_table::<K>(&self.def, m, &msgs, MessageType::ResponderUpdate, self.h.request_id()))
		})
	}
	fn recv_response<'a>(&'a mut self) -> Fut<'a, Result<Vec<u8>, Error>> {
		Box::pin(async move {
			let m = self.h.recv_response().await?;
			if m.header.service_id == -1 {
				return Err(Error::remote_error(String::from_utf8(K::data(&m.body).to_vec()).unwrap_or_else(|e| format!("{e}"))));
			}
			if let Some(s) = self.svc {
				if m.header.service_id != self.def.services[s].id || m.header.message_type != MessageType::Response {
					complain(format!("response of service {} has header {:?}", self.def.services[s].id, m.header));
				}
			}
			Ok(K::data(&m.body).to_vec())
		})
	}
	fn writer(&self) -> Box<dyn DynSentWriter> {
		Box::new(RawSentWriter::<K> { h: self.h.write_handle(), def: self.def.clone(), svc: self.svc })
	}
	fn debug(&self) -> String {
		String::new()
	}
	fn raw(&self) -> Option<SentRequestWriteHandle<K::B>> {
		Some(self.h.write_handle())
	}
}

impl<K: Kit> DynSentWriter for RawSentWriter<K> {
	fn ids(&self) -> (u32, i32) {
		(self.h.request_id(), self.h.service_id())
	}
	fn send_update<'a>(&'a self, i: usize, v: &'a [u8]) -> Fut<'a, Result<(), Error>> {
		Box::pin(async move { self.h.send_update(self.def.services[self.svc.unwrap()].req_updates()[i].id, K::body(v.to_vec())).await })
	}
	fn dup(&self) -> Box<dyn DynSentWriter> {
		Box::new(RawSentWriter::<K> { h: self.h.clone(), def: self.def.clone(), svc: self.svc })
	}
}

impl<K: Kit> DynServer<K::B> for RawServer<K> {
	fn recv<'a>(&'a mut self) -> Fut<'a, Result<Got<K::B>, RecvMessageError<K::B>>> {
		Box::pin(async move {
			match self.h.recv_message().await? {
				ReceivedMessage::Stream(m) => match classify(&self.def, m.header.service_id, K::data(&m.body), &table(&self.def.streams.iter().collect::<Vec<_>>())) {
					Kind::Known(k, v) => Ok(Got::Stream(k, v)),
					Kind::Unknown(..) => Err(RecvMessageError::UnknownStream(m)),
					Kind::Invalid(..) => Err(RecvMessageError::InvalidStream(m.header, Box::new(FormatError("invalid".into())))),
				},
				ReceivedMessage::Request(h, body) => {
					let t: Vec<(i32, &Ty)> = self.def.services.iter().map(|s| (s.id, &s.req)).collect();
					match classify(&self.def, h.service_id(), K::data(&body), &t) {
						Kind::Known(k, v) => Ok(Got::Request(k, v, Box::new(RawRcvd::<K> { h, def: self.def.clone(), svc: k }))),
						Kind::Unknown(..) => Err(RecvMessageError::UnknownRequest(h, body)),
						Kind::Invalid(..) => Err(RecvMessageError::InvalidRequest(h, Box::new(FormatError("invalid".into())))),
					}
				}
			}
		})
	}
	fn close(self: Box<Self>) {
		self.h.close()
	}
	fn close_handle(&self) -> PeerCloseHandle<K::B> {
		self.h.close_handle()
	}
}

impl<K: Kit> DynRcvd<K::B> for RawRcvd<K> {
	fn ids(&self) -> (u32, i32) {
		(self.h.request_id(), self.h.service_id())
	}
	fn send_update<'a>(&'a self, i: usize, v: &'a [u8]) -> Fut<'a, Result<(), Error>> {
		Box::pin(async move { self.h.send_update(self.def.services[self.svc].resp_updates()[i].id, K::body(v.to_vec())).await })
	}
	fn recv_update<'a>(&'a mut self) -> Fut<'a, Option<Result<(usize, Vec<u8>), ParseUpdateError<K::B>>>> {
		Box::pin(async move {
			let m = self.h.recv_update().await?;
			Some(by_table::<K>(&self.def, m, &self.def.services[self.svc].req_updates(), MessageType::RequesterUpdate, self.h.request_id()))
		})
	}
	fn send_response<'a>(&'a self, v: &'a [u8]) -> Fut<'a, Result<(), Error>> {
		Box::pin(async move { self.h.send_response(self.def.services[self.svc].id, K::body(v.to_vec())).await })
	}
	fn send_error<'a>(&'a self, text: &'a str) -> Fut<'a, Result<(), Error>> {
		Box::pin(async move { self.h.send_error_response(text).await })
	}
	fn writer(&self) -> Box<dyn DynRcvdWriter> {
		Box::new(RawRcvdWriter::<K> { h: self.h.write_handle(), def: self.def.clone(), svc: self.svc })
	}
	fn raw(&self) -> Option<ReceivedRequestWriteHandle<K::B>> {
		Some(self.h.write_handle())
	}
}

impl<K: Kit> DynRcvdWriter for RawRcvdWriter<K> {
	fn ids(&self) -> (u32, i32) {
		(self.h.request_id(), self.h.service_id())
	}
	fn send_update<'a>(&'a self, i: usize, v: &'a [u8]) -> Fut<'a, Result<(), Error>> {
		Box::pin(async move { self.h.send_update(self.def.services[self.svc].resp_updates()[i].id, K::body(v.to_vec())).await })
	}
	fn send_response<'a>(&'a self, v: &'a [u8]) -> Fut<'a, Result<(), Error>> {
		Box::pin(async move { self.h.send_response(self.def.services[self.svc].id, K::body(v.to_vec())).await })
	}
	fn send_error<'a>(&'a self, text: &'a str) -> Fut<'a, Result<(), Error>> {
		Box::pin(async move { self.h.send_error_response(text).await })
	}
	fn dup(&self) -> Box<dyn DynRcvdWriter> {
		Box::new(RawRcvdWriter::<K> { h: self.h.clone(), def: self.def.clone(), svc: self.svc })
	}
}

// ---- scenario ----

enum In {
	Stream(Kind),
	Request(usize, Kind),
}

#[derive(Clone, Debug)]
enum Resp {
	Value(Vec<u8>),
	Error(String),
	BadValue,
	BadText,
}

enum ClientSide<B: 'static> {
	/// A call that only returns with the response.
	Task(Handle<Result<Called<B>, Error>>),
	Sent(Box<dyn DynSent<B>>),
	Gone,
}

enum ServerSide<B: 'static> {
	Queued,
	Known(Box<dyn DynRcvd<B>>),
	/// A request that the interface does not know, or could not decode.
	Raw(ReceivedRequestHandle<B>),
	Done,
}

struct Call<B: 'static> {
	svc: Option<usize>,
	client: ClientSide<B>,
	server: ServerSide<B>,
	c2s: VecDeque<Kind>,
	s2c: VecDeque<Kind>,
	resp: Option<Resp>,
}

struct World<K: Kit> {
	sim: Sim,
	rng: Rng,
	obs: Obs,
	def: Rc<Def>,
	client: Option<Box<dyn DynClient<K::B>>>,
	server: Option<Box<dyn DynServer<K::B>>>,
	raw_client: Option<PeerWriteHandle<K::B>>,
	gen_client: bool,
	gen_server: bool,
	inbox: VecDeque<In>,
	calls: Vec<Call<K::B>>,
	limit: usize,
	hostile: bool,
	trace: Vec<String>,
}

fn show(k: &Kind) -> String {
	match k {
		Kind::Known(i, v) => format!("#{i} {}", hex(v)),
		Kind::Unknown(i, v) => format!("unknown ID {i} {}", hex(v)),
		Kind::Invalid(i, v) => format!("undecodable ID {i} {}", hex(v)),
	}
}
fn hex(v: &[u8]) -> String {
	let s: String = v.iter().take(16).map(|b| format!("{b:02x}")).collect();
	format!("[{}:{s}]", v.len())
}

impl<K: Kit> World<K>
where
	K::B: IntoBytes,
{
	fn fail(&mut self, key: &str, d: String) {
		let t = self.trace.iter().rev().take(30).rev().cloned().collect::<Vec<_>>().join("; ");
		self.obs.violate(key, format!("{} client={} server={}: {d}; history: {t}; interface: {}", K::NAME, if self.gen_client { "generated" } else { "raw" }, if self.gen_server { "generated" } else { "raw" }, self.def.source().replace('\n', " ")));
	}
	fn failed(&self) -> bool {
		!self.obs.violations.is_empty()
	}
	fn step(&mut self, s: String) {
		self.trace.push(s);
	}

	async fn until(&mut self, done: impl Fn() -> bool) -> bool {
		for i in 0..60 {
			self.sim.settle(100_000).await;
			if done() {
				return true;
			}
			if !K::TCP && i > 3 {
				return false;
			}
			std::thread::sleep(std::time::Duration::from_millis(i));
		}
		false
	}

	async fn settle(&mut self) {
		self.sim.settle(100_000).await;
		if K::TCP {
			std::thread::sleep(std::time::Duration::from_micros(300));
			self.sim.settle(100_000).await;
		}
	}

	async fn op<T: 'static>(&mut self, what: &str, f: impl std::future::Future<Output = T> + 'static) -> Option<T> {
		let h = self.sim.spawn(what, f);
		self.until(|| h.is_done()).await;
		let r = h.take();
		if r.is_none() {
			h.cancel();
			let sim = self.sim.clone();
			check_panics(&sim, &mut self.obs);
			if !self.failed() {
				self.fail("hang", format!("{what} does not complete"));
			}
		}
		r
	}

	/// The result of sending a value through the API.
	fn sent(&mut self, what: &str, r: Result<(), Error>, poison: bool, len: usize) -> bool {
		let fe = take_format_error();
		match (r, poison) {
			(Ok(()), false) if len <= self.limit => return true,
			(Err(e), true) => {
				if fe.as_deref() != Some(e.to_string().as_str()) || e.is_remote_error() || e.is_connection_aborted() || e.is_unexpected_message_type() {
					self.fail("encode-error", format!("{what}: the format refuses with {fe:?}, the call reports {e:?}"));
				}
				self.obs.count("encode_errors", 1);
			}
			(Err(e), false) if len > self.limit => {
				if e.is_remote_error() || e.is_connection_aborted() {
					self.fail("oversize-error", format!("{what}: {e:?} for a body of {len} bytes with a limit of {}", self.limit));
				}
				self.obs.count("oversize_errors", 1);
			}
			(r, p) => self.fail("send", format!("{what}: {r:?} (value refused by the format: {p}, {len} bytes, limit {})", self.limit)),
		}
		false
	}

	fn value(&mut self, ty: &Ty, generated: bool) -> (Vec<u8>, bool) {
		let def = self.def.clone();
		let poison = generated && self.rng.chance(1, if self.hostile { 4 } else { 40 }) && def.fussy(ty);
		(def.value(ty, &mut self.rng, poison as u32), poison)
	}

	/// Body and ID that do not fit the interface, or only by chance.
	fn odd(&mut self, t: &[(i32, &Ty)]) -> (i32, Vec<u8>) {
		let def = self.def.clone();
		if !t.is_empty() && self.rng.chance(1, 2) {
			let (id, ty) = *self.rng.pick(t);
			return (id, def.invalid(ty, &mut self.rng));
		}
		let id = match self.rng.below(4) {
			0 if !t.is_empty() => self.rng.pick(t).0.wrapping_add(self.rng.below(3) as i32 - 1),
			1 => -1,
			_ => any_i32(&mut self.rng),
		};
		let body = match t.iter().find(|x| x.0 == id) {
			Some((_, ty)) => def.value(ty, &mut self.rng, 0),
			None => {
				let n = self.rng.below(12);
				self.rng.bytes(n)
			}
		};
		(id, body)
	}

	async fn send_stream(&mut self) {
		let def = self.def.clone();
		if self.hostile && self.raw_client.is_some() && self.rng.chance(1, 2) {
			let t: Vec<(i32, &Ty)> = def.streams.iter().map(|m| (m.id, &m.ty)).collect();
			let (id, body) = self.odd(&t);
			let kind = classify(&def, id, &body, &t);
			self.step(format!("raw stream {}", show(&kind)));
			let h = self.raw_client.clone().unwrap();
			if let Some(r) = self.op("send stream", async move { h.send_stream(id, K::body(body)).await }).await {
				if r.is_ok() {
					self.inbox.push_back(In::Stream(kind));
				}
			}
			return;
		}
		if def.streams.is_empty() {
			return;
		}
		let i = self.rng.below(def.streams.len());
		let (v, poison) = self.value(&def.streams[i].ty, self.gen_client);
		self.step(format!("stream {} {}", def.streams[i].name, hex(&v)));
		let c = self.client.as_ref().unwrap().dup();
		let v2 = v.clone();
		let Some(r) = self.op("send stream", async move { c.stream(i, &v2).await }).await else { return };
		if self.sent("send stream", r, poison, v.len()) {
			self.obs.count("streams", 1);
			self.inbox.push_back(In::Stream(Kind::Known(i, v)));
		}
	}

	async fn send_request(&mut self) {
		let def = self.def.clone();
		let n = self.calls.len();
		let fresh = |svc, client| Call { svc, client, server: ServerSide::Queued, c2s: VecDeque::new(), s2c: VecDeque::new(), resp: None };
		if self.hostile && self.raw_client.is_some() && self.rng.chance(1, 2) {
			let t: Vec<(i32, &Ty)> = def.services.iter().map(|m| (m.id, &m.req)).collect();
			let (id, body) = self.odd(&t);
			let kind = classify(&def, id, &body, &t);
			self.step(format!("call {n}: raw request {}", show(&kind)));
			let h = self.raw_client.clone().unwrap();
			if let Some(Ok(h)) = self.op("send request", async move { h.send_request(id, K::body(body)).await }).await {
				let svc = if let Kind::Known(i, _) = &kind { Some(*i) } else { None };
				self.calls.push(fresh(svc, ClientSide::Sent(Box::new(RawSent::<K> { h, def: def.clone(), svc }))));
				self.inbox.push_back(In::Request(n, kind));
			}
			return;
		}
		if def.services.is_empty() {
			return;
		}
		let i = self.rng.below(def.services.len());
		let (v, poison) = self.value(&def.services[i].req, self.gen_client);
		self.step(format!("call {n}: {} {}", def.services[i].name, hex(&v)));
		let c = self.client.as_ref().unwrap().dup();
		let v2 = v.clone();
		let h = self.sim.spawn("call", async move { c.call(i, &v2).await });
		let waits = self.gen_client && def.services[i].updates.is_empty();
		let bad = poison || v.len() > self.limit;
		if !waits || bad {
			if !self.until(|| h.is_done()).await {
				return self.fail("hang", "a call does not complete".into());
			}
			match h.take().unwrap() {
				Ok(Called::Sent(s)) if !bad => {
					let _ = s.debug();
					if s.ids().1 != def.services[i].id {
						self.fail("ids", format!("the sent request for service {} says {:?}", def.services[i].id, s.ids()));
					}
					self.calls.push(fresh(Some(i), ClientSide::Sent(s)));
					self.inbox.push_back(In::Request(n, Kind::Known(i, v)));
					self.obs.count("calls", 1);
				}
				Err(e) => {
					self.sent("call", Err(e), poison, v.len());
				}
				Ok(_) => self.fail("call", "a call returned without a response, or although the value can not be sent".into()),
			}
			return;
		}
		self.settle().await;
		if h.is_done() {
			let r = h.take().map(|r| r.map(|_| ()));
			return self.fail("early-response", format!("call {n} returned {r:?} without a response"));
		}
		self.calls.push(fresh(Some(i), ClientSide::Task(h)));
		self.inbox.push_back(In::Request(n, Kind::Known(i, v)));
		self.obs.count("calls", 1);
	}

	async fn server_recv(&mut self) {
		let Some(expect) = self.inbox.pop_front() else { return };
		let Some(mut s) = self.server.take() else { return };
		take_format_error();
		let Some((s, r)) = self.op("receive message", async move { let r = s.recv().await; (s, r) }).await else { return };
		self.server = Some(s);
		let fe = take_format_error();
		let what = match &expect {
			In::Stream(k) => format!("stream {}", show(k)),
			In::Request(n, k) => format!("request of call {n} {}", show(k)),
		};
		self.step(format!("receive {what}"));
		let seen = match &r {
			Ok(Got::Stream(i, v)) => format!("stream #{i} {}", hex(v)),
			Ok(Got::Request(i, v, h)) => format!("request #{i} {} {:?}", hex(v), h.ids()),
			Err(e) => format!("{e:?}"),
		};
		if let Err(e) = &r {
			let text = e.to_string();
			let (label, id) = match e {
				RecvMessageError::Other(_) => ("Other", None),
				RecvMessageError::UnknownStream(m) => ("UnknownStream", Some(m.header.service_id)),
				RecvMessageError::UnknownRequest(h, _) => ("UnknownRequest", Some(h.service_id())),
				RecvMessageError::InvalidStream(h, _) => ("InvalidStream", Some(h.service_id)),
				RecvMessageError::InvalidRequest(h, _) => ("InvalidRequest", Some(h.service_id())),
			};
			if !format!("{e:?}").starts_with(label) || id.map(|i| !text.contains(&i.to_string())).unwrap_or(false) {
				self.fail("error-text", format!("{label} for ID {id:?} is shown as {e:?} and {text:?}"));
			}
			if e.request_handle().is_some() != label.ends_with("Request") || e.is_connection_aborted() {
				self.fail("error-accessors", format!("accessors of {e:?}"));
			}
		}
		let good = match (expect, r) {
			(In::Stream(Kind::Known(i, v)), Ok(Got::Stream(j, w))) => i == j && v == w,
			(In::Request(n, Kind::Known(i, v)), Ok(Got::Request(j, w, h))) => {
				let mut ok = i == j && v == w && h.ids().1 == self.def.services[i].id;
				if let ClientSide::Sent(s) = &self.calls[n].client {
					ok &= s.ids() == h.ids();
				}
				self.calls[n].server = ServerSide::Known(h);
				ok
			}
			(In::Stream(Kind::Unknown(id, v)), Err(RecvMessageError::UnknownStream(m))) => {
				self.obs.count("unknown_streams", 1);
				m.header.service_id == id && K::data(&m.body) == &v[..] && m.header.message_type == MessageType::Stream
			}
			(In::Stream(Kind::Invalid(id, _)), Err(RecvMessageError::InvalidStream(h, e))) => {
				self.obs.count("invalid_streams", 1);
				h.service_id == id && (!self.gen_server || fe.as_deref() == Some(&e.to_string()))
			}
			(In::Request(n, Kind::Unknown(id, v)), Err(mut e)) => {
				let m = e.request_handle_mut().map(|h| h.service_id()) == Some(id);
				match e {
					RecvMessageError::UnknownRequest(h, b) => {
						self.obs.count("unknown_requests", 1);
						let ok = h.service_id() == id && K::data(&b) == &v[..] && m;
						self.calls[n].server = ServerSide::Raw(h);
						ok
					}
					_ => false,
				}
			}
			(In::Request(n, Kind::Invalid(id, _)), Err(RecvMessageError::InvalidRequest(h, e))) => {
				self.obs.count("invalid_requests", 1);
				let ok = h.service_id() == id && (!self.gen_server || fe.as_deref() == Some(&e.to_string()));
				self.calls[n].server = ServerSide::Raw(h);
				ok
			}
			_ => false,
		};
		if !good {
			self.fail("received", format!("expected {what}, got {seen}"));
		}
		self.obs.count("received", 1);
	}

	fn pick_call(&mut self, f: impl Fn(&Call<K::B>) -> bool) -> Option<usize> {
		let v: Vec<usize> = (0..self.calls.len()).filter(|i| f(&self.calls[*i])).collect();
		if v.is_empty() {
			None
		} else {
			Some(*self.rng.pick(&v))
		}
	}

	async fn client_update(&mut self) {
		let Some(n) = self.pick_call(|c| matches!(c.client, ClientSide::Sent(_)) && c.resp.is_none()) else { return };
		let def = self.def.clone();
		let msgs = self.calls[n].svc.map(|s| def.services[s].req_updates()).unwrap_or_default();
		let ClientSide::Sent(s) = &self.calls[n].client else { unreachable!() };
		let raw = s.raw();
		if self.hostile && raw.is_some() && self.rng.chance(1, 2) {
			let t = table(&msgs);
			let (id, body) = self.odd(&t);
			let kind = classify(&def, id, &body, &t);
			self.step(format!("call {n}: raw update {}", show(&kind)));
			let h = raw.unwrap();
			if let Some(Ok(())) = self.op("send update", async move { h.send_update(id, K::body(body)).await }).await {
				self.calls[n].c2s.push_back(kind);
			}
			return;
		}
		if msgs.is_empty() {
			return;
		}
		let u = self.rng.below(msgs.len());
		let (v, poison) = self.value(&msgs[u].ty, self.gen_client);
		self.step(format!("call {n}: update {} {}", msgs[u].name, hex(&v)));
		let how = self.rng.below(3);
		let ClientSide::Sent(s) = std::mem::replace(&mut self.calls[n].client, ClientSide::Gone) else { unreachable!() };
		let v2 = v.clone();
		let r = self
			.op("send update", async move {
				let r = match how {
					0 => s.send_update(u, &v2).await,
					1 => s.writer().send_update(u, &v2).await,
					_ => {
						let w = s.writer().dup();
						if w.ids() != s.ids() {
							complain("IDs of a request handle and its write handle differ".into());
						}
						w.send_update(u, &v2).await
					}
				};
				(s, r)
			})
			.await;
		let Some((s, r)) = r else { return };
		self.calls[n].client = ClientSide::Sent(s);
		if self.sent("send update", r, poison, v.len()) {
			self.obs.count("request_updates", 1);
			self.calls[n].c2s.push_back(Kind::Known(u, v));
		}
	}

	fn check_update(&mut self, n: usize, dir: &str, expect: Kind, got: Option<Result<(usize, Vec<u8>), ParseUpdateError<K::B>>>, generated: bool) {
		let fe = take_format_error();
		let seen = match &got {
			None => "none".to_string(),
			Some(Ok((i, v))) => format!("#{i} {}", hex(v)),
			Some(Err(e)) => format!("{e:?}"),
		};
		self.step(format!("call {n}: receive {dir} update {}", show(&expect)));
		let good = match (&expect, got) {
			(Kind::Known(i, v), Some(Ok((j, w)))) => *i == j && *v == w,
			(Kind::Unknown(id, v), Some(Err(e))) => {
				let text = e.to_string().contains(&id.to_string()) && format!("{e:?}").starts_with("UnknownUpdate");
				match e {
					ParseUpdateError::UnknownUpdate(m) => {
						self.obs.count("unknown_updates", 1);
						m.header.service_id == *id && K::data(&m.body) == &v[..] && text
					}
					_ => false,
				}
			}
			(Kind::Invalid(id, _), Some(Err(e))) => {
				let text = e.to_string().contains(&id.to_string()) && format!("{e:?}").starts_with("InvalidUpdate");
				match e {
					ParseUpdateError::InvalidUpdate(h, e) => {
						self.obs.count("invalid_updates", 1);
						h.service_id == *id && text && (!generated || fe.as_deref() == Some(&e.to_string()))
					}
					_ => false,
				}
			}
			_ => false,
		};
		if !good {
			self.fail("update", format!("call {n}: expected {dir} update {}, got {seen}", show(&expect)));
		}
		self.obs.count("updates_received", 1);
	}

	async fn server_recv_update(&mut self) {
		let def = self.def.clone();
		let gen = self.gen_server;
		let Some(n) = self.pick_call(|c| matches!(c.server, ServerSide::Known(_)) && !c.c2s.is_empty() && (!gen || !def.services[c.svc.unwrap()].req_updates().is_empty())) else { return };
		let expect = self.calls[n].c2s.pop_front().unwrap();
		let ServerSide::Known(mut h) = std::mem::replace(&mut self.calls[n].server, ServerSide::Done) else { unreachable!() };
		take_format_error();
		let Some((h, r)) = self.op("receive update", async move { let r = h.recv_update().await; (h, r) }).await else { return };
		self.calls[n].server = ServerSide::Known(h);
		self.check_update(n, "request", expect, r, gen);
	}

	async fn server_update(&mut self) {
		let Some(n) = self.pick_call(|c| matches!(c.server, ServerSide::Known(_) | ServerSide::Raw(_)) && c.resp.is_none()) else { return };
		let def = self.def.clone();
		let msgs = self.calls[n].svc.map(|s| def.services[s].resp_updates()).unwrap_or_default();
		let raw = match &self.calls[n].server {
			ServerSide::Known(h) => h.raw(),
			ServerSide::Raw(h) => Some(h.write_handle()),
			_ => None,
		};
		let waits = matches!(self.calls[n].client, ClientSide::Task(_));
		// A generated client can not receive updates of a service that has none.
		let deaf = self.gen_client && msgs.is_empty();
		if let (true, true, Some(h)) = (self.hostile, self.rng.chance(1, 2) || matches!(self.calls[n].server, ServerSide::Raw(_)), raw) {
			if deaf && !(waits && self.rng.chance(1, 4)) {
				return;
			}
			let t = table(&msgs);
			let (id, body) = self.odd(&t);
			let kind = classify(&def, id, &body, &t);
			self.step(format!("call {n}: raw response update {}", show(&kind)));
			if let Some(Ok(())) = self.op("send update", async move { h.send_update(id, K::body(body)).await }).await {
				self.calls[n].s2c.push_back(kind);
				if waits {
					// The call ends with an error that says so.
					let ClientSide::Task(t) = std::mem::replace(&mut self.calls[n].client, ClientSide::Gone) else { unreachable!() };
					if !self.until(|| t.is_done()).await {
						return self.fail("hang", format!("call {n} does not notice an unexpected update"));
					}
					match t.take().unwrap() {
						Err(e) if e.is_unexpected_message_type() && !e.is_remote_error() => self.obs.count("unexpected_types", 1),
						Err(e) => self.fail("unexpected-update", format!("call {n} got an update instead of a response and reports {e:?}")),
						Ok(_) => self.fail("unexpected-update", format!("call {n} got an update instead of a response and returned a value")),
					}
				}
			}
			return;
		}
		if msgs.is_empty() {
			return;
		}
		let u = self.rng.below(msgs.len());
		let (v, poison) = self.value(&msgs[u].ty, self.gen_server);
		self.step(format!("call {n}: response update {} {}", msgs[u].name, hex(&v)));
		let how = self.rng.below(3);
		let ServerSide::Known(h) = std::mem::replace(&mut self.calls[n].server, ServerSide::Done) else {
			return;
		};
		let v2 = v.clone();
		let r = self
			.op("send update", async move {
				let r = match how {
					0 => h.send_update(u, &v2).await,
					1 => h.writer().send_update(u, &v2).await,
					_ => {
						let w = h.writer().dup();
						if w.ids() != h.ids() {
							complain("IDs of a request handle and its write handle differ".into());
						}
						w.send_update(u, &v2).await
					}
				};
				(h, r)
			})
			.await;
		let Some((h, r)) = r else { return };
		self.calls[n].server = ServerSide::Known(h);
		if self.sent("send update", r, poison, v.len()) {
			self.obs.count("response_updates", 1);
			self.calls[n].s2c.push_back(Kind::Known(u, v));
		}
	}

	async fn client_recv_update(&mut self) {
		let def = self.def.clone();
		let gen = self.gen_client;
		let Some(n) = self.pick_call(|c| matches!(c.client, ClientSide::Sent(_)) && (!c.s2c.is_empty() || c.resp.is_some()) && (!gen || c.svc.map(|s| !def.services[s].resp_updates().is_empty()).unwrap_or(false))) else { return };
		let expect = self.calls[n].s2c.pop_front();
		let ClientSide::Sent(mut h) = std::mem::replace(&mut self.calls[n].client, ClientSide::Gone) else { unreachable!() };
		take_format_error();
		let Some((h, r)) = self.op("receive update", async move { let r = h.recv_update().await; (h, r) }).await else { return };
		self.calls[n].client = ClientSide::Sent(h);
		match expect {
			Some(k) => self.check_update(n, "response", k, r, gen),
			None => {
				self.step(format!("call {n}: no update before the response"));
				if r.is_some() {
					self.fail("update", format!("call {n}: an update after the last one"));
				}
			}
		}
	}

	async fn respond(&mut self) {
		let Some(n) = self.pick_call(|c| matches!(c.server, ServerSide::Known(_) | ServerSide::Raw(_)) && c.resp.is_none()) else { return };
		let def = self.def.clone();
		let text: String = {
			let k = self.rng.below(30);
			(0..k).map(|_| *self.rng.pick(&['x', ' ', 'ü', '"', '\n', '漢', '{', '}'])).collect()
		};
		let server = std::mem::replace(&mut self.calls[n].server, ServerSide::Done);
		let resp = match server {
			ServerSide::Raw(h) => {
				self.step(format!("call {n}: raw error response {text:?}"));
				let t = text.clone();
				let Some((h, r)) = self.op("send response", async move { let r = h.send_error_response(&t).await; (h, r) }).await else { return };
				match r {
					Ok(()) => Resp::Error(text),
					Err(_) if text.len() > self.limit => {
						self.calls[n].server = ServerSide::Raw(h);
						return;
					}
					r => return self.fail("send", format!("call {n}: error response to an unknown request: {r:?}")),
				}
			}
			ServerSide::Known(h) => {
				let raw = h.raw();
				let svc = self.calls[n].svc.unwrap();
				let ty = &def.services[svc].resp;
				if let (true, true, Some(raw)) = (self.hostile, self.rng.chance(1, 2), raw) {
					let (id, body, resp) = if self.rng.chance(1, 2) {
						(def.services[svc].id, def.invalid(ty, &mut self.rng), Resp::BadValue)
					} else {
						let mut b = vec![0xff];
						b.extend(self.rng.bytes(3));
						(-1, b, Resp::BadText)
					};
					if body.len() > self.limit {
						self.calls[n].server = ServerSide::Known(h);
						return;
					}
					self.step(format!("call {n}: raw response ID {id} {}", hex(&body)));
					match self.op("send response", async move { raw.send_response(id, K::body(body)).await }).await {
						Some(Ok(())) => resp,
						_ => return,
					}
				} else {
					let error = self.rng.chance(1, 3);
					let (v, poison) = self.value(ty, self.gen_server);
					let how = self.rng.below(3);
					self.step(if error { format!("call {n}: error response {text:?}") } else { format!("call {n}: response {}", hex(&v)) });
					let (v2, t2) = (v.clone(), text.clone());
					let r = self
						.op("send response", async move {
							let r = match (how, error) {
								(0, false) => h.send_response(&v2).await,
								(1, false) => h.writer().send_response(&v2).await,
								(_, false) => h.writer().dup().send_response(&v2).await,
								(0, true) => h.send_error(&t2).await,
								(1, true) => h.writer().send_error(&t2).await,
								(_, true) => h.writer().dup().send_error(&t2).await,
							};
							(h, r)
						})
						.await;
					let Some((h, r)) = r else { return };
					let len = if error { text.len() } else { v.len() };
					if !self.sent("send response", r, poison && !error, len) {
						// Nothing was sent: the request can still be answered.
						self.calls[n].server = ServerSide::Known(h);
						return;
					}
					if self.rng.chance(1, 2) {
						drop(h);
					}
					if error {
						Resp::Error(text)
					} else {
						Resp::Value(v)
					}
				}
			}
			_ => return,
		};
		self.obs.count("responses", 1);
		self.calls[n].resp = Some(resp);
		if matches!(self.calls[n].client, ClientSide::Task(_)) {
			let ClientSide::Task(t) = std::mem::replace(&mut self.calls[n].client, ClientSide::Gone) else { unreachable!() };
			take_format_error();
			if !self.until(|| t.is_done()).await {
				return self.fail("hang", format!("call {n} does not return its response"));
			}
			let r = match t.take().unwrap() {
				Ok(Called::Response(v)) => Ok(v),
				Ok(_) => return self.fail("call", "not a response".into()),
				Err(e) => Err(e),
			};
			self.check_response(n, r);
		}
	}

	fn check_response(&mut self, n: usize, r: Result<Vec<u8>, Error>) {
		let expect = self.calls[n].resp.clone().unwrap();
		let seen = match &r {
			Ok(v) => hex(v),
			Err(e) => format!("{e:?}"),
		};
		let good = match (&expect, r) {
			(Resp::Value(v), Ok(w)) => *v == w,
			(Resp::Error(t), Err(e)) => {
				self.obs.count("remote_errors", 1);
				e.is_remote_error() && e.as_remote_error() == Some(t) && e.to_string() == *t && !e.is_connection_aborted() && e.into_remote_error().as_ref() == Some(t)
			}
			// A raw client gets the bytes.
			(Resp::BadValue, Ok(_)) => !self.gen_client,
			(Resp::BadText, Err(e)) => {
				self.obs.count("bad_error_texts", 1);
				!self.gen_client || (!e.is_remote_error() && !e.is_connection_aborted() && !e.is_unexpected_message_type() && e.into_remote_error().is_none())
			}
			(Resp::BadValue, Err(e)) => {
				self.obs.count("bad_responses", 1);
				!e.is_remote_error() && was_format_error(&e.to_string()) && !e.is_connection_aborted()
			}
			_ => false,
		};
		self.step(format!("call {n}: receive response"));
		if !good {
			self.fail("response", format!("call {n}: expected {expect:?}, got {seen}"));
		}
		self.obs.count("responses_received", 1);
	}

	async fn client_recv_response(&mut self) {
		let Some(n) = self.pick_call(|c| matches!(c.client, ClientSide::Sent(_)) && (!c.s2c.is_empty() || c.resp.is_some())) else { return };
		let ClientSide::Sent(mut h) = std::mem::replace(&mut self.calls[n].client, ClientSide::Gone) else { unreachable!() };
		take_format_error();
		let Some((h, r)) = self.op("receive response", async move { let r = h.recv_response().await; (h, r) }).await else { return };
		if !self.calls[n].s2c.is_empty() {
			self.calls[n].client = ClientSide::Sent(h);
			self.step(format!("call {n}: response is behind an update"));
			match r {
				Err(e) if e.is_unexpected_message_type() && !e.is_remote_error() && !e.is_connection_aborted() => self.obs.count("unexpected_types", 1),
				Err(e) => self.fail("response", format!("call {n}: an update is next, receiving the response reports {e:?}")),
				Ok(_) => self.fail("response", format!("call {n}: an update is next, but a response is returned")),
			}
			return;
		}
		self.check_response(n, r);
	}

	fn complaints(&mut self) {
		for c in take_complaints() {
			self.fail("consistency", c);
		}
		let sim = self.sim.clone();
		check_panics(&sim, &mut self.obs);
	}

	async fn finish(&mut self) {
		// Nothing more than what was sent arrives.
		while !self.inbox.is_empty() && !self.failed() {
			self.server_recv().await;
		}
		if self.failed() {
			return;
		}
		let mut s = self.server.take().unwrap();
		let how = self.rng.below(4);
		let closer = match how {
			2 => Some(s.close_handle()),
			3 => self.client.as_ref().map(|c| c.close_handle()),
			_ => None,
		};
		let closes_server = how == 1;
		if closes_server {
			s.close();
			self.raw_client = None;
			self.step("server closes".into());
		} else {
			let h = self.sim.spawn("receive message", async move { s.recv().await.err().map(|e| (e.is_connection_aborted(), matches!(e, RecvMessageError::Other(_)), format!("{e:?}"))) });
			self.settle().await;
			if h.is_done() {
				return self.fail("extra", format!("received a message that nobody sent, or an error: {:?}", h.take()));
			}
			self.raw_client = None;
			match closer {
				Some(c) => c.close(),
				None => self.client.take().unwrap().close(),
			}
			self.step("close".into());
			if !self.until(|| h.is_done()).await {
				return self.fail("hang", "the server does not notice the end of the connection".into());
			}
			match h.take().unwrap() {
				Some((_, true, _)) => {}
				x => return self.fail("end", format!("at the end of the connection the server gets {x:?}")),
			}
		}
		for n in 0..self.calls.len() {
			match std::mem::replace(&mut self.calls[n].client, ClientSide::Gone) {
				ClientSide::Task(t) => {
					if !self.until(|| t.is_done()).await {
						return self.fail("hang", format!("call {n} does not return after the end of the connection"));
					}
					if let Some(Ok(_)) = t.take() {
						return self.fail("end", format!("call {n} returns a value without a response"));
					}
				}
				ClientSide::Sent(mut h) => {
					let pending = !self.calls[n].s2c.is_empty();
					let resp = self.calls[n].resp.is_some();
					if let Some(Ok(_)) = self.op("receive response", async move { h.recv_response().await }).await {
						if pending || !resp {
							return self.fail("end", format!("call {n} returns a value without a response"));
						}
					}
				}
				_ => {}
			}
		}
		self.complaints();
	}

	fn probe_enums(&mut self, entry: &Entry<K::B>) {
		let def = self.def.clone();
		let mut tables: Vec<Vec<&Msg>> = Vec::new();
		if !def.streams.is_empty() {
			tables.push(def.streams.iter().collect());
		}
		for s in &def.services {
			for m in [s.req_updates(), s.resp_updates()] {
				if !m.is_empty() {
					tables.push(m);
				}
			}
		}
		assert_eq!(tables.len(), entry.enums.len());
		for (t, probe) in tables.iter().zip(&entry.enums) {
			let tab = table(t);
			let (id, body) = if self.rng.chance(1, 2) {
				let (id, ty) = *self.rng.pick(&tab);
				(id, def.value(ty, &mut self.rng, 0))
			} else {
				self.odd(&tab)
			};
			let kind = classify(&def, id, &body, &tab);
			let j = self.rng.below(t.len());
			take_format_error();
			let r = probe(Message::new(header(4, 0, id), K::body(body.clone())), j);
			let fe = take_format_error();
			self.obs.count("enum_probes", 1);
			let good = match (&kind, r) {
				(Kind::Known(k, v), Ok(s)) => {
					let name = camel(&t[*k].name);
					let fussy = def.fussy(&t[*k].ty);
					s.variant == *k
						&& s.value == *v && s.is.iter().enumerate().all(|(i, x)| *x == (i == *k))
						&& s.as_.iter().enumerate().all(|(i, x)| x.is_some() == (i == *k) && x.as_ref().map(|x| x == v).unwrap_or(true))
						&& match s.encoded {
							Ok((i, b)) => i == id && b == *v,
							Err(_) => fussy,
						} && match s.into {
						Ok(b) => j == *k && b == *v,
						Err(e) => j != *k && e.to_string().contains(&id.to_string()) && !e.is_remote_error(),
					} && s.debug.starts_with(&name)
				}
				(Kind::Unknown(i, _), Err(e)) => e.to_string().contains(&i.to_string()) && !e.is_remote_error(),
				(Kind::Invalid(..), Err(e)) => fe.as_deref() == Some(&e.to_string()) && !e.is_remote_error(),
				_ => false,
			};
			if !good {
				self.fail("message-enum", format!("enum of {:?}: message {} seen through variant {j}", t.iter().map(|m| &m.name).collect::<Vec<_>>(), show(&kind)));
			}
		}
	}
}

async fn scenario<K: Kit>(entry: &Entry<K::B>, def: Rc<Def>, seed: u64, hostile: bool) -> Obs
where
	K::B: IntoBytes,
{
	let mut rng = Rng::new(seed);
	let sim = Sim::new(seed);
	let (a, b) = K::pair();
	let limit = if rng.chance(1, 6) { rng.below(40) } else { 60_000 };
	let cfg = Cfg { max_read: 60_000, max_write: limit as u32, ..Cfg::default() };
	let (pa, ha) = Peer::new(K::transport(a, &cfg));
	let (pb, hb) = Peer::new(K::transport(b, &cfg));
	let run_a = sim.spawn("peer a", pa.run());
	let run_b = sim.spawn("peer b", pb.run());
	let mode = if hostile { rng.below(5) } else { rng.below(4) };
	// Generated on both sides, or raw handles on one side.
	let (gen_client, gen_server) = match mode {
		0 => (true, true),
		1 | 3 => (true, false),
		_ => (false, true),
	};
	let mut spare: Vec<Box<dyn std::any::Any>> = Vec::new();
	let mut raw_client = None;
	let client: Box<dyn DynClient<K::B>> = if gen_client {
		match rng.below(3) {
			0 => (entry.client_whole)(ha),
			k => {
				let (r, w) = ha.split();
				if rng.chance(1, 2) {
					spare.push(Box::new(r));
				}
				if k == 1 { (entry.client)(w) } else { (entry.client_new)(w) }
			}
		}
	} else {
		let (r, w) = ha.split();
		spare.push(Box::new(r));
		raw_client = Some(w.clone());
		Box::new(RawClient::<K> { h: w, def: def.clone() })
	};
	let server: Box<dyn DynServer<K::B>> = if gen_server {
		if rng.chance(1, 2) {
			(entry.server_whole)(hb)
		} else {
			let (r, w) = hb.split();
			if rng.chance(1, 2) {
				spare.push(Box::new(w));
			}
			(entry.server)(r)
		}
	} else {
		let (r, w) = hb.split();
		spare.push(Box::new(w));
		Box::new(RawServer::<K> { h: r, def: def.clone() })
	};
	take_complaints();
	forget_format_errors();
	let _ = client.debug();
	let mut w = World::<K> { sim, rng, obs: Obs::default(), def, client: Some(client), server: Some(server), raw_client, gen_client, gen_server, inbox: VecDeque::new(), calls: Vec::new(), limit, hostile, trace: Vec::new() };
	w.probe_enums(entry);
	let n = w.rng.range(5, 60);
	for _ in 0..n {
		match w.rng.weighted(&[10, 12, 22, 10, 10, 10, 10, 8, 6]) {
			0 => w.send_stream().await,
			1 => w.send_request().await,
			2 => w.server_recv().await,
			3 => w.client_update().await,
			4 => w.server_recv_update().await,
			5 => w.server_update().await,
			6 => w.client_recv_update().await,
			7 => w.respond().await,
			_ => w.client_recv_response().await,
		}
		w.complaints();
		if w.failed() || w.obs.inconclusive.is_some() {
			break;
		}
	}
	if !w.failed() && w.obs.inconclusive.is_none() {
		w.finish().await;
	}
	let done = w.until(|| true).await;
	let _ = (done, run_a, run_b);
	w.obs.count("scenarios", 1);
	w.obs.count("steps", w.trace.len() as u64);
	w.obs.signature = Some(hash_bytes(w.trace.join(";").as_bytes()));
	w.obs.sample = w.trace.iter().take(12).cloned().collect::<Vec<_>>().join("; ");
	let sim = w.sim.clone();
	let obs = std::mem::take(&mut w.obs);
	drop(w);
	drop(spare);
	sim.clear();
	obs
}

fn compare(def: &Def, s: &Seen, obs: &mut Obs) {
	let mut bad = |what: String, want: String, got: String| {
		if want != got {
			obs.violate("introspection", format!("{what}: declared {want:?}, introspection says {got:?}; interface: {}", def.source()));
		}
	};
	let doc = |d: &Doc, got: &str| -> (String, String) {
		if d.multi {
			let n = |s: &str| s.split_whitespace().collect::<Vec<_>>().join(" ");
			(n(&doc_text(d)), n(got))
		} else {
			// A newline at the end is layout, not documentation.
			let t = |s: &str| s.trim_end_matches('\n').to_string();
			(t(&doc_text(d)), t(got))
		}
	};
	let item = |name: &str, id: i32, hidden: bool, types: &[String]| format!("{} ID {id} hidden {hidden} types {types:?}", unraw(name));
	let msg = |m: &Msg| item(&m.name, m.id, m.hidden, &[def.type_name(&m.ty)]);
	let d = &s.definition;
	bad("name".into(), unraw(&def.name).into(), unraw(&d.name).into());
	bad("name()".into(), unraw(&def.name).into(), unraw(s.name).into());
	bad("hidden".into(), def.hidden.to_string(), d.hidden.to_string());
	let (w, g) = doc(&def.doc, &d.doc);
	bad("documentation".into(), w, g);
	let (w, g) = doc(&def.doc, s.doc);
	bad("doc()".into(), w, g);
	for (label, services) in [("definition", &d.services), ("services()", &s.services)] {
		bad(format!("{label}: number of services"), def.services.len().to_string(), services.len().to_string());
		for (k, (x, y)) in def.services.iter().zip(services).enumerate() {
			bad(format!("{label}: service {k}"), item(&x.name, x.id, x.hidden, &[def.type_name(&x.req), def.type_name(&x.resp)]), item(&y.name, y.service_id, y.hidden, &[y.request_body.clone(), y.response_body.clone()]));
			let (w, g) = doc(&x.doc, &y.doc);
			bad(format!("{label}: documentation of service {k}"), w, g);
			for (dir, a, b) in [("request", x.req_updates(), &y.request_updates), ("response", x.resp_updates(), &y.response_updates)] {
				bad(format!("{label}: number of {dir} updates of service {k}"), a.len().to_string(), b.len().to_string());
				for (j, (m, n)) in a.iter().zip(b).enumerate() {
					bad(format!("{label}: {dir} update {j} of service {k}"), msg(m), item(&n.name, n.service_id, n.hidden, &[n.body.clone()]));
					let (w, g) = doc(&m.doc, &n.doc);
					bad(format!("{label}: documentation of {dir} update {j} of service {k}"), w, g);
				}
			}
		}
	}
	for (label, streams) in [("definition", &d.streams), ("streams()", &s.streams)] {
		bad(format!("{label}: number of streams"), def.streams.len().to_string(), streams.len().to_string());
		for (k, (x, y)) in def.streams.iter().zip(streams).enumerate() {
			bad(format!("{label}: stream {k}"), msg(x), item(&y.name, y.service_id, y.hidden, &[y.body.clone()]));
			let (w, g) = doc(&x.doc, &y.doc);
			bad(format!("{label}: documentation of stream {k}"), w, g);
		}
	}
}

/// Entry point of the generated binary.
pub fn main(all: Vec<Compiled>) -> ! {
	let (id, rep) = crate::cli::start();
	let rejected: u64 = std::env::var("FV_REJECTED").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
	let total: usize = std::env::var("FV_TOTAL").unwrap().parse().unwrap();
	let excluded: Vec<String> = std::env::var("FV_PROBLEMS").ok().map(|s| s.split('\x1e').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect()).unwrap_or_default();
	let defs = family(rep.settings.seed, total);
	let thorough = rep.settings.thorough();
	for p in excluded {
		let mut obs = Obs::default();
		obs.violate("generated-api", p);
		rep.add("compile", rep.settings.seed, obs);
	}
	rep.rule("random interface definitions (services with any combination of updates, streams, unit bodies, ten kinds of types, IDs over the whole i32 range and all literal forms, keyword names, docs, visibilities), compiled against the working tree");
	if id == "C24" {
		let next = std::sync::Mutex::new(all.iter());
		rep.run_cases("introspection", all.len() as u64, 300.0, 1, |_| {
			let c = next.lock().unwrap().next();
			let mut obs = Obs::default();
			let Some(c) = c else { return obs };
			let def = &defs[c.index];
			let s = (c.seen)();
			compare(def, &s, &mut obs);
			obs.count("interfaces", 1);
			obs.count("services", def.services.len() as u64);
			obs.count("streams", def.streams.len() as u64);
			obs.count("updates", def.services.iter().map(|s| s.updates.len() as u64).sum());
			obs.count("documented_items", def.services.iter().map(|s| !s.doc.lines.is_empty() as u64).sum::<u64>() + def.streams.iter().map(|s| !s.doc.lines.is_empty() as u64).sum::<u64>());
			obs.signature = Some(hash_bytes(def.source().as_bytes()));
			obs.sample = def.source();
			obs
		});
		rep.require("interfaces", (total / 2) as u64);
		rep.require("documented_items", (total / 2) as u64);
	} else {
		let hostile = id == "C23";
		let entries: Vec<usize> = (0..all.len()).filter(|i| all[*i].entry.is_some()).collect();
		let cases = if thorough { 3_000_000 } else { 200_000 };
		rep.run_cases("interfaces", cases, if thorough { 1200.0 } else { 150.0 }, 8, |seed| {
			let mut r = Rng::new(seed ^ 0x5eed);
			let c = &all[*r.pick(&entries)];
			let def = Rc::new(defs[c.index].clone());
			block_on(async {
				match (c.entry.unwrap())() {
					AnyEntry::Stream(e) if r.chance(1, 6) => scenario::<Tcp>(&e, def, seed, hostile).await,
					AnyEntry::Stream(e) => scenario::<UnixS>(&e, def, seed, hostile).await,
					AnyEntry::Unix(e) => scenario::<Seq>(&e, def, seed, hostile).await,
				}
			})
		});
		let mut o = Obs::default();
		o.count("interfaces", entries.len() as u64);
		o.count("interfaces_that_do_not_compile", rejected);
		rep.counts(o);
		rep.require("interfaces", (total / 2) as u64);
		rep.require("calls", 5000);
		rep.require("streams", 2000);
		rep.require("updates_received", 2000);
		rep.require("responses_received", 2000);
		if hostile {
			for k in ["unknown_streams", "invalid_streams", "unknown_requests", "invalid_requests", "unknown_updates", "invalid_updates", "remote_errors", "bad_responses", "bad_error_texts", "encode_errors", "unexpected_types"] {
				rep.require(k, 100);
			}
		}
	}
	std::process::exit(rep.finish("exploration"));
}
