//! Source of the generated crates: each interface in a module of its own with adapters to the traits of `iface`.

use crate::ifgen::*;
use std::fmt::Write;

const HEAD: &str = "#![allow(warnings)]\nuse fizyr_verif::iface as vi;\n";

/// The definition only, without anything of the harness.
pub fn bare_module(d: &Def) -> String {
	format!("#[derive(Debug, Clone, PartialEq)]\npub struct Fussy(pub u32);\nconst FOUR: usize = 4;\n{}\n::fizyr_rpc::interface! {{\n{}}}\n", d.types_source(false), d.source())
}

/// The definition only (for introspection and compile verdicts).
pub fn plain_module(d: &Def) -> String {
	format!("use fizyr_verif::iface as vi;\nuse vi::Fussy;\nconst FOUR: usize = 4;\n{}\n::fizyr_rpc::interface! {{\n{}}}\n", d.types_source(true), d.source())
}

fn format_of(d: &Def) -> &'static str {
	if d.unix {
		"vi::BinUnix"
	} else {
		"vi::Bin"
	}
}

fn body_of(d: &Def) -> &'static str {
	if d.unix {
		"vi::UnixBody"
	} else {
		"vi::StreamBody"
	}
}

fn seen(d: &Def) -> String {
	format!(
		"pub fn vfy_seen() -> vi::Seen {{ vi::Seen {{ name: Interface::name(), doc: Interface::doc(), definition: Interface::definition::<{f}>(), services: Interface::services::<{f}>(), streams: Interface::streams::<{f}>() }} }}\n",
		f = format_of(d)
	)
}

pub fn intro_module(d: &Def) -> String {
	plain_module(d) + &seen(d)
}

/// `match i { 0 => <call with a value>, .. }`
fn send_arms(items: &[(&Ty, String)], call: impl Fn(usize, &str) -> String, texts: &[&str]) -> String {
	let mut o = String::from("match i { ");
	for (k, (ty, _)) in items.iter().enumerate() {
		if **ty == Ty::Unit {
			let _ = write!(o, "{k} => {{ let _: () = vi::val(v); {} }} ", call(k, ""));
		} else {
			let _ = write!(o, "{k} => {{ let x: {} = vi::val(v); {} }} ", texts[k], call(k, "&x"));
		}
	}
	o + "_ => unreachable!() }"
}

fn enum_probe(path: &str, fname: &str, msgs: &[&Msg], d: &Def) -> String {
	let f = format_of(d);
	let b = body_of(d);
	let list = |g: &dyn Fn(&str) -> String| msgs.iter().map(|m| g(unraw(&m.name))).collect::<Vec<_>>().join(", ");
	let variants: String = msgs.iter().enumerate().map(|(k, m)| format!("{path}::{}(x) => ({k}, vi::bytes(x)), ", camel(&m.name))).collect();
	let into: String = msgs.iter().enumerate().map(|(k, m)| format!("{k} => u.into_{}().map(|x| vi::bytes(&x)), ", unraw(&m.name))).collect();
	format!(
		"fn {fname}(m: vi::Message<{b}>, j: usize) -> Result<vi::EnumSeen, vi::Error> {{
	let u: {path} = <{f} as vi::Format>::decode_message(m)?;
	let (variant, value) = match &u {{ {variants} }};
	let is = vec![{}];
	let as_ = vec![{}];
	let encoded = <{f} as vi::Format>::encode_message(&u).map(|(i, b)| (i, vi::IntoBytes::into_bytes(b))).map_err(|e| e.to_string());
	let debug = format!(\"{{u:?}}\");
	let into = match j {{ {into} _ => unreachable!() }};
	Ok(vi::EnumSeen {{ variant, value, is, as_, encoded, into, debug }})
}}\n",
		list(&|n| format!("u.is_{n}()")),
		list(&|n| format!("u.as_{n}().map(|x| vi::bytes(x))")),
	)
}

fn recv_update(path: &str, msgs: &[&Msg], d: &Def) -> String {
	let b = body_of(d);
	let head = format!("fn recv_update<'a>(&'a mut self) -> vi::Fut<'a, Option<Result<(usize, Vec<u8>), vi::ParseUpdateError<{b}>>>>");
	if msgs.is_empty() {
		return format!("{head} {{ unreachable!(\"harness\") }}\n");
	}
	let arms: String = msgs.iter().enumerate().map(|(k, m)| format!("{path}::{}(x) => ({k}, vi::bytes(&x)), ", camel(&m.name))).collect();
	format!("{head} {{ Box::pin(async move {{ match self.0.recv_update().await {{ None => None, Some(Err(e)) => Some(Err(e)), Some(Ok(u)) => Some(Ok(match u {{ {arms} }})) }} }}) }}\n")
}

fn send_update(msgs: &[&Msg]) -> String {
	let items: Vec<(&Ty, String)> = msgs.iter().map(|m| (&m.ty, unraw(&m.name).to_string())).collect();
	let texts: Vec<&str> = msgs.iter().map(|m| m.ty_text.as_str()).collect();
	let body = send_arms(&items, |k, x| format!("self.0.send_{}_update({x}).await", items[k].1), &texts);
	format!("fn send_update<'a>(&'a self, i: usize, v: &'a [u8]) -> vi::Fut<'a, Result<(), vi::Error>> {{ Box::pin(async move {{ {body} }}) }}\n")
}

pub fn full_module(d: &Def) -> String {
	let b = body_of(d);
	let f = format_of(d);
	let mut o = intro_module(d);
	let ids = "fn ids(&self) -> (u32, i32) { if self.0.request_id() != self.0.inner().request_id() || self.0.service_id() != self.0.inner().service_id() { vi::complain(\"IDs of a generated handle and of its raw handle differ\".into()); } (self.0.request_id(), self.0.service_id()) }\n";
	// Client.
	let items: Vec<(&Ty, String)> = d.streams.iter().map(|m| (&m.ty, unraw(&m.name).to_string())).collect();
	let texts: Vec<&str> = d.streams.iter().map(|m| m.ty_text.as_str()).collect();
	let streams = send_arms(&items, |k, x| format!("self.0.send_{}({x}).await", items[k].1), &texts);
	let items: Vec<(&Ty, String)> = d.services.iter().map(|s| (&s.req, s.name.clone())).collect();
	let texts: Vec<&str> = d.services.iter().map(|s| s.req_text.as_str()).collect();
	let calls = send_arms(
		&items,
		|k, x| {
			if d.services[k].updates.is_empty() {
				format!("Client::<{f}>::{}(&self.0, {x}).await.map(|r| vi::Called::Response(vi::bytes(&r)))", items[k].1)
			} else {
				format!("Client::<{f}>::{}(&self.0, {x}).await.map(|h| vi::Called::Sent(Box::new(VfySent{k}(h))))", items[k].1)
			}
		},
		&texts,
	);
	let _ = write!(
		o,
		"struct VfyClient(Client<{f}>);
impl vi::DynClient<{b}> for VfyClient {{
	fn stream<'a>(&'a self, i: usize, v: &'a [u8]) -> vi::Fut<'a, Result<(), vi::Error>> {{ Box::pin(async move {{ {streams} }}) }}
	fn call<'a>(&'a self, i: usize, v: &'a [u8]) -> vi::Fut<'a, Result<vi::Called<{b}>, vi::Error>> {{ Box::pin(async move {{ {calls} }}) }}
	fn dup(&self) -> Box<dyn vi::DynClient<{b}>> {{ Box::new(VfyClient(::core::clone::Clone::clone(&self.0))) }}
	fn close(self: Box<Self>) {{ self.0.close() }}
	fn close_handle(&self) -> vi::PeerCloseHandle<{b}> {{ self.0.close_handle() }}
	fn debug(&self) -> String {{ format!(\"{{:?}}\", self.0) }}
}}\n"
	);
	for (k, s) in d.services.iter().enumerate() {
		let n = &s.name;
		let (rq, rp) = (s.req_updates(), s.resp_updates());
		if !s.updates.is_empty() {
			let _ = write!(
				o,
				"struct VfySent{k}({n}::SentRequestHandle<{f}>);
impl vi::DynSent<{b}> for VfySent{k} {{
	{ids}	{}	{}
	fn recv_response<'a>(&'a mut self) -> vi::Fut<'a, Result<Vec<u8>, vi::Error>> {{ Box::pin(async move {{ self.0.recv_response().await.map(|r| vi::bytes(&r)) }}) }}
	fn writer(&self) -> Box<dyn vi::DynSentWriter> {{ Box::new(VfySentW{k}(self.0.write_handle())) }}
	fn debug(&self) -> String {{ format!(\"{{:?}}\", self.0) }}
}}
struct VfySentW{k}({n}::SentRequestWriteHandle<{f}>);
impl vi::DynSentWriter for VfySentW{k} {{
	{ids}	{}
	fn dup(&self) -> Box<dyn vi::DynSentWriter> {{ Box::new(VfySentW{k}(::core::clone::Clone::clone(&self.0))) }}
}}\n",
				send_update(&rq),
				recv_update(&format!("{n}::ResponseUpdate"), &rp, d),
				send_update(&rq),
			);
			if !rq.is_empty() {
				o += &enum_probe(&format!("{n}::RequestUpdate"), &format!("vfy_enum_q{k}"), &rq, d);
			}
			if !rp.is_empty() {
				o += &enum_probe(&format!("{n}::ResponseUpdate"), &format!("vfy_enum_p{k}"), &rp, d);
			}
		}
		let respond = if s.resp == Ty::Unit { "let x: () = vi::val(v);".to_string() } else { format!("let x: {} = vi::val(v);", s.resp_text) };
		let respond = format!(
			"fn send_response<'a>(&'a self, v: &'a [u8]) -> vi::Fut<'a, Result<(), vi::Error>> {{ Box::pin(async move {{ {respond} self.0.send_response(&x).await }}) }}
	fn send_error<'a>(&'a self, text: &'a str) -> vi::Fut<'a, Result<(), vi::Error>> {{ Box::pin(async move {{ self.0.send_error_response(text).await }}) }}\n"
		);
		let _ = write!(
			o,
			"struct VfyRcvd{k}({n}::ReceivedRequestHandle<{f}>);
impl vi::DynRcvd<{b}> for VfyRcvd{k} {{
	{ids}	{}	{}	{respond}
	fn writer(&self) -> Box<dyn vi::DynRcvdWriter> {{ Box::new(VfyRcvdW{k}(self.0.write_handle())) }}
}}
struct VfyRcvdW{k}({n}::ReceivedRequestWriteHandle<{f}>);
impl vi::DynRcvdWriter for VfyRcvdW{k} {{
	{ids}	{}	{respond}
	fn dup(&self) -> Box<dyn vi::DynRcvdWriter> {{ Box::new(VfyRcvdW{k}(::core::clone::Clone::clone(&self.0))) }}
}}\n",
			send_update(&rp),
			recv_update(&format!("{n}::RequestUpdate"), &rq, d),
			send_update(&rp),
		);
	}
	// Server.
	let mut arms = String::new();
	if !d.streams.is_empty() {
		let inner: String = d.streams.iter().enumerate().map(|(k, m)| format!("StreamMessage::{}(x) => vi::Got::Stream({k}, vi::bytes(&x)), ", camel(&m.name))).collect();
		let _ = write!(arms, "ReceivedMessage::Stream(m) => match m {{ {inner} }}, ");
		o += &enum_probe("StreamMessage", "vfy_enum_s", &d.streams.iter().collect::<Vec<_>>(), d);
	}
	if !d.services.is_empty() {
		let inner: String = d.services.iter().enumerate().map(|(k, s)| format!("ReceivedRequestHandle::{}(h, x) => vi::Got::Request({k}, vi::bytes(&x), Box::new(VfyRcvd{k}(h))), ", camel(&s.name))).collect();
		let _ = write!(arms, "ReceivedMessage::Request(m) => match m {{ {inner} }}, ");
	}
	let _ = write!(
		o,
		"struct VfyServer(Server<{f}>);
impl vi::DynServer<{b}> for VfyServer {{
	fn recv<'a>(&'a mut self) -> vi::Fut<'a, Result<vi::Got<{b}>, vi::RecvMessageError<{b}>>> {{ Box::pin(async move {{ let m = self.0.recv_message().await?; let _ = format!(\"{{m:?}}\"); Ok(match m {{ {arms} }}) }}) }}
	fn close(self: Box<Self>) {{ self.0.close() }}
	fn close_handle(&self) -> vi::PeerCloseHandle<{b}> {{ self.0.close_handle() }}
}}\n"
	);
	let mut enums = Vec::new();
	if !d.streams.is_empty() {
		enums.push("vfy_enum_s".to_string());
	}
	for (k, s) in d.services.iter().enumerate() {
		if !s.req_updates().is_empty() {
			enums.push(format!("vfy_enum_q{k}"));
		}
		if !s.resp_updates().is_empty() {
			enums.push(format!("vfy_enum_p{k}"));
		}
	}
	let _ = write!(
		o,
		"pub fn vfy_entry() -> vi::AnyEntry {{ vi::AnyEntry::{}(vi::Entry {{
	client: |h| Box::new(VfyClient(<Client<{f}> as ::core::convert::From<vi::PeerWriteHandle<{b}>>>::from(h))),
	client_new: |h| Box::new(VfyClient(Client::<{f}>::new(h))),
	client_whole: |h| Box::new(VfyClient(<Client<{f}> as ::core::convert::From<vi::PeerHandle<{b}>>>::from(h))),
	server: |h| Box::new(VfyServer(<Server<{f}> as ::core::convert::From<vi::PeerReadHandle<{b}>>>::from(h))),
	server_whole: |h| Box::new(VfyServer(<Server<{f}> as ::core::convert::From<vi::PeerHandle<{b}>>>::from(h))),
	enums: vec![{}],
}}) }}\n",
		if d.unix { "Unix" } else { "Stream" },
		enums.iter().map(|e| format!("{e} as vi::EnumProbe<{b}>")).collect::<Vec<_>>().join(", ")
	);
	o
}

/// The `lib.rs` of a crate with some of the interfaces.
pub fn lib_source(items: &[(usize, bool)]) -> String {
	let mut o = String::from(HEAD);
	for (i, _) in items {
		let _ = writeln!(o, "mod i{i};");
	}
	o += "pub fn all() -> Vec<vi::Compiled> { vec![\n";
	for (i, full) in items {
		let entry = if *full { format!("Some(i{i}::vfy_entry as fn() -> vi::AnyEntry)") } else { "None".into() };
		let _ = writeln!(o, "vi::Compiled {{ index: {i}, seen: i{i}::vfy_seen, entry: {entry} }},");
	}
	o + "] }\n"
}
