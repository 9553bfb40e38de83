//! Random interface definitions: the model (what was declared) and the source text given to the `interface!` macro.

use crate::rng::Rng;
use std::collections::HashSet;
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
	Unit,
	U8,
	U32,
	I64,
	Bool,
	Str,
	Fussy,
	Vec(Box<Ty>),
	Opt(Box<Ty>),
	Boxed(Box<Ty>),
	Arr4(Box<Ty>),
	Tuple(Vec<Ty>),
	/// Index in `Def::types`.
	User(usize),
}

#[derive(Clone, Debug)]
pub enum UserTy {
	Struct(Vec<Ty>),
	TupleStruct(Vec<Ty>),
	Enum(Vec<Vec<Ty>>),
}

#[derive(Clone, Debug, Default)]
pub struct Doc {
	/// Source lines of attributes.
	pub source: Vec<String>,
	/// The text of each attribute.
	pub lines: Vec<String>,
	/// Attributes with more than one line of text: how those are normalised is not specified.
	pub multi: bool,
}

#[derive(Clone, Debug)]
pub struct Msg {
	pub id: i32,
	pub id_text: String,
	pub name: String,
	pub doc: Doc,
	pub hidden: bool,
	pub ty: Ty,
	pub ty_text: String,
}

#[derive(Clone, Debug)]
pub struct Svc {
	pub id: i32,
	pub id_text: String,
	pub name: String,
	pub doc: Doc,
	pub hidden: bool,
	pub req: Ty,
	pub req_text: String,
	pub resp: Ty,
	pub resp_text: String,
	/// In declaration order; true for request updates.
	pub updates: Vec<(bool, Msg)>,
	pub style: usize,
}

impl Svc {
	pub fn req_updates(&self) -> Vec<&Msg> {
		self.updates.iter().filter(|(r, _)| *r).map(|(_, m)| m).collect()
	}
	pub fn resp_updates(&self) -> Vec<&Msg> {
		self.updates.iter().filter(|(r, _)| !*r).map(|(_, m)| m).collect()
	}
}

#[derive(Clone, Debug)]
pub enum Item {
	Svc(usize),
	Stream(usize),
}

#[derive(Clone, Debug)]
pub struct Def {
	pub name: String,
	pub vis: &'static str,
	pub doc: Doc,
	pub hidden: bool,
	pub types: Vec<UserTy>,
	pub services: Vec<Svc>,
	pub streams: Vec<Msg>,
	/// Services and streams in order of declaration.
	pub order: Vec<Item>,
	pub unix: bool,
}

pub fn unraw(name: &str) -> &str {
	name.strip_prefix("r#").unwrap_or(name)
}

/// The name of the enum variant for an item.
pub fn camel(name: &str) -> String {
	let mut out = String::new();
	let mut up = true;
	for c in unraw(name).chars() {
		if c == '_' {
			up = true;
		} else if up {
			out.push(c.to_ascii_uppercase());
			up = false;
		} else {
			out.push(c);
		}
	}
	out
}

const NAMES: &[&str] = &[
	"ping", "record", "a", "x1", "get_2_images", "message", "request", "response", "update", "body", "peer", "self_test", "error", "result", "option", "some", "ok", "err",
	"none", "vec", "string", "encode", "format", "service_id", "inner", "request_id", "write_handle", "f", "stream", "client", "server", "core", "std", "alloc", "test",
	"debug", "clone", "from", "into", "recv", "send", "recv_message", "recv_update", "recv_response", "to_message", "from_message", "name", "doc", "services", "streams",
	"definition", "t", "e", "i32", "u8", "bool", "str", "PING", "fooBar", "r#type", "r#match", "r#fn", "r#loop", "r#impl", "r#move", "r#async", "r#struct", "r#where",
	"very_long_name_with_many_words_in_it_to_see_what_happens", "a_b_c_d", "trailing_", "double__underscore", "cancel", "state", "image", "tracing", "interface", "service",
	"hidden", "request_update", "response_update", "encoded", "decode_body", "value", "vector", "other", "fmt", "read", "write", "split", "drop", "default", "future",
];

pub struct Gen<'a> {
	pub rng: &'a mut Rng,
	types: Vec<UserTy>,
}

impl Gen<'_> {
	fn ty(&mut self, depth: usize) -> Ty {
		let n = if depth == 0 { 8 } else { 16 };
		match self.rng.below(n) {
			0 | 1 => Ty::Unit,
			2 => Ty::U8,
			3 => Ty::U32,
			4 => Ty::I64,
			5 => Ty::Bool,
			6 => Ty::Str,
			7 => Ty::Fussy,
			8 => Ty::Vec(Box::new(self.ty(depth - 1))),
			9 => Ty::Opt(Box::new(self.ty(depth - 1))),
			10 => Ty::Arr4(Box::new(self.ty(depth - 1))),
			11 => {
				let n = self.rng.range(1, 3);
				Ty::Tuple((0..n).map(|_| self.ty(depth - 1)).collect())
			}
			12 => Ty::Boxed(Box::new(self.ty(depth - 1))),
			_ => {
				if self.types.is_empty() || (self.types.len() < 3 && self.rng.chance(1, 2)) {
					let user = match self.rng.below(3) {
						0 => {
							let n = self.rng.range(1, 3);
							UserTy::Struct((0..n).map(|_| self.ty(0)).collect())
						}
						1 => {
							let n = self.rng.range(1, 2);
							UserTy::TupleStruct((0..n).map(|_| self.ty(0)).collect())
						}
						_ => {
							let n = self.rng.range(1, 3);
							UserTy::Enum((0..n).map(|_| { let k = self.rng.below(3); (0..k).map(|_| self.ty(0)).collect() }).collect())
						}
					};
					self.types.push(user);
					Ty::User(self.types.len() - 1)
				} else {
					Ty::User(self.rng.below(self.types.len()))
				}
			}
		}
	}

	fn ty_text(&mut self, t: &Ty) -> String {
		let r = self.rng.below(4);
		match t {
			Ty::Unit => "()".into(),
			Ty::U8 => ["u8", "u8", "::core::primitive::u8", "u8"][r].into(),
			Ty::U32 => "u32".into(),
			Ty::I64 => "i64".into(),
			Ty::Bool => "bool".into(),
			Ty::Str => ["String", "::std::string::String", "String", "String"][r].into(),
			Ty::Fussy => "Fussy".into(),
			Ty::Vec(t) => format!("{}<{}>", ["Vec", "::std::vec::Vec", "Vec", "Vec"][r], self.ty_text(t)),
			Ty::Opt(t) => format!("Option<{}>", self.ty_text(t)),
			Ty::Boxed(t) => format!("Box<{}>", self.ty_text(t)),
			Ty::Arr4(t) => format!("[{}; {}]", self.ty_text(t), ["4", "4", "2 + 2", "FOUR"][r]),
			Ty::Tuple(v) => {
				let mut s = String::from("(");
				for t in v {
					s += &self.ty_text(t);
					s += ", ";
				}
				s + ")"
			}
			Ty::User(i) => format!("Ty{i}"),
		}
	}

	pub fn any_id(&mut self, avoid: &[i32]) -> i32 {
		loop {
			let id = match self.rng.below(10) {
				0..=4 => self.rng.below(12) as i32,
				5 => -(self.rng.below(12) as i32),
				6 => *self.rng.pick(&[i32::MAX, i32::MIN, i32::MIN + 1, i32::MAX - 1, 0x7fff, 0x8000, 255, 256, 65535]),
				_ => self.rng.u32() as i32,
			};
			if !avoid.contains(&id) {
				return id;
			}
		}
	}

	fn id_text(&mut self, id: i32) -> String {
		let sign = if id < 0 { "-" } else { "" };
		let m = (id as i64).unsigned_abs();
		match self.rng.below(8) {
			0 => format!("{sign}0x{m:x}"),
			1 => format!("{sign}0x{m:X}"),
			2 => format!("{sign}0b{m:b}"),
			3 => format!("{sign}0o{m:o}"),
			4 => {
				let d = m.to_string();
				let mut s = String::new();
				for (i, c) in d.chars().enumerate() {
					if i > 0 && (d.len() - i) % 3 == 0 {
						s.push('_');
					}
					s.push(c);
				}
				format!("{sign}{s}")
			}
			5 => format!("{sign}{m}i32"),
			_ => format!("{sign}{m}"),
		}
	}

	fn name(&mut self, used: &mut HashSet<String>) -> String {
		loop {
			let n = if self.rng.chance(5, 6) { self.rng.pick(NAMES).to_string() } else { format!("item_{}", self.rng.below(1000)) };
			if used.insert(camel(&n)) {
				return n;
			}
		}
	}

	fn doc(&mut self) -> Doc {
		let mut d = Doc::default();
		if self.rng.chance(1, 3) {
			return d;
		}
		let n = if self.rng.chance(1, 12) { self.rng.range(5, 30) } else { self.rng.range(1, 4) };
		// Now and then the whole text is indented, also deeper than anybody would.
		let base = if self.rng.chance(1, 4) { *self.rng.pick(&[2usize, 3, 4, 7, 8, 9, 12, 16, 17, 32, 80]) } else { 0 };
		for _ in 0..n {
			let words = ["Record an image.", "`code` and \\ backslash", "\"quoted\" text", "unicode: ü → 漢字", "  * bullet", "x", "{braces} #hash", "tab\tinside", "trailing  ", "[`Self::x`]"];
			let indent = base + *self.rng.pick(&[0usize, 1, 1, 1, 2, 5]);
			let text = if self.rng.chance(1, 5) { " ".repeat(if self.rng.chance(1, 4) { base } else { self.rng.below(4) }) } else { format!("{}{}", " ".repeat(indent), self.rng.pick(&words)) };
			match self.rng.below(8) {
				0 => {
					d.source.push(format!("#[doc = {:?}]", text));
					d.lines.push(text);
				}
				1 => {
					d.source.push(format!("#[doc = r#\"{text}\"#]"));
					d.lines.push(text);
				}
				2 if !text.trim().is_empty() => {
					d.source.push(format!("/**{text}*/"));
					d.lines.push(text);
				}
				3 if base == 0 && self.rng.chance(1, 3) => {
					d.source.push("/** first\n second */".into());
					d.lines.push(" first\n second ".into());
					d.multi = true;
				}
				_ => {
					// A fourth slash would make it an ordinary comment.
					d.source.push(format!("///{text}"));
					d.lines.push(text);
				}
			}
		}
		d
	}

	fn msg(&mut self, used: &mut HashSet<String>, ids: &mut Vec<i32>, depth: usize) -> Msg {
		let id = self.any_id(ids);
		ids.push(id);
		let ty = self.ty(depth);
		Msg { id, id_text: self.id_text(id), name: self.name(used), doc: self.doc(), hidden: self.rng.chance(1, 5), ty_text: self.ty_text(&ty), ty }
	}
}

/// A random well-formed interface.
pub fn generate(rng: &mut Rng) -> Def {
	let wide = if rng.chance(1, 20) { Some(rng.below(4)) } else { None };
	generate_wide(rng, wide)
}

/// A random well-formed interface, if requested with many services (0), streams (1), request updates (2) or response updates (3).
pub fn generate_wide(rng: &mut Rng, wide: Option<usize>) -> Def {
	let many = rng.range(5, 14);
	let mut g = Gen { rng, types: Vec::new() };
	let mut services = Vec::new();
	let mut streams = Vec::new();
	let (mut snames, mut stnames) = (HashSet::new(), HashSet::new());
	// The ID of error responses is not available for services.
	let (mut sids, mut stids) = (vec![-1], Vec::new());
	for n in ["New", "Close", "CloseHandle"] {
		snames.insert(n.to_string());
	}
	let ns = match wide {
		Some(0) => many,
		Some(2 | 3) => g.rng.range(1, 2),
		_ => *g.rng.pick(&[0usize, 1, 1, 2, 2, 3, 4]),
	};
	for n in 0..ns {
		let id = g.any_id(&sids);
		sids.push(id);
		let mut updates = Vec::new();
		let shape = if wide == Some(0) && g.rng.chance(3, 4) { 0 } else { g.rng.below(5) };
		let (mut nq, mut np) = match shape {
			0 => (0, 0),
			1 => (g.rng.range(1, 3), 0),
			2 => (0, g.rng.range(1, 3)),
			_ => (g.rng.range(1, 3), g.rng.range(1, 3)),
		};
		if n == 0 && wide == Some(2) {
			nq = many;
		}
		if n == 0 && wide == Some(3) {
			np = many;
		}
		let (mut qn, mut pn) = (HashSet::new(), HashSet::new());
		let (mut qi, mut pi) = (Vec::new(), Vec::new());
		let mut kinds: Vec<bool> = std::iter::repeat(true).take(nq).chain(std::iter::repeat(false).take(np)).collect();
		for i in (1..kinds.len()).rev() {
			kinds.swap(i, g.rng.below(i + 1));
		}
		for k in kinds {
			let m = if k { g.msg(&mut qn, &mut qi, 2) } else { g.msg(&mut pn, &mut pi, 2) };
			updates.push((k, m));
		}
		let (req, resp) = (g.ty(2), g.ty(2));
		let style = if updates.is_empty() { g.rng.below(3) } else { g.rng.range(1, 2) } + 4 * g.rng.below(2);
		services.push(Svc {
			id,
			id_text: g.id_text(id),
			name: g.name(&mut snames),
			doc: g.doc(),
			hidden: g.rng.chance(1, 5),
			req_text: g.ty_text(&req),
			resp_text: g.ty_text(&resp),
			req,
			resp,
			updates,
			style,
		});
	}
	let nst = if wide == Some(1) { many } else { *g.rng.pick(&[0usize, 1, 2, 3, 4]) };
	for _ in 0..nst {
		streams.push(g.msg(&mut stnames, &mut stids, 2));
	}
	let mut order: Vec<Item> = Vec::new();
	let (mut i, mut j) = (0, 0);
	while i < services.len() || j < streams.len() {
		if j >= streams.len() || (i < services.len() && g.rng.chance(1, 2)) {
			order.push(Item::Svc(i));
			i += 1;
		} else {
			order.push(Item::Stream(j));
			j += 1;
		}
	}
	Def {
		name: g.rng.pick(&["Camera", "Supermarket", "X", "lower_case", "Client", "Interface", "Server"]).to_string(),
		vis: *g.rng.pick(&["pub ", "pub ", "pub(crate) ", "", "pub(super) ", "pub(in crate) "]),
		doc: g.doc(),
		hidden: g.rng.chance(1, 5),
		unix: g.rng.chance(1, 3),
		types: g.types,
		services,
		streams,
		order,
	}
}

/// The interfaces of a run.
pub fn family(seed: u64, n: usize) -> Vec<Def> {
	(0..n).map(|i| generate(&mut Rng::new(crate::rng::mix(seed ^ 0x1f_ace) ^ i as u64))).collect()
}

fn attrs(out: &mut String, indent: &str, doc: &Doc, hidden: bool) {
	let at = if hidden { doc.source.len() / 2 } else { usize::MAX };
	for (i, l) in doc.source.iter().enumerate() {
		if i == at {
			let _ = writeln!(out, "{indent}#[hidden]");
		}
		let _ = writeln!(out, "{indent}{l}");
	}
	if hidden && at >= doc.source.len() {
		let _ = writeln!(out, "{indent}#[hidden]");
	}
}

impl Svc {
	pub fn source(&self, out: &mut String) {
		attrs(out, "\t", &self.doc, self.hidden);
		let _ = write!(out, "\tservice {} {}: {} -> {}", self.id_text, self.name, self.req_text, self.resp_text);
		match self.style & 3 {
			0 => out.push_str(",\n"),
			s => {
				out.push_str(" {\n");
				let n = self.updates.len();
				for (i, (req, m)) in self.updates.iter().enumerate() {
					attrs(out, "\t\t", &m.doc, m.hidden);
					let kind = if *req { "request_update" } else { "response_update" };
					let comma = if i + 1 < n || self.style & 4 == 0 { "," } else { "" };
					let _ = writeln!(out, "\t\t{kind} {} {}: {}{comma}", m.id_text, m.name, m.ty_text);
				}
				out.push_str(if s == 1 { "\t}\n" } else { "\t},\n" });
			}
		}
	}
}

impl Def {
	/// The text between the braces of `interface!`.
	pub fn source(&self) -> String {
		let mut out = String::new();
		attrs(&mut out, "", &self.doc, self.hidden);
		let _ = writeln!(out, "{}interface {} {{", self.vis, self.name);
		for i in &self.order {
			match i {
				Item::Svc(i) => self.services[*i].source(&mut out),
				Item::Stream(i) => {
					let m = &self.streams[*i];
					attrs(&mut out, "\t", &m.doc, m.hidden);
					let _ = writeln!(out, "\tstream {} {}: {},", m.id_text, m.name, m.ty_text);
				}
			}
		}
		out.push_str("}\n");
		out
	}

	pub fn type_name(&self, t: &Ty) -> String {
		match t {
			Ty::Unit => "unit".into(),
			Ty::U8 => "u8".into(),
			Ty::U32 => "u32".into(),
			Ty::I64 => "i64".into(),
			Ty::Bool => "bool".into(),
			Ty::Str => "str".into(),
			Ty::Fussy => "fussy".into(),
			Ty::Vec(t) => format!("vec<{}>", self.type_name(t)),
			Ty::Opt(t) => format!("opt<{}>", self.type_name(t)),
			Ty::Boxed(t) => format!("box<{}>", self.type_name(t)),
			Ty::Arr4(t) => format!("arr4<{}>", self.type_name(t)),
			Ty::Tuple(v) => format!("tuple<{}>", v.iter().map(|t| self.type_name(t)).collect::<Vec<_>>().join(",")),
			Ty::User(i) => format!("Ty{i}"),
		}
	}

	/// Rust source of the user types with their codec.
	pub fn types_source(&self, codec: bool) -> String {
		let plain = |t: &Ty| -> String {
			fn p(t: &Ty) -> String {
				match t {
					Ty::Unit => "()".into(),
					Ty::U8 => "u8".into(),
					Ty::U32 => "u32".into(),
					Ty::I64 => "i64".into(),
					Ty::Bool => "bool".into(),
					Ty::Str => "String".into(),
					Ty::Fussy => "Fussy".into(),
					Ty::Vec(t) => format!("Vec<{}>", p(t)),
					Ty::Opt(t) => format!("Option<{}>", p(t)),
					Ty::Boxed(t) => format!("Box<{}>", p(t)),
					Ty::Arr4(t) => format!("[{}; 4]", p(t)),
					Ty::Tuple(v) => format!("({})", v.iter().map(|t| p(t) + ", ").collect::<String>()),
					Ty::User(i) => format!("Ty{i}"),
				}
			}
			p(t)
		};
		let mut o = String::new();
		for (i, u) in self.types.iter().enumerate() {
			let n = format!("Ty{i}");
			let (variants, decl): (Vec<(String, usize, bool)>, String) = match u {
				UserTy::Struct(f) => {
					let fields: String = f.iter().enumerate().map(|(k, t)| format!("pub f{k}: {}, ", plain(t))).collect();
					(vec![(n.clone(), f.len(), true)], format!("pub struct {n} {{ {fields}}}"))
				}
				UserTy::TupleStruct(f) => (vec![(n.clone(), f.len(), false)], format!("pub struct {n}({});", f.iter().map(|t| format!("pub {}, ", plain(t))).collect::<String>())),
				UserTy::Enum(vs) => {
					let body: String = vs.iter().enumerate().map(|(k, f)| if f.is_empty() { format!("V{k}, ") } else { format!("V{k}({}), ", f.iter().map(|t| plain(t) + ", ").collect::<String>()) }).collect();
					(vs.iter().enumerate().map(|(k, f)| (format!("{n}::V{k}"), f.len(), false)).collect(), format!("pub enum {n} {{ {body}}}"))
				}
			};
			let is_enum = matches!(u, UserTy::Enum(_));
			let _ = writeln!(o, "#[derive(Debug, Clone, PartialEq)]\n{decl}");
			if !codec {
				continue;
			}
			let pat = |(name, len, named): &(String, usize, bool)| -> String {
				if *named {
					format!("{name} {{ {} }}", (0..*len).map(|k| format!("f{k}")).collect::<Vec<_>>().join(", "))
				} else if *len == 0 {
					name.clone()
				} else {
					format!("{name}({})", (0..*len).map(|k| format!("f{k}")).collect::<Vec<_>>().join(", "))
				}
			};
			let mut put = String::new();
			let mut refuse = String::new();
			let mut get = String::new();
			for (k, v) in variants.iter().enumerate() {
				let p = pat(v);
				let tag = if is_enum { format!("out.push({k}); ") } else { String::new() };
				let puts: String = (0..v.1).map(|j| format!("vi::Wire::put(f{j}, out); ")).collect();
				let _ = write!(put, "{p} => {{ {tag}{puts} }} ");
				let refs: String = (0..v.1).map(|j| format!("r = vi::worst(r, vi::Wire::refuse(f{j})); ")).collect();
				let _ = write!(refuse, "{p} => {{ {refs} }} ");
				let gets: String = (0..v.1).map(|j| format!("let f{j} = vi::Wire::get(r)?; ")).collect();
				if is_enum {
					let _ = write!(get, "{k} => {{ {gets} Ok({p}) }} ");
				} else {
					let _ = write!(get, "{gets} Ok({p})");
				}
			}
			if is_enum {
				get = format!("match vi::byte(r)? {{ {get} x => Err(format!(\"bad tag {{x}}\")) }}");
			}
			let _ = writeln!(
				o,
				"impl vi::Wire for {n} {{\n fn name() -> String {{ \"{n}\".into() }}\n #[allow(unused_variables)] fn put(&self, out: &mut Vec<u8>) {{ match self {{ {put} }} }}\n #[allow(unused_mut, unused_variables)] fn refuse(&self) -> Option<u32> {{ let mut r = None; match self {{ {refuse} }} r }}\n fn get(r: &mut &[u8]) -> Result<Self, String> {{ {get} }}\n}}"
			);
		}
		o
	}

	/// A random value in encoded form. `poison`: with a part that the format refuses to encode (1) or to decode (2).
	pub fn value(&self, t: &Ty, rng: &mut Rng, poison: u32) -> Vec<u8> {
		let mut out = Vec::new();
		self.put(t, rng, poison, &mut out);
		out
	}

	fn put(&self, t: &Ty, rng: &mut Rng, poison: u32, out: &mut Vec<u8>) {
		match t {
			Ty::Unit => {}
			Ty::U8 => out.push(rng.u32() as u8),
			Ty::U32 => out.extend(crate::util::any_u32(rng).to_le_bytes()),
			Ty::I64 => out.extend(rng.u64().to_le_bytes()),
			Ty::Bool => out.push(rng.below(2) as u8),
			Ty::Str => {
				let n = rng.below(20);
				let s: String = (0..n).map(|_| *rng.pick(&['a', 'Z', '0', ' ', 'ü', '漢', '\0', '\n'])).collect();
				out.extend((s.len() as u32).to_le_bytes());
				out.extend(s.as_bytes());
			}
			Ty::Fussy => {
				let v = rng.u32() & 0x0fff_ffff
					| match poison {
						1 => 0xe000_0000,
						2 => 0xd000_0000,
						_ => 0,
					};
				out.extend(v.to_le_bytes());
			}
			Ty::Vec(t) => {
				let n = if poison > 0 { rng.range(1, 4) } else { rng.below(5) };
				out.extend((n as u32).to_le_bytes());
				for _ in 0..n {
					self.put(t, rng, poison, out);
				}
			}
			Ty::Opt(t) => {
				let some = poison > 0 || rng.chance(1, 2);
				out.push(some as u8);
				if some {
					self.put(t, rng, poison, out);
				}
			}
			Ty::Boxed(t) => self.put(t, rng, poison, out),
			Ty::Arr4(t) => (0..4).for_each(|_| self.put(t, rng, poison, out)),
			Ty::Tuple(v) => v.iter().for_each(|t| self.put(t, rng, poison, out)),
			Ty::User(i) => match &self.types[*i] {
				UserTy::Struct(f) | UserTy::TupleStruct(f) => f.iter().for_each(|t| self.put(t, rng, poison, out)),
				UserTy::Enum(vs) => {
					let mut k = rng.below(vs.len());
					if poison > 0 {
						if let Some(j) = vs.iter().position(|f| f.iter().any(|t| self.fussy(t))) {
							k = j;
						}
					}
					out.push(k as u8);
					vs[k].iter().for_each(|t| self.put(t, rng, poison, out));
				}
			},
		}
	}

	/// Whether values of the type can be refused.
	pub fn fussy(&self, t: &Ty) -> bool {
		match t {
			Ty::Fussy => true,
			Ty::Vec(t) | Ty::Opt(t) | Ty::Boxed(t) | Ty::Arr4(t) => self.fussy(t),
			Ty::Tuple(v) => v.iter().any(|t| self.fussy(t)),
			Ty::User(i) => match &self.types[*i] {
				UserTy::Struct(f) | UserTy::TupleStruct(f) => f.iter().any(|t| self.fussy(t)),
				UserTy::Enum(vs) => vs.iter().flatten().any(|t| self.fussy(t)),
			},
			_ => false,
		}
	}

	/// A body that the format does not decode.
	pub fn invalid(&self, t: &Ty, rng: &mut Rng) -> Vec<u8> {
		loop {
			let mut v = self.value(t, rng, 0);
			match rng.below(5) {
				0 => v.push(rng.u32() as u8),
				1 => {
					let n = rng.below(v.len().max(1));
					v.truncate(n);
				}
				2 => v = { let n = rng.below(20); rng.bytes(n) },
				3 if self.fussy(t) => v = self.value(t, rng, 2),
				_ => {
					if !v.is_empty() {
						let i = rng.below(v.len());
						v[i] ^= 1 << rng.below(8);
					} else {
						v.push(0);
					}
				}
			}
			if !self.decodes(t, &v) {
				return v;
			}
		}
	}

	pub fn decodes(&self, t: &Ty, v: &[u8]) -> bool {
		let mut r = v;
		self.scan(t, &mut r) && r.is_empty()
	}

	fn scan(&self, t: &Ty, r: &mut &[u8]) -> bool {
		fn take<'a>(r: &mut &'a [u8], n: usize) -> Option<&'a [u8]> {
			if r.len() < n {
				return None;
			}
			let (a, b) = r.split_at(n);
			*r = b;
			Some(a)
		}
		fn u32_of(r: &mut &[u8]) -> Option<u32> {
			take(r, 4).map(|b| u32::from_le_bytes(b.try_into().unwrap()))
		}
		match t {
			Ty::Unit => true,
			Ty::U8 => take(r, 1).is_some(),
			Ty::U32 => take(r, 4).is_some(),
			Ty::I64 => take(r, 8).is_some(),
			Ty::Bool => matches!(take(r, 1), Some([0 | 1])),
			Ty::Str => match u32_of(r) {
				Some(n) => take(r, n as usize).map(|b| std::str::from_utf8(b).is_ok()).unwrap_or(false),
				None => false,
			},
			Ty::Fussy => matches!(u32_of(r), Some(v) if v >> 28 != 0xd),
			Ty::Vec(t) => match u32_of(r) {
				Some(n) if n <= 1000 => (0..n).all(|_| self.scan(t, r)),
				_ => false,
			},
			Ty::Opt(t) => match take(r, 1) {
				Some([0]) => true,
				Some([1]) => self.scan(t, r),
				_ => false,
			},
			Ty::Boxed(t) => self.scan(t, r),
			Ty::Arr4(t) => (0..4).all(|_| self.scan(t, r)),
			Ty::Tuple(v) => v.iter().all(|t| self.scan(t, r)),
			Ty::User(i) => match &self.types[*i] {
				UserTy::Struct(f) | UserTy::TupleStruct(f) => f.iter().all(|t| self.scan(t, r)),
				UserTy::Enum(vs) => match take(r, 1) {
					Some([k]) if (*k as usize) < vs.len() => vs[*k as usize].iter().all(|t| self.scan(t, r)),
					_ => false,
				},
			},
		}
	}
}

/// The documentation string as it should come out of the introspection data.
pub fn doc_text(d: &Doc) -> String {
	let indent = d.lines.iter().filter(|l| !l.trim_matches(' ').is_empty()).map(|l| l.len() - l.trim_start_matches(' ').len()).min().unwrap_or(0);
	let mut out = String::new();
	for l in &d.lines {
		if !l.trim_matches(' ').is_empty() {
			out += &l[indent..];
		}
		out.push('\n');
	}
	out
}
