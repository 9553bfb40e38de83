//! C25: the compiler's verdict on well-formed and ill-formed interface definitions.

use crate::ifdrive::{check_crate, index_of};
use crate::ifemit;
use crate::ifgen::*;
use crate::report::{Obs, Report};
use crate::rng::{hash_bytes, mix, Rng};
use std::collections::{BTreeMap, BTreeSet};

fn prelude(d: &Def) -> String {
	format!("#[derive(Debug, Clone, PartialEq)]\npub struct Fussy(pub u32);\nconst FOUR: usize = 4;\n{}\n", d.types_source(false))
}

fn pick_two(rng: &mut Rng, n: usize) -> (usize, usize) {
	let a = rng.below(n);
	let b = (a + 1 + rng.below(n - 1)) % n;
	(a.min(b), a.max(b))
}

fn id_text(rng: &mut Rng, id: i32) -> String {
	let sign = if id < 0 { "-" } else { "" };
	let m = (id as i64).unsigned_abs();
	match rng.below(4) {
		0 => format!("{sign}0x{m:x}"),
		1 => format!("{sign}0b{m:b}"),
		_ => format!("{sign}{m}"),
	}
}

/// Copy the ID (or the name) of one item to another, at times to more than one.
fn duplicate(rng: &mut Rng, items: &mut [&mut Msg], name: bool) -> String {
	let n = items.len();
	let (a, b) = pick_two(rng, n);
	let more = rng.chance(1, 4);
	let (id, nm) = (items[a].id, items[a].name.clone());
	for k in 0..n {
		if k == b || (more && k > b) {
			if name {
				items[k].name = nm.clone();
			} else {
				items[k].id = id;
				items[k].id_text = id_text(rng, id);
			}
		}
	}
	format!("{} of {a} and {b} of {n}", if name { "name" } else { "ID" })
}

/// A definition with more items than most.
fn rich(rng: &mut Rng, axis: usize, ok: impl Fn(&Def) -> bool) -> Def {
	let wide = rng.chance(1, 2);
	loop {
		let d = if wide { generate_wide(rng, Some(axis)) } else { generate(rng) };
		if ok(&d) {
			return d;
		}
	}
}

/// Two items of one kind with the same ID or name.
fn ambiguous(rng: &mut Rng) -> (String, Def) {
	let name = rng.chance(1, 2);
	match rng.below(4) {
		0 => {
			let mut d = rich(rng, 0, |d| d.services.len() >= 2);
			let n = d.services.len();
			let (a, b) = pick_two(rng, n);
			let more = rng.chance(1, 4);
			let (id, nm) = (d.services[a].id, d.services[a].name.clone());
			for k in 0..n {
				if k == b || (more && k > b) {
					if name {
						d.services[k].name = nm.clone();
					} else {
						d.services[k].id = id;
						d.services[k].id_text = id_text(rng, id);
					}
				}
			}
			(format!("services share {}: {a} and {b} of {n}", if name { "name" } else { "ID" }), d)
		}
		1 => {
			let mut d = rich(rng, 1, |d| d.streams.len() >= 2);
			let mut v: Vec<&mut Msg> = d.streams.iter_mut().collect();
			let t = duplicate(rng, &mut v, name);
			(format!("streams share {t}"), d)
		}
		k => {
			let req = k == 2;
			let count = |s: &Svc| s.updates.iter().filter(|(r, _)| *r == req).count();
			let mut d = rich(rng, k, |d| d.services.iter().any(|s| count(s) >= 2));
			let s = d.services.iter_mut().filter(|s| count(s) >= 2).max_by_key(|s| count(s)).unwrap();
			let mut v: Vec<&mut Msg> = s.updates.iter_mut().filter(|(r, _)| *r == req).map(|(_, m)| m).collect();
			let t = duplicate(rng, &mut v, name);
			(format!("{} updates share {t}", if req { "request" } else { "response" }), d)
		}
	}
}

const KEYWORDS: [&str; 4] = ["service", "stream", "request_update", "response_update"];

struct Line {
	indent: String,
	kw: String,
	id: String,
	name: String,
	ty: String,
	resp: Option<String>,
	tail: String,
}

impl Line {
	fn parse(text: &str) -> Option<Line> {
		let t = text.trim_start();
		let indent = text[..text.len() - t.len()].to_string();
		let (kw, rest) = t.split_once(' ')?;
		if !KEYWORDS.contains(&kw) {
			return None;
		}
		let (id, rest) = rest.split_once(' ')?;
		let (name, rest) = rest.split_once(": ")?;
		let (ty, resp, tail) = if kw == "service" {
			let (ty, rest) = rest.split_once(" -> ")?;
			let (resp, tail) = if let Some(r) = rest.strip_suffix(" {") { (r, " {") } else { (rest.strip_suffix(',')?, ",") };
			(ty, Some(resp.to_string()), tail)
		} else {
			match rest.strip_suffix(',') {
				Some(r) => (r, None, ","),
				None => (rest, None, ""),
			}
		};
		Some(Line { indent, kw: kw.into(), id: id.into(), name: name.into(), ty: ty.into(), resp, tail: tail.into() })
	}

	fn text(&self, colon: &str, arrow: &str) -> String {
		let resp = match &self.resp {
			Some(r) => format!(" {arrow} {r}"),
			None => String::new(),
		};
		format!("{}{} {} {}{colon} {}{resp}{}", self.indent, self.kw, self.id, self.name, self.ty, self.tail)
	}
}

/// A definition with a syntax error.
fn malformed(rng: &mut Rng) -> (String, Def, String) {
	loop {
		let d = generate(rng);
		if d.services.is_empty() && d.streams.is_empty() {
			continue;
		}
		let src = d.source();
		let mut lines: Vec<String> = src.lines().map(|s| s.to_string()).collect();
		let at: Vec<usize> = (0..lines.len()).filter(|i| Line::parse(&lines[*i]).is_some()).collect();
		let i = *rng.pick(&at);
		let mut l = Line::parse(&lines[i]).unwrap();
		let service = l.kw == "service";
		let top = service || l.kw == "stream";
		let what = rng.below(26);
		let mut s = |v: &str| v.to_string();
		let label: String;
		match what {
			0 => {
				l.kw = rng.pick(&["", "Service", "services", "fn", "update", "event", "r#stream", "\"stream\"", "interface", "pub stream", "hidden"]).to_string();
				label = format!("keyword {:?}", l.kw);
				lines[i] = l.text(":", "->");
			}
			1 | 2 => {
				l.id = rng
					.pick(&["", "2147483648", "-2147483649", "0x80000000", "-0x80000001", "4294967295", "99999999999999999999", "1.0", "-1.5", "1e3", "\"1\"", "'a'", "one", "(1)", "--1", "+1", "1 + 1", "ID", "true", "b'1'", "-", "1, 2", "_"])
					.to_string();
				label = format!("ID {:?}", l.id);
				lines[i] = l.text(":", "->");
			}
			3 => {
				l.name = rng.pick(&["", "fn", "self", "Self", "super", "crate", "_", "a.b", "a::b", "\"a\"", "a-b", "a b", "5", "type", "a<T>", "'a", "(a)"]).to_string();
				label = format!("name {:?}", l.name);
				lines[i] = l.text(":", "->");
			}
			4 => {
				let c = *rng.pick(&["", " =", " ::", ";", ",", ": :", " ->"]);
				label = format!("{c:?} in place of the colon");
				lines[i] = l.text(c, "->");
			}
			5 => {
				l.ty = rng.pick(&["", "fn", "1", "u8 u8", "u8; u8", "=", "Vec<", "&", "u8 = 1", "\"x\"", "u8 + 1", "[u8", "struct"]).to_string();
				if l.ty.contains('[') {
					l.ty = "[u8; ]".into();
				}
				label = format!("type {:?}", l.ty);
				lines[i] = l.text(":", "->");
			}
			6 if service => {
				let a = *rng.pick(&["", "=>", "-", ":", ",", "-> ->", "<-", "- >"]);
				label = format!("{a:?} in place of the arrow");
				lines[i] = l.text(":", a);
			}
			7 if service => {
				l.resp = Some(rng.pick(&["", "fn", "1", "u8 u8", "=", "&", "u8 -> u8"]).to_string());
				label = format!("response type {:?}", l.resp);
				lines[i] = l.text(":", "->");
			}
			8 if service => {
				l.resp = None;
				label = s("service without response");
				lines[i] = l.text(":", "->");
			}
			9 if !service => {
				l.resp = Some("u8".into());
				label = s("response on a message without one");
				lines[i] = l.text(":", "->");
			}
			10 if l.tail == "," => {
				// The comma separates the item from a next one.
				let last = *at.last().unwrap() == i || !lines[i + 1..].iter().take_while(|x| !x.trim_start().starts_with('}')).any(|x| Line::parse(x).is_some());
				if last {
					continue;
				}
				l.tail = rng.pick(&["", ";", ",,", ", ;"]).to_string();
				label = format!("{:?} in place of the comma", l.tail);
				lines[i] = l.text(":", "->");
			}
			11 => {
				let a = *rng.pick(&["#[foo]", "#[allow(dead_code)]", "#[hidden(1)]", "#[hidden = \"x\"]", "#[hidden()]", "#[cfg(test)]", "#[doc::hidden]", "#[derive(Debug)]", "#[Hidden]", "#[must_use]", "#![hidden]", "#hidden", "#[docs = \"x\"]"]);
				label = format!("attribute {a}");
				let at = if rng.chance(1, 6) { 0 } else { i };
				lines.insert(at, a.to_string());
			}
			12 if top => {
				l.kw = rng.pick(&["request_update", "response_update"]).to_string();
				l.resp = None;
				l.tail = ",".into();
				if service && lines[i].ends_with('{') {
					continue;
				}
				label = s("update outside a service");
				lines[i] = l.text(":", "->");
			}
			13 if !top => {
				l.kw = rng.pick(&["stream", "service"]).to_string();
				if l.kw == "service" {
					l.resp = Some("u8".into());
				}
				label = format!("{} inside a service", l.kw);
				lines[i] = l.text(":", "->");
			}
			14..=17 => {
				let k = lines.iter().position(|x| x.contains("interface ") && x.trim_end().ends_with('{') && Line::parse(x).is_none() && !x.trim_start().starts_with('/') && !x.trim_start().starts_with('#')).unwrap();
				let head = lines[k].clone();
				let new = match rng.below(8) {
					0 => head.replace("interface ", ""),
					1 => head.replace("interface ", "interfaces "),
					2 => head.replace(&format!("interface {}", d.name), "interface"),
					3 => head.replace(&format!("interface {}", d.name), &format!("interface {}<T>", d.name)),
					4 => head.replace("interface ", "interface pub "),
					5 => head.replace("interface ", "pub pub interface "),
					6 => head.replace(&format!("interface {}", d.name), &format!("interface {} :", d.name)),
					_ => head.replace(&format!("interface {}", d.name), "interface 5"),
				};
				label = format!("head {new:?}");
				lines[k] = new;
			}
			18 => {
				lines.push(rng.pick(&["interface Second {}", ";", "stream 1 x: u8,", "}}".trim_start_matches('}'), "#[hidden]", "junk"]).to_string());
				if lines.last().unwrap().is_empty() {
					continue;
				}
				label = format!("{:?} behind the interface", lines.last().unwrap());
			}
			19 => {
				lines = vec![s(*rng.pick(&["", "interface X", "interface X;", "interface", "pub", "/// doc", "interface X ()", "interface X []", "struct X {}", "X {}"]))];
				label = format!("definition {:?}", lines[0]);
			}
			20 => {
				// At the end of the interface.
				let k = lines.iter().rposition(|x| x == "}").unwrap();
				let junk = *rng.pick(&["/// Documentation of nothing.", "#[hidden]", ", ,", ";", "stream", "service 1", "{}", "1", "stream {}", "service 1 a: u8 -> u8 { stream 1 b: u8, },"]);
				label = format!("{junk:?} at the end of the interface");
				lines.insert(k, junk.to_string());
			}
			21 => {
				let Some(k) = lines.iter().position(|x| x.starts_with("\t}")) else { continue };
				let junk = *rng.pick(&["/// Documentation of nothing.", "#[hidden]", ", ,", ";", "request_update", "{}", "1"]);
				label = format!("{junk:?} at the end of a service");
				lines.insert(k, junk.to_string());
			}
			22 if service && l.tail == " {" => {
				// Parentheses in place of braces.
				let Some(k) = lines[i..].iter().position(|x| x.starts_with("\t}")) else { continue };
				lines[i].pop();
				lines[i].push('(');
				lines[i + k] = lines[i + k].replacen('}', ")", 1);
				label = s("service body in parentheses");
			}
			23 if service => {
				l.id = "-1".into();
				label = s("service with the ID of error responses");
				lines[i] = l.text(":", "->");
			}
			24 => {
				std::mem::swap(&mut l.id, &mut l.name);
				label = s("name before ID");
				lines[i] = l.text(":", "->");
			}
			25 if !top && rng.chance(1, 2) => {
				// No comma between two updates.
				if l.tail.is_empty() || !lines[i + 1..].iter().take_while(|x| !x.trim_start().starts_with('}')).any(|x| Line::parse(x).is_some()) {
					continue;
				}
				l.tail = String::new();
				label = s("no comma between updates");
				lines[i] = l.text(":", "->");
			}
			_ => continue,
		}
		return (label, d, lines.join("\n") + "\n");
	}
}

/// Well-formed definitions that are chosen rather than random.
const CURATED: &[&str] = &[
	"interface Empty {}",
	"pub interface Empty {}",
	"pub(crate) interface OnlyService { service 1 a: () -> (), }",
	"interface OnlyStream { stream 1 a: (), }",
	// The same IDs and names for things of different kinds.
	"pub interface Same { service 1 a: u8 -> u8 { request_update 1 a: u8, response_update 1 a: u8, } stream 1 a: u8, }",
	"pub interface Same { stream 7 b: String, service 7 b: String -> String { response_update 7 b: String, request_update 7 b: u32 }, service 8 c: () -> () { request_update 7 b: u32, response_update 7 b: u8, }, }",
	"pub interface Limits { service 2147483647 a: u8 -> u8, service -2147483648 b: u8 -> u8, stream 2147483647 a: u8, stream -2147483648 b: u8, }",
	"pub interface Limits { service 0 a: u8 -> u8 { request_update 2147483647 a: u8, request_update -2147483648 b: u8, response_update 2147483647 a: u8, response_update -2147483648 b: u8, } }",
	"pub interface Limits { service -0x80000000 a: u8 -> u8, stream 0x7fff_ffff a: u8, stream -1 b: u8, stream 0 c: u8, }",
	"pub interface Minus { service 1 a: u8 -> u8 { request_update -1 a: u8, response_update -1 a: u8 } stream -1 a: u8, }",
	"interface Body { service 1 a: u8 -> u8 {} service 2 b: u8 -> u8 {}, service 3 c: u8 -> u8, }",
	"#[hidden] interface Hidden { #[hidden] service 1 a: u8 -> u8 { #[hidden] request_update 1 a: u8, } #[hidden] stream 1 a: u8, }",
	"/// a\n#[hidden]\n/// b\ninterface Hidden { /// a\n #[hidden] /// b\n stream 1 a: u8, }",
	"interface Types { stream 1 a: ::std::collections::BTreeMap<String, Vec<(u8, [u8; 3])>>, stream 2 b: &'static str, stream 3 c: Box<[u8]>, stream 4 d: fn(u8) -> u8, stream 5 e: Option<Result<(), String>>, stream 6 f: <u8 as ::core::ops::Add>::Output, }",
	"interface Types { service 1 a: &'static str -> fn(u8) -> u8, service 2 b: (u8, ) -> ((), (), [(); 0]), service 3 c: (u8) -> (u8), }",
	"interface Raw { service 1 r#type: u8 -> u8 { request_update 1 r#fn: u8, response_update 1 r#match: u8, } stream 1 r#loop: u8, }",
	"interface Many { stream 0 a: u8, stream 1 b: u8, stream 2 c: u8, stream 3 d: u8, stream 4 e: u8, stream 5 f: u8, stream 6 g: u8, stream 7 h: u8, stream 8 i: u8, stream 9 j: u8, stream 10 k: u8, stream 11 l: u8, stream -11 m: u8, stream -10 n: u8, }",
	"interface CaseDiffers { stream 1 one: u8, stream 2 one_two: u8, stream 3 three: u8, service 1 one: u8 -> u8, service 2 one_two: u8 -> u8, }",
];

pub fn run(rep: &Report) {
	let t = rep.settings.thorough();
	let verif = rep.settings.verif.clone();
	let seed = rep.settings.seed;
	rep.rule("compiler verdict on random definitions: well-formed ones (all shapes of C22), ones with a duplicate ID or name among services, streams or updates of one direction, and ones with one of 26 classes of syntax error; each in a module of its own, errors attributed by file, and definitions without an error compiled alone until the compiler accepts them");

	// Well-formed.
	let n = if t { 3000 } else { 300 };
	let mut defs: Vec<(String, String)> = family(mix(seed ^ 0xc25), n).iter().map(|d| (d.source(), ifemit::bare_module(d))).collect();
	defs.extend(CURATED.iter().map(|c| (c.to_string(), format!("::fizyr_rpc::interface! {{\n{c}\n}}\n"))));
	let files = |v: &BTreeSet<usize>, all: &[(String, String)]| -> Vec<(String, String)> { v.iter().map(|i| (format!("case{i}.rs"), all[*i].1.clone())).collect() };
	let mut left: BTreeSet<usize> = (0..defs.len()).collect();
	let mut suspects: BTreeMap<usize, String> = BTreeMap::new();
	for _ in 0..4 {
		let b = check_crate(&verif, "c25-good", &files(&left, &defs));
		if b.ok {
			break;
		}
		let mut any = false;
		for e in &b.errors {
			if let Some(i) = index_of(&e.file, "case") {
				any = true;
				suspects.entry(i).or_insert_with(|| e.text.clone());
				left.remove(&i);
			}
		}
		if !any {
			println!("ERROR: can not compile: {:?} {:?}", b.errors.first().map(|e| &e.text), b.other.first());
			std::process::exit(3);
		}
	}
	// An error in one definition may not be blamed on another: compile suspects alone.
	for (i, text) in suspects.iter().take(12) {
		let b = check_crate(&verif, "c25-alone", &files(&[*i].into(), &defs));
		if b.ok {
			left.insert(*i);
			continue;
		}
		let mut obs = Obs::default();
		obs.violate("rejected", format!("a well-formed interface does not compile: {text}; {}", defs[*i].0));
		rep.add("well-formed", *i as u64, obs);
	}
	for i in &left {
		let mut obs = Obs::default();
		obs.count("well_formed_accepted", 1);
		obs.signature = Some(hash_bytes(defs[*i].0.as_bytes()));
		obs.sample = defs[*i].0.clone();
		rep.add("well-formed", *i as u64, obs);
	}

	// Ill-formed.
	let n = if t { 6000 } else { 900 };
	let mut cases: Vec<(String, String)> = Vec::new();
	let mut kinds: Vec<&'static str> = Vec::new();
	let mut seen = BTreeSet::new();
	let mut rng = Rng::new(mix(seed ^ 0xbad25));
	while cases.len() < n {
		let (kind, label, d, src) = if rng.chance(2, 5) {
			let (l, d) = ambiguous(&mut rng);
			let s = d.source();
			("ambiguous", l, d, s)
		} else {
			let (l, d, s) = malformed(&mut rng);
			("malformed", l, d, s)
		};
		if seen.insert(src.clone()) {
			kinds.push(kind);
			cases.push((format!("{label}: {src}"), format!("{}\n::fizyr_rpc::interface! {{\n{src}}}\n", prelude(&d))));
		}
	}
	let mut left: BTreeSet<usize> = (0..cases.len()).collect();
	let mut accepted = false;
	let mut crashed: BTreeMap<usize, String> = BTreeMap::new();
	for _ in 0..6 {
		if left.is_empty() {
			break;
		}
		let b = check_crate(&verif, "c25-bad", &files(&left, &cases));
		if b.ok {
			accepted = true;
			break;
		}
		let mut any = false;
		for e in &b.errors {
			if let Some(i) = index_of(&e.file, "case") {
				any = true;
				left.remove(&i);
				if e.text.contains("panicked") {
					crashed.entry(i).or_insert_with(|| e.text.clone());
				}
			}
		}
		if !any {
			println!("ERROR: can not tell the verdict: {:?} {:?}", b.errors.first().map(|e| (&e.file, &e.text)), b.other.first());
			std::process::exit(3);
		}
	}
	if !accepted && !left.is_empty() {
		println!("ERROR: {} definitions without a verdict", left.len());
		std::process::exit(3);
	}
	for (i, kind) in kinds.iter().enumerate() {
		let mut obs = Obs::default();
		obs.signature = Some(hash_bytes(cases[i].0.as_bytes()));
		if left.contains(&i) {
			obs.violate(format!("accepted-{kind}"), format!("the compiler accepts an interface that is {kind}: {}", cases[i].0));
		} else if let Some(text) = crashed.get(&i) {
			obs.violate("crash", format!("the macro panics in place of reporting an error: {text}; {}", cases[i].0));
		} else {
			obs.count(&format!("{kind}_rejected"), 1);
		}
		if i % 97 == 0 {
			obs.sample = cases[i].0.clone();
		}
		rep.add("ill-formed", i as u64, obs);
	}

	// A known limitation.
	let b = check_crate(&verif, "c25-known", &[("case0.rs".into(), "mod types { pub struct Image; }\nmod rpc { ::fizyr_rpc::interface! { interface X { service 1 a: () -> super::types::Image, } } }\n".into())]);
	let mut obs = Obs::default();
	if !b.ok {
		obs.violate("relative-type-path", format!("`service 1 a: () -> super::types::Image` does not compile: {}", b.errors.first().map(|e| e.text.as_str()).unwrap_or("")));
	}
	obs.count("relative_paths", 1);
	rep.add("relative-path", 0, obs);
	rep.require("well_formed_accepted", 200);
	rep.require("ambiguous_rejected", 200);
	rep.require("malformed_rejected", 300);
}
