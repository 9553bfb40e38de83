//! Runs the program in /verif/mt (many threads on one connection): as it is, with ThreadSanitizer, and in the
//! undefined behaviour interpreter (C26).

use crate::ifdrive::check_crate_with;
use crate::report::{Obs, Report};
use crate::rng::{hash_bytes, mix};
use std::path::Path;
use std::process::{Command, Stdio};

#[derive(Clone, Copy, PartialEq)]
enum Variant {
	Native,
	Tsan,
	Miri,
}

impl Variant {
	fn name(self) -> &'static str {
		match self {
			Variant::Native => "threads",
			Variant::Tsan => "threads-tsan",
			Variant::Miri => "threads-miri",
		}
	}
}

const TARGET: &str = "x86_64-unknown-linux-gnu";

fn cargo(dir: &Path, v: Variant, run: bool) -> Command {
	let mut c = Command::new("cargo");
	c.current_dir(dir).env_remove("RUSTUP_TOOLCHAIN").env_remove("RUSTFLAGS").env_remove("CARGO").stdin(Stdio::null());
	match v {
		Variant::Native => {
			c.args(["build", "--offline", "--features", "real"]);
		}
		Variant::Tsan => {
			c.args(["+nightly", "build", "--offline", "--features", "real", "-Zbuild-std", "--target", TARGET, "--target-dir", "../target/tsan"]);
			c.env("RUSTFLAGS", "--cfg fizyr_rpc_verify -Zsanitizer=thread");
		}
		Variant::Miri => {
			c.args(["+nightly", "miri", "run", "--offline", "--target-dir", "../target/miri", "--"]);
			c.env("RUSTFLAGS", "--cfg fizyr_rpc_verify");
			if !run {
				c.args(["1", "0", "1", "1"]);
			}
		}
	}
	c
}

fn tail(s: &[u8], n: usize) -> String {
	let s = String::from_utf8_lossy(s);
	s.chars().rev().take(n).collect::<Vec<_>>().into_iter().rev().collect()
}

/// Data races that ThreadSanitizer reported: the whole text of each.
fn races(err: &str) -> Vec<String> {
	let mut out = Vec::new();
	for part in err.split("WARNING: ThreadSanitizer: ").skip(1) {
		let text = part.split("==================").next().unwrap_or(part);
		out.push(text.to_string());
	}
	out
}

fn run_one(rep: &Report, dir: &Path, v: Variant, seed: u64, cases: u64, seconds: u64, size: u64, only: Option<u64>) {
	let mut args: Vec<String> = vec![seed.to_string(), cases.to_string(), seconds.to_string(), size.to_string()];
	args.extend(only.map(|s| s.to_string()));
	let verif = &rep.settings.verif;
	let mut c = match v {
		Variant::Native => Command::new(verif.join("target/debug/fizyr-verif-mt")),
		Variant::Tsan => {
			let mut c = Command::new(verif.join("target/tsan").join(TARGET).join("debug/fizyr-verif-mt"));
			c.env("TSAN_OPTIONS", format!("exitcode=0 halt_on_error=0 suppressions={}", dir.join("tsan.supp").display()));
			c
		}
		Variant::Miri => {
			let mut c = cargo(dir, v, true);
			c.env("MIRIFLAGS", format!("-Zmiri-disable-isolation -Zmiri-seed={} -Zmiri-preemption-rate=0.0{}", seed % 1_000_000, 1 + seed % 9));
			c
		}
	};
	let out = match c.args(&args).stdin(Stdio::null()).output() {
		Ok(x) => x,
		Err(e) => {
			println!("ERROR: can not run {}: {e}", v.name());
			std::process::exit(3);
		}
	};
	let text = String::from_utf8_lossy(&out.stdout);
	let err = String::from_utf8_lossy(&out.stderr);
	let mut ended = false;
	let mut last = 0;
	for line in text.lines() {
		let Ok(j) = serde_json::from_str::<serde_json::Value>(line) else { continue };
		if j["end"] == true {
			ended = true;
			continue;
		}
		let case = j["case"].as_u64().unwrap_or(0);
		last = case;
		let mut obs = Obs::default();
		for x in j["violations"].as_array().into_iter().flatten() {
			obs.violate(x[0].as_str().unwrap_or(""), x[1].as_str().unwrap_or(""));
		}
		obs.inconclusive = j["inconclusive"].as_str().map(|s| s.to_string());
		for (k, n) in j["counts"].as_object().into_iter().flatten() {
			obs.count(&format!("{}_{}", v.name(), k.replace(' ', "_")), n.as_u64().unwrap_or(0));
		}
		obs.count(&format!("{}_cases", v.name()), 1);
		if j["counts"]["events"].as_u64().unwrap_or(0) > 8 {
			obs.signature = j["signature"].as_u64().map(|s| mix(s ^ hash_bytes(v.name().as_bytes())));
			obs.sample = line.chars().take(700).collect();
		}
		rep.add(v.name(), case, obs);
	}
	if v == Variant::Tsan {
		for r in races(&err) {
			let mut obs = Obs::default();
			if r.contains("/repo/") {
				obs.violate("data-race", format!("ThreadSanitizer: {}", r.chars().take(3000).collect::<String>()));
			} else {
				obs.count("tsan_reports_outside_the_crate", 1);
				rep.note(&r.chars().take(600).collect::<String>());
			}
			rep.add(v.name(), seed, obs);
		}
	}
	if !ended || !out.status.success() {
		let mut obs = Obs::default();
		let t = tail(&out.stderr, 4000);
		let what = t.lines().find(|l| l.starts_with("error")).unwrap_or("").to_string();
		let killed = format!("{:?}", out.status).contains("signal: 9");
		if v == Variant::Miri && (what.contains("Undefined Behavior") || what.contains("deadlock") || what.contains("leaked")) {
			obs.violate("interpreter", format!("{what}: {t}"));
		} else if v == Variant::Miri || killed {
			obs.inconclusive = Some(format!("{} ended: {:?}: {t}", v.name(), out.status));
			println!("ERROR: {} ended: {:?}: {t}", v.name(), out.status);
			std::process::exit(3);
		} else {
			obs.violate("crash", format!("the program ended with {:?} after case {last}: {t}", out.status));
		}
		rep.add(v.name(), seed, obs);
	}
}

const SHARED: &[&str] = &[
	"PeerHandle<StreamBody>",
	"PeerReadHandle<StreamBody>",
	"PeerWriteHandle<StreamBody>",
	"PeerCloseHandle<StreamBody>",
	"SentRequestHandle<StreamBody>",
	"SentRequestWriteHandle<StreamBody>",
	"ReceivedRequestHandle<StreamBody>",
	"ReceivedRequestWriteHandle<StreamBody>",
	"ReceivedMessage<StreamBody>",
	"Message<StreamBody>",
	"PeerHandle<UnixBody>",
	"PeerReadHandle<UnixBody>",
	"PeerWriteHandle<UnixBody>",
	"PeerCloseHandle<UnixBody>",
	"SentRequestHandle<UnixBody>",
	"SentRequestWriteHandle<UnixBody>",
	"ReceivedRequestHandle<UnixBody>",
	"ReceivedRequestWriteHandle<UnixBody>",
	"ReceivedMessage<UnixBody>",
	"Message<UnixBody>",
	"Peer<TcpTransport>",
	"Peer<UnixStreamTransport>",
	"Peer<UnixSeqpacketTransport>",
	"TcpTransport",
	"UnixStreamTransport",
	"UnixSeqpacketTransport",
	"TcpListener",
	"UnixStreamListener",
	"UnixSeqpacketListener",
];

const FUTURES: &[(&str, &str)] = &[
	("w: PeerWriteHandle<StreamBody>", "w.send_request(1, vec![])"),
	("w: PeerWriteHandle<StreamBody>", "w.send_stream(1, vec![])"),
	("mut h: PeerReadHandle<StreamBody>", "h.recv_message()"),
	("mut h: PeerHandle<StreamBody>", "h.recv_message()"),
	("h: PeerHandle<StreamBody>", "h.send_request(1, vec![])"),
	("h: PeerHandle<StreamBody>", "h.send_stream(1, vec![])"),
	("mut h: SentRequestHandle<StreamBody>", "h.recv_update()"),
	("mut h: SentRequestHandle<StreamBody>", "h.recv_response()"),
	("h: SentRequestHandle<StreamBody>", "h.send_update(1, vec![])"),
	("h: SentRequestWriteHandle<StreamBody>", "h.send_update(1, vec![])"),
	("mut h: ReceivedRequestHandle<UnixBody>", "h.recv_update()"),
	("h: ReceivedRequestHandle<UnixBody>", "h.send_update(1, vec![])"),
	("h: ReceivedRequestWriteHandle<UnixBody>", "h.send_update(1, vec![])"),
	("h: ReceivedRequestHandle<UnixBody>", "h.send_response(1, vec![])"),
	("h: ReceivedRequestWriteHandle<UnixBody>", "h.send_error_response(\"a\")"),
	("p: Peer<TcpTransport>", "p.run()"),
	("p: Peer<UnixStreamTransport>", "p.run()"),
	("p: Peer<UnixSeqpacketTransport>", "p.run()"),
	("mut l: TcpListener", "l.accept()"),
	("mut l: UnixSeqpacketListener", "l.accept()"),
];

/// What the handles promise at compile time.
fn bounds(rep: &Report) {
	let mut files = Vec::new();
	let mut what = Vec::new();
	for t in SHARED {
		files.push((format!("case{}.rs", files.len()), format!("use fizyr_rpc::*;\nfn f<T: Send + Sync + 'static>() {{}}\nconst _: fn() = || f::<{t}>();\n")));
		what.push(format!("{t} can not be shared between threads"));
	}
	for (arg, expr) in FUTURES {
		files.push((format!("case{}.rs", files.len()), format!("use fizyr_rpc::*;\nfn f<T: Send>(_: T) {{}}\nfn g({arg}) {{ f({expr}); }}\n")));
		what.push(format!("the future of {expr} ({arg}) can not be moved to another thread"));
	}
	let b = check_crate_with(&rep.settings.verif, "c26-bounds", &files, "\"tcp\", \"unix-stream\", \"unix-seqpacket\"");
	for (i, w) in what.iter().enumerate() {
		let mut obs = Obs::default();
		obs.count("bounds_checked", 1);
		if let Some(e) = b.errors.iter().find(|e| crate::ifdrive::index_of(&e.file, "case") == Some(i)) {
			if e.text.contains("between threads safely") || e.text.contains("is not `Send`") || e.text.contains("is not `Sync`") {
				obs.violate("bounds", format!("{w}: {}", e.text));
			} else {
				println!("ERROR: the assertions do not build: {w}: {}", e.text);
				std::process::exit(3);
			}
		}
		rep.add("bounds", i as u64, obs);
	}
	if !b.ok && b.errors.is_empty() {
		println!("ERROR: the assertions do not build: {:?}", b.other);
		std::process::exit(3);
	}
}

pub fn run(rep: &Report) {
	let t = rep.settings.thorough();
	rep.rule("one case = one connection used by up to 10 clients on up to 12 worker threads and threads of their own, judged over the log of all operations; distinct = the order in which the two sides saw the messages");
	let dir = rep.settings.verif.join("mt");
	let all = [Variant::Native, Variant::Tsan, Variant::Miri];
	let wanted = |v: Variant| rep.settings.replay.as_ref().is_none_or(|r| r.0 == v.name());
	if rep.settings.replay.is_none() {
		bounds(rep);
	}
	for v in all.into_iter().filter(|v| wanted(*v)) {
		let out = cargo(&dir, v, false).output().expect("cargo");
		if !out.status.success() {
			if rep.has_violations() {
				return;
			}
			println!("ERROR: {} does not build: {}", v.name(), tail(&out.stderr, 3000));
			std::process::exit(3);
		}
	}
	if let Some((e, s)) = &rep.settings.replay {
		for v in all {
			if v.name() == e {
				let n = if v == Variant::Miri { 1 } else { 200 };
				run_one(rep, &dir, v, *s, n, 120, size(v), Some(*s));
			}
		}
		return;
	}
	let seed = |v: Variant, i: u64| mix(rep.settings.seed ^ hash_bytes(v.name().as_bytes()).wrapping_add(i)) >> 1;
	for v in all {
		let (seconds, cases) = match (v, t) {
			(Variant::Native, false) => (20, u64::MAX),
			(Variant::Native, true) => (300, u64::MAX),
			(Variant::Tsan, false) => (70, u64::MAX),
			(Variant::Tsan, true) => (900, u64::MAX),
			(Variant::Miri, false) => (0, 14),
			(Variant::Miri, true) => (0, 250),
		};
		std::thread::scope(|s| {
			for i in 0..8 {
				let dir = &dir;
				s.spawn(move || run_one(rep, dir, v, seed(v, i), cases, seconds, size(v), None));
			}
		});
		if rep.has_violations() {
			return;
		}
	}
	rep.require("threads_cases", 300);
	rep.require("threads-tsan_cases", 500);
	rep.require("threads-miri_cases", 40);
	rep.require("bounds_checked", 45);
}

fn size(v: Variant) -> u64 {
	match v {
		Variant::Miri => 1,
		_ => 8,
	}
}
