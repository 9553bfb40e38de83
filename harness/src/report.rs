//! Cases, verdicts and evidence.

use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// What a single case concluded.
#[derive(Debug, Clone)]
pub struct Violation {
	/// Short machine readable signature.
	pub key: String,
	/// The witness.
	pub detail: String,
}

impl Violation {
	pub fn new(key: impl Into<String>, detail: impl Into<String>) -> Self {
		Violation { key: key.into(), detail: detail.into() }
	}
}

/// Everything observed in a single case.
#[derive(Default, Debug)]
pub struct Obs {
	/// Violations of the property under check.
	pub violations: Vec<Violation>,
	/// Departures that belong to another property (not reported by this check).
	pub foreign: Vec<Violation>,
	/// Why the case could not be judged.
	pub inconclusive: Option<String>,
	/// Signature of the case for counting distinct ones; None if trivial.
	pub signature: Option<u64>,
	/// Counters of what was observed.
	pub counts: BTreeMap<String, u64>,
	/// A short description of the case.
	pub sample: String,
}

impl Obs {
	pub fn count(&mut self, key: &str, n: u64) {
		*self.counts.entry(key.to_string()).or_insert(0) += n;
	}
	pub fn violate(&mut self, key: impl Into<String>, detail: impl Into<String>) {
		if self.violations.len() < 20 {
			self.violations.push(Violation::new(key, detail));
		}
	}
}

pub struct Settings {
	pub id: String,
	pub tier: String,
	pub seed: u64,
	pub replay: Option<(String, u64)>,
	pub verif: std::path::PathBuf,
}

impl Settings {
	pub fn thorough(&self) -> bool {
		self.tier == "thorough"
	}
}

/// A list of accepted genuine defects: lines `KNOWN property=<id> key=<signature> ...`.
pub struct Known {
	pub entries: Vec<(String, String, String)>,
}

impl Known {
	pub fn load(path: &std::path::Path) -> Self {
		let mut entries = vec![];
		if let Ok(text) = std::fs::read_to_string(path) {
			for line in text.lines() {
				let Some(rest) = line.strip_prefix("known: ") else { continue };
				let mut it = rest.splitn(3, ' ');
				let (Some(p), Some(k), Some(d)) = (it.next(), it.next(), it.next()) else { continue };
				let (Some(p), Some(k)) = (p.strip_prefix("property="), k.strip_prefix("key=")) else { continue };
				entries.push((p.to_string(), k.to_string(), d.to_string()));
			}
		}
		Known { entries }
	}
}

/// Collected results of a check.
pub struct Report {
	pub settings: Settings,
	started: Instant,
	evaluations: AtomicU64,
	inconclusive: AtomicU64,
	stop: AtomicBool,
	inner: Mutex<Inner>,
	known: Known,
}

#[derive(Default)]
struct Inner {
	signatures: HashSet<u64>,
	counts: BTreeMap<String, u64>,
	samples: Vec<Value>,
	violations: Vec<(String, u64, Violation)>,
	known_hits: BTreeMap<String, u64>,
	foreign: BTreeMap<String, u64>,
	inconclusive_why: BTreeMap<String, u64>,
	violation_count: u64,
	notes: Vec<String>,
	assumptions: Vec<String>,
	rule: Vec<String>,
	minimum: Vec<(String, u64)>,
}

impl Report {
	pub fn new(settings: Settings) -> Self {
		let known = Known::load(&settings.verif.join("known-findings.txt"));
		Report {
			settings,
			started: Instant::now(),
			evaluations: AtomicU64::new(0),
			inconclusive: AtomicU64::new(0),
			stop: AtomicBool::new(false),
			inner: Default::default(),
			known,
		}
	}

	pub fn rule(&self, text: &str) {
		self.inner.lock().unwrap().rule.push(text.to_string());
	}
	pub fn assume(&self, text: &str) {
		self.inner.lock().unwrap().assumptions.push(text.to_string());
	}
	pub fn note(&self, text: &str) {
		self.inner.lock().unwrap().notes.push(text.to_string());
	}
	/// The run must have observed at least `n` of counter `key`, otherwise it observed too little to judge.
	pub fn require(&self, key: &str, n: u64) {
		self.inner.lock().unwrap().minimum.push((key.to_string(), n));
	}

	/// Add process wide counters.
	pub fn counts(&self, obs: Obs) {
		let mut inner = self.inner.lock().unwrap();
		for (k, v) in obs.counts {
			*inner.counts.entry(k).or_insert(0) += v;
		}
	}

	pub fn add(&self, engine: &str, seed: u64, obs: Obs) {
		self.evaluations.fetch_add(1, Ordering::Relaxed);
		let mut inner = self.inner.lock().unwrap();
		if let Some(why) = obs.inconclusive {
			self.inconclusive.fetch_add(1, Ordering::Relaxed);
			*inner.inconclusive_why.entry(why).or_insert(0) += 1;
		}
		if let Some(sig) = obs.signature {
			inner.signatures.insert(sig);
		}
		for (k, v) in obs.counts {
			let e = inner.counts.entry(k.clone()).or_insert(0);
			*e = if k.starts_with("max_") { v.max(*e) } else { *e + v };
		}
		if inner.samples.len() < 4 && !obs.sample.is_empty() && obs.signature.is_some() {
			inner.samples.push(json!({"engine": engine, "case_seed": seed, "case": obs.sample}));
		}
		for v in obs.foreign {
			*inner.foreign.entry(v.key).or_insert(0) += 1;
		}
		for v in obs.violations {
			if let Some((_, key, desc)) = self.known.entries.iter().find(|(p, k, _)| *p == self.settings.id && *k == v.key) {
				let label = format!("{key} {desc}");
				*inner.known_hits.entry(label).or_insert(0) += 1;
				continue;
			}
			inner.violation_count += 1;
			if inner.violations.len() < 50 {
				inner.violations.push((engine.to_string(), seed, v));
			}
			if inner.violation_count >= 8 {
				self.stop.store(true, Ordering::Relaxed);
			}
		}
	}

	/// Run cases on all cores until `max` cases are done or the time is used up. The deciding budget is the number of
	/// cases; `secs` only bounds the run.
	pub fn run_cases<F>(&self, engine: &str, max: u64, secs: f64, threads: usize, f: F)
	where
		F: Fn(u64) -> Obs + Sync,
	{
		if let Some((e, seed)) = &self.settings.replay {
			if e == engine {
				let obs = run_guarded(&f, *seed);
				println!("replay {engine} seed {seed}: {}", obs.sample);
				for v in &obs.violations {
					println!("  violation {}: {}", v.key, v.detail);
				}
				for v in &obs.foreign {
					println!("  foreign {}: {}", v.key, v.detail);
				}
				if let Some(why) = &obs.inconclusive {
					println!("  inconclusive: {why}");
				}
				println!("  observed: {:?}", obs.counts);
				self.add(engine, *seed, obs);
			}
			return;
		}
		let deadline = Instant::now() + Duration::from_secs_f64(secs);
		let next = AtomicU64::new(0);
		let base = crate::rng::mix(self.settings.seed ^ crate::rng::hash_bytes(format!("{}/{}", self.settings.id, engine).as_bytes()));
		std::thread::scope(|s| {
			for _ in 0..threads {
				s.spawn(|| loop {
					let i = next.fetch_add(1, Ordering::Relaxed);
					if i >= max || Instant::now() >= deadline || self.stop.load(Ordering::Relaxed) {
						break;
					}
					let seed = crate::rng::mix(base.wrapping_add(i)) >> 1;
					let obs = run_guarded(&f, seed);
					self.add(engine, seed, obs);
				});
			}
		});
	}

	pub fn has_violations(&self) -> bool {
		self.inner.lock().unwrap().violation_count > 0
	}

	pub fn elapsed(&self) -> f64 {
		self.started.elapsed().as_secs_f64()
	}

	/// Write the evidence and return the exit code.
	pub fn finish(self, level: &str) -> i32 {
		let inner = self.inner.into_inner().unwrap();
		let id = &self.settings.id;
		let dir = self.settings.verif.join("evidence");
		let _ = std::fs::create_dir_all(&dir);
		let evaluations = self.evaluations.load(Ordering::Relaxed);
		let mut coverage = json!({
			"evaluations": evaluations,
			"distinct_nontrivial": inner.signatures.len(),
			"rule": inner.rule.join(" | "),
			"samples": inner.samples,
			"observed": inner.counts,
			"inconclusive_cases": self.inconclusive.load(Ordering::Relaxed),
		});
		if !inner.inconclusive_why.is_empty() {
			coverage["inconclusive_reasons"] = json!(inner.inconclusive_why);
		}
		if !inner.foreign.is_empty() {
			coverage["departures_of_other_properties"] = json!(inner.foreign);
		}
		if !inner.known_hits.is_empty() {
			coverage["known_findings_seen"] = json!(inner.known_hits);
		}
		if !inner.notes.is_empty() {
			coverage["notes"] = json!(inner.notes);
		}
		let evidence = json!({
			"property": id,
			"tier": self.settings.tier,
			"seed": self.settings.seed,
			"level": level,
			"coverage": coverage,
			"assumptions": inner.assumptions,
			"wall_s": self.started.elapsed().as_secs_f64(),
			"violations": inner.violation_count,
		});
		if self.settings.replay.is_none() {
			let path = dir.join(format!("{id}.json"));
			std::fs::write(&path, serde_json::to_string_pretty(&evidence).unwrap() + "\n").unwrap();
		}
		for (label, n) in &inner.known_hits {
			let desc = label.splitn(2, ' ').nth(1).unwrap_or("");
			println!("KNOWN-FINDING: property={id} {desc} (seen {n} times)");
		}
		if inner.violation_count > 0 {
			let path = dir.join(format!("replay-{id}.json"));
			let list: Vec<Value> = inner
				.violations
				.iter()
				.map(|(e, s, v)| json!({"engine": e, "case_seed": s, "key": v.key, "detail": v.detail}))
				.collect();
			let first = &inner.violations[0];
			let replay = json!({
				"property": id, "tier": self.settings.tier, "seed": self.settings.seed,
				"replay": format!("cd /verif && ./check.sh {id} --replay {}:{}", first.0, first.1),
				"violations": list,
			});
			if self.settings.replay.is_none() {
				std::fs::write(&path, serde_json::to_string_pretty(&replay).unwrap() + "\n").unwrap();
			}
			for (e, s, v) in inner.violations.iter().take(5) {
				println!("  [{e}:{s}] {}: {}", v.key, v.detail);
			}
			println!("VIOLATION property={id} replay={}", path.display());
			return 1;
		}
		if self.settings.replay.is_some() {
			return 0;
		}
		println!(
			"{id}: held on {evaluations} cases ({} distinct non-trivial), {} inconclusive, {:.1}s; observed {:?}",
			inner.signatures.len(),
			self.inconclusive.load(Ordering::Relaxed),
			self.started.elapsed().as_secs_f64(),
			inner.counts
		);
		// Too little observed: that is no verdict.
		if evaluations == 0 || inner.signatures.is_empty() {
			println!("{id}: ERROR: observed nothing");
			return 3;
		}
		for (key, n) in &inner.minimum {
			let got = inner.counts.get(key).copied().unwrap_or(0);
			if got < *n {
				println!("{id}: ERROR: observed too little: {key} = {got} < {n}");
				return 3;
			}
		}
		let inc = self.inconclusive.load(Ordering::Relaxed);
		if inc * 2 > evaluations {
			println!("{id}: ERROR: {inc} of {evaluations} cases inconclusive");
			return 3;
		}
		0
	}
}

/// A panic of the harness itself is no verdict.
fn run_guarded<F: Fn(u64) -> Obs>(f: &F, seed: u64) -> Obs {
	match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(seed))) {
		Ok(o) => o,
		Err(_) => {
			let (message, location) = crate::sim::take_last_panic();
			let mut o = Obs::default();
			if in_repo(&location) {
				o.violate("panic", format!("the crate panicked at {location}: {message}"));
			} else {
				o.inconclusive = Some(format!("harness panic at {location}: {message}"));
			}
			o
		}
	}
}

/// True if a panic location is inside the crate under test.
pub fn in_repo(location: &str) -> bool {
	location.starts_with("/repo/")
}
