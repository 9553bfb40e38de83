//! Builds random interfaces against the working tree and hands over to the generated program (C22, C23, C24).

use crate::ifbuild::{self, Built};
use crate::ifemit;
use crate::ifgen::{self, Def};
use crate::report::Report;
use std::collections::{BTreeMap, BTreeSet};
use std::os::unix::process::CommandExt;
use std::path::Path;
use std::process::Command;

const PARTS: usize = 8;

/// The number in a file name like `.../src/i12.rs`.
pub fn index_of(file: &str, prefix: &str) -> Option<usize> {
	let name = file.rsplit('/').next()?;
	name.strip_prefix(prefix)?.strip_suffix(".rs")?.parse().ok()
}

/// Crate names differ per check: cargo would confuse crates of the same name in different workspaces with one target
/// directory.
fn sources(id: &str, defs: &[Def], skip: &BTreeSet<usize>, full: bool) -> BTreeMap<String, Vec<(String, String)>> {
	let mut parts = BTreeMap::new();
	for p in 0..PARTS {
		let mut files = Vec::new();
		let mut items = Vec::new();
		for (i, d) in defs.iter().enumerate().filter(|(i, _)| i % PARTS == p && !skip.contains(i)) {
			items.push((i, full));
			files.push((format!("i{i}.rs"), if full { ifemit::full_module(d) } else { ifemit::intro_module(d) }));
		}
		files.push(("lib.rs".into(), ifemit::lib_source(&items)));
		parts.insert(format!("{}g{p}", id.to_lowercase()), files);
	}
	parts
}

fn program(id: &str) -> String {
	let mut s = String::from("fn main() {\n\tlet mut v = Vec::new();\n");
	for p in 0..PARTS {
		s += &format!("\tv.extend({}g{p}::all());\n", id.to_lowercase());
	}
	s + "\tfizyr_verif::ifrun::main(v)\n}\n"
}

/// Crates of which each file is a module, checked by the compiler without code generation.
pub fn check_crate(verif: &Path, name: &str, files: &[(String, String)]) -> Built {
	check_crate_with(verif, name, files, "\"macros\"")
}

pub fn check_crate_with(verif: &Path, name: &str, files: &[(String, String)], features: &str) -> Built {
	let harness = verif.join("harness");
	let name = name.to_lowercase();
	let dir = &verif.join("target/gen").join(&name);
	let _ = std::fs::remove_dir_all(dir);
	let parts = if files.len() > 16 { PARTS } else { 1 };
	let members: Vec<String> = (0..parts).map(|p| format!("\"p{p}\"")).collect();
	ifbuild::write(
		&dir.join("Cargo.toml"),
		&format!("[workspace]\nresolver = \"2\"\nmembers = [{}]\n\n[profile.dev]\nopt-level = 1\ndebug = 1\nincremental = false\ndebug-assertions = true\noverflow-checks = true\n", members.join(", ")),
	);
	ifbuild::write(&dir.join(".cargo/config.toml"), &format!("[build]\nrustflags = [\"--cfg\", \"fizyr_rpc_verify\"]\ntarget-dir = {:?}\n", verif.join("target")));
	let _ = std::fs::copy(harness.join("Cargo.lock"), dir.join("Cargo.lock"));
	for p in 0..parts {
		let dir = dir.join(format!("p{p}"));
		ifbuild::write(
			&dir.join("Cargo.toml"),
			&format!("[package]\nname = \"fv-{name}-{p}\"\nversion = \"0.0.0\"\nedition = \"2021\"\n\n[dependencies]\nfizyr-rpc = {{ path = \"/repo\", features = [{features}] }}\n"),
		);
		let mut lib = String::from("#![allow(warnings)]\n");
		for (f, text) in files.iter().skip(p).step_by(parts) {
			lib += &format!("mod {};\n", f.strip_suffix(".rs").unwrap());
			ifbuild::write(&dir.join("src").join(f), text);
		}
		ifbuild::write(&dir.join("src/lib.rs"), &lib);
	}
	ifbuild::cargo(dir, &["check", "--workspace", "--keep-going"])
}

pub fn run(id: &str, rep: &Report) -> i32 {
	let t = rep.settings.thorough();
	let full = id != "C24";
	let n = match (full, t) {
		(true, false) => 40,
		(true, true) => 160,
		(false, false) => 200,
		(false, true) => 1000,
	};
	let verif = rep.settings.verif.clone();
	let defs = ifgen::family(rep.settings.seed, n);
	let dir = verif.join("target/gen").join(id);
	let mut skip = BTreeSet::new();
	let mut problems = Vec::new();
	let mut rejected = 0;
	for _round in 0..4 {
		ifbuild::layout(&verif, &dir, &id.to_lowercase(), &sources(id, &defs, &skip, full), &program(id));
		let b = ifbuild::cargo(&dir, &["build"]);
		if b.ok {
			let exe = b.exe.expect("harness: no program");
			let e = Command::new(exe)
				.args(std::env::args().skip(1))
				.env("VERIF_DIR", &verif)
				.env("FV_TOTAL", n.to_string())
				.env("FV_REJECTED", rejected.to_string())
				.env("FV_PROBLEMS", problems.join("\x1e"))
				.exec();
			println!("ERROR: can not run the generated program: {e}");
			return 3;
		}
		let mut by: BTreeMap<usize, String> = BTreeMap::new();
		for e in &b.errors {
			if let Some(i) = index_of(&e.file, "i") {
				by.entry(i).or_insert_with(|| e.text.clone());
			}
		}
		if by.is_empty() {
			println!("ERROR: the generated crates do not build: {:?} {:?}", b.errors.iter().map(|e| format!("{}:{} {}", e.file, e.line, e.text)).collect::<Vec<_>>(), b.other);
			return 3;
		}
		// Is it the definition (that is for C25), or what was generated for it?
		let files: Vec<(String, String)> = by.keys().map(|i| (format!("i{i}.rs"), ifemit::bare_module(&defs[*i]))).collect();
		let alone = check_crate(&verif, &format!("{id}-alone"), &files);
		let bad: BTreeSet<usize> = alone.errors.iter().filter_map(|e| index_of(&e.file, "i")).collect();
		for (i, text) in by {
			skip.insert(i);
			if bad.contains(&i) {
				rejected += 1;
			} else {
				problems.push(format!("the code generated for a valid interface can not be used as declared: {text}; interface: {}", defs[i].source()));
			}
		}
	}
	if problems.is_empty() {
		println!("ERROR: the generated crates do not build");
		return 3;
	}
	// Report what was found with no interfaces left to run.
	for p in problems {
		let mut obs = crate::report::Obs::default();
		obs.violate("generated-api", p);
		rep.add("compile", rep.settings.seed, obs);
	}
	1
}
