//! Builds the generated crates with cargo (offline) and attributes compiler errors to interfaces.

use serde_json::Value;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::process::Command;

pub struct Diag {
	pub file: String,
	pub line: usize,
	pub text: String,
}

pub struct Built {
	pub ok: bool,
	pub errors: Vec<Diag>,
	/// Errors that are not in a generated file.
	pub other: Vec<String>,
	pub exe: Option<PathBuf>,
}

pub fn cargo(dir: &Path, args: &[&str]) -> Built {
	let out = Command::new("cargo")
		.args(args)
		.args(["--offline", "--message-format=json"])
		.current_dir(dir)
		.env("CARGO_NET_OFFLINE", "true")
		.env_remove("RUSTFLAGS")
		.env_remove("CARGO_TARGET_DIR")
		.output()
		.expect("harness: cargo");
	let mut b = Built { ok: out.status.success(), errors: Vec::new(), other: Vec::new(), exe: None };
	for line in String::from_utf8_lossy(&out.stdout).lines() {
		let Ok(v) = serde_json::from_str::<Value>(line) else { continue };
		match v["reason"].as_str() {
			Some("compiler-artifact") => {
				if let Some(e) = v["executable"].as_str() {
					b.exe = Some(e.into());
				}
			}
			Some("compiler-message") if v["message"]["level"] == "error" => {
				let m = &v["message"];
				let mut text = m["message"].as_str().unwrap_or("").to_string();
				for c in m["children"].as_array().into_iter().flatten() {
					text += &format!(" / {}", c["message"].as_str().unwrap_or(""));
				}
				let mut found = false;
				for s in m["spans"].as_array().into_iter().flatten() {
					// The outermost place of a macro expansion is in the generated file.
					let mut s = s;
					let mut best = None;
					loop {
						let f = s["file_name"].as_str().unwrap_or("");
						if s["is_primary"] == true || best.is_none() {
							best = Some((f.to_string(), s["line_start"].as_u64().unwrap_or(0) as usize));
						}
						if f.contains("/src/i") || f.starts_with("src/i") || f.contains("case") {
							best = Some((f.to_string(), s["line_start"].as_u64().unwrap_or(0) as usize));
							break;
						}
						if s["expansion"]["span"].is_object() {
							s = &s["expansion"]["span"];
						} else {
							break;
						}
					}
					if let Some((file, line)) = best {
						b.errors.push(Diag { file, line, text: text.clone() });
						found = true;
						if m["spans"].as_array().map(|a| a.len()).unwrap_or(0) > 0 {
							break;
						}
					}
				}
				if !found {
					b.other.push(text);
				}
			}
			_ => {}
		}
	}
	if !b.ok && b.errors.is_empty() {
		b.other.push(String::from_utf8_lossy(&out.stderr).chars().rev().take(2000).collect::<String>().chars().rev().collect());
	}
	b
}

/// Write only what changed, so that cargo has less to do.
pub fn write(path: &Path, text: &str) {
	if std::fs::read_to_string(path).ok().as_deref() != Some(text) {
		std::fs::create_dir_all(path.parent().unwrap()).unwrap();
		std::fs::write(path, text).unwrap();
	}
}

/// A workspace with `parts` library crates and one binary.
pub fn layout(verif: &Path, dir: &Path, name: &str, parts: &BTreeMap<String, Vec<(String, String)>>, main: &str) {
	let harness = verif.join("harness");
	let _ = std::fs::remove_dir_all(dir);
	let mut deps = String::new();
	let mut prof = String::new();
	let mut members = String::new();
	for (part, files) in parts {
		deps += &format!("{part} = {{ path = \"{part}\" }}\n");
		members += &format!("\"{part}\", ");
		prof += &format!("[profile.dev.package.{part}]\nopt-level = 0\ndebug = 0\n");
		write(
			&dir.join(part).join("Cargo.toml"),
			&format!("[package]\nname = \"{part}\"\nversion = \"0.0.0\"\nedition = \"2021\"\n\n[dependencies]\nfizyr-verif = {{ path = {:?} }}\nfizyr-rpc = {{ path = \"/repo\", features = [\"macros\"] }}\n", harness),
		);
		for (f, text) in files {
			write(&dir.join(part).join("src").join(f), text);
		}
	}
	write(
		&dir.join("Cargo.toml"),
		&format!(
			"[package]\nname = \"gen-{name}\"\nversion = \"0.0.0\"\nedition = \"2021\"\n\n[dependencies]\nfizyr-verif = {{ path = {:?} }}\n{deps}\n[workspace]\nmembers = [{members}]\n\n[profile.dev]\nopt-level = 1\ndebug = 1\nincremental = false\ndebug-assertions = true\noverflow-checks = true\n{prof}",
			harness
		),
	);
	write(&dir.join("src/main.rs"), main);
	write(&dir.join(".cargo/config.toml"), &format!("[build]\nrustflags = [\"--cfg\", \"fizyr_rpc_verify\"]\ntarget-dir = {:?}\n", verif.join("target")));
	let _ = std::fs::copy(harness.join("Cargo.lock"), dir.join("Cargo.lock"));
}
