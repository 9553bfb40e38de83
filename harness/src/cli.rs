//! Command line and process setup.

use crate::report::{Report, Settings};
use crate::sim;

pub fn start() -> (String, Report) {
	let args: Vec<String> = std::env::args().collect();
	let id = args.get(1).cloned().unwrap_or_default();
	let mut replay = None;
	if let Some(i) = args.iter().position(|a| a == "--replay") {
		let spec = args.get(i + 1).expect("--replay engine:seed");
		let (e, s) = spec.rsplit_once(':').expect("--replay engine:seed");
		replay = Some((e.to_string(), s.parse().expect("seed")));
	}
	let settings = Settings {
		id: id.clone(),
		tier: std::env::var("VERIF_TIER").ok().filter(|t| t == "thorough").unwrap_or_else(|| "quick".into()),
		seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
		replay,
		verif: std::env::var_os("VERIF_DIR").map(Into::into).unwrap_or_else(|| "/verif".into()),
	};
	sim::install_panic_hook();
	unsafe {
		let mut l: libc::rlimit = std::mem::zeroed();
		libc::getrlimit(libc::RLIMIT_NOFILE, &mut l);
		l.rlim_cur = l.rlim_max;
		libc::setrlimit(libc::RLIMIT_NOFILE, &l);
	}
	let rep = Report::new(settings);
	// Generous wall clock watchdog: no verdict when it fires.
	std::thread::spawn(|| {
		let secs = if std::env::var("VERIF_TIER").as_deref() == Ok("thorough") { 3400 } else { 700 };
		std::thread::sleep(std::time::Duration::from_secs(secs));
		println!("ERROR: watchdog: the check did not finish in time");
		std::process::exit(4);
	});
	(id, rep)
}
