fn main() {
	let args: Vec<String> = std::env::args().collect();
	if args.get(1).map(|s| s == "__client").unwrap_or(false) {
		fizyr_verif::listen::credentials_child(&args[2], &args[3]);
		return;
	}
	if args.get(1).map(|s| s == "__scarce").unwrap_or(false) {
		fizyr_verif::scarce::child(args[2].parse().unwrap(), args[3].parse().unwrap());
		return;
	}
	let (id, rep) = fizyr_verif::cli::start();
	if !fizyr_verif::checks::run(&id, &rep) {
		eprintln!("unknown property {id}");
		std::process::exit(2);
	}
	std::process::exit(rep.finish("exploration"));
}
