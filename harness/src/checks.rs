//! Which engines decide which property.

use crate::lockstep::{self as ls, Profile};
use crate::report::Report;
use crate::soup::{self, SoupCfg};

fn lockstep(rep: &Report, p: Profile, quick: u64) {
	let t = rep.settings.thorough();
	ls::run(rep, p, if t { quick * 60 } else { quick }, if t { 400.0 } else { 60.0 });
}

fn soup(rep: &Report, cfg: SoupCfg, quick: u64) {
	let t = rep.settings.thorough();
	soup::run(rep, cfg, if t { quick * 60 } else { quick }, if t { 400.0 } else { 60.0 });
}

pub fn run(id: &str, rep: &Report) -> bool {
	use ls::*;
	let s = SoupCfg { cancel_recv: 3, cancel_send: 0, racy: 10, slow: 5, end_early: 10, big: true, tiny_buffers: true, prop: "" };
	match id {
		"C01" => {
			crate::c01::run(rep);
			crate::extremes::run_large(rep, 24);
		}
		"C02" => {
			crate::fuzz::run_codec(rep);
			lockstep(rep, Profile::base("C02").with(&[]), 1500);
		}
		"C03" => crate::fuzz::run_hostile(rep),
		"C04" => {
			let mut p = Profile::base("C04").with(&[(P_OVERSIZE, 20), (P_RESPOND, 10), (RACE_RESPOND, 0), (P_CANCEL, 0)]);
			p.small_limits = true;
			lockstep(rep, p, 5000);
			crate::extremes::run_refused(rep, 120);
			rep.require("oversize_sends", 5000);
		}
		"C05" => {
			let mut p = Profile::base("C05").with(&[(R_OVERSIZE, 20), (RACE_RESPOND, 0), (P_CANCEL, 0)]);
			p.small_limits = true;
			p.drop_read = 25;
			lockstep(rep, p, 5000);
			crate::fuzz::run_oversize(rep);
			rep.require("oversize_in", 1000);
		}
		"C06" => {
			crate::fds::run(rep);
			crate::scarce::run(rep, 60);
		}
		"C07" => {
			lockstep(rep, Profile::base("C07").with(&[(R_REQUEST, 20), (P_REQUEST, 16)]), 6000);
			soup(rep, SoupCfg { prop: "C07", ..s }, 4000);
			crate::crowd::run(rep, 24);
		}
		"C08" => {
			lockstep(rep, Profile::base("C08").with(&[(P_SENT_RECV, 30), (P_PEEK_STALE, 12), (P_RCVD_RECV, 20), (R_RESP_UPDATE, 24), (P_CANCEL, 6)]), 6000);
			soup(rep, SoupCfg { prop: "C08", cancel_recv: 10, ..s }, 4000);
			crate::backlog::run_volume(rep, true, 12);
		}
		"C09" => {
			lockstep(rep, Profile::base("C09").with(&[(RACE_RESPOND, 14), (RACE_CLOSE, 14), (R_REQUEST, 20), (P_REQUEST, 16), (P_CANCEL_SEND, 4), (R_VIOLATION, 8), (P_DROP_RCVD, 4), (P_CLONE_REQ, 10)]), 8000);
			soup(rep, SoupCfg { prop: "C09", racy: 40, ..s }, 3000);
			rep.require("races_respond", 2000);
			rep.require("races_close", 2000);
			rep.require("late_calls", 2000);
			rep.require("duplicates_of_write_handles", 50);
		}
		"C10" => {
			lockstep(rep, Profile::base("C10").with(&[(P_POSITION, 20), (P_FILL, 3), (R_RESPONSE, 12), (RACE_CLOSE, 6)]), 3000);
			crate::crowd::run(rep, 16);
			rep.require("positioned", 2000);
			rep.require("fills", 500);
		}
		"C11" => {
			let mut p = Profile::base("C11").with(&[(R_VIOLATION, 20), (P_RECV_MSG, 24), (P_DROP_RCVD, 3), (P_CLONE_REQ, 6), (P_WRITE_HANDLES, 4)]);
			p.drop_read = 25;
			lockstep(rep, p, 6000);
			soup(rep, SoupCfg { prop: "C11", racy: 70, ..s }, 3000);
			rep.require("violations_in", 5000);
			rep.require("updates_overtaken_by_response", 200);
		}
		"C12" => {
			let mut p = Profile::base("C12").with(&[(R_REQUEST, 24), (R_STREAM, 10)]);
			p.drop_read = 100;
			lockstep(rep, p, 6000);
			crate::backlog::run_unattended(rep, 2000);
			rep.require("auto_answered", 5000);
		}
		"C13" => {
			let mut p = Profile::base("C13").with(&[(P_RCVD_RECV, 20)]);
			p.steps = (0, 25);
			lockstep(rep, p, 12000);
			soup(rep, SoupCfg { prop: "C13", end_early: 100, cancel_recv: 0, ..s }, 4000);
			rep.require("calls_after_end", 10000);
			crate::endings::run(rep, 12000);
		}
		"C14" => {
			let mut p = Profile::base("C14").with(&[]);
			p.steps = (0, 30);
			lockstep(rep, p, 10000);
			soup(rep, SoupCfg { prop: "C14", end_early: 50, ..s }, 3000);
			crate::tails::run(rep, 600);
		}
		"C15" => {
			let mut p = Profile::base("C15").with(&[(P_WRITE_HANDLES, 25), (P_DROP_SENT, 3), (P_DROP_RCVD, 3)]);
			p.steps = (0, 40);
			p.drop_read = 30;
			lockstep(rep, p, 8000);
			crate::handles::run(rep, 15000);
			crate::flood::run_ends(rep, 400);
		}
		"C16" => {
			lockstep(rep, Profile::base("C16").with(&[(P_CANCEL, 20), (P_CANCEL_SEND, 12), (P_RECV_MSG, 20), (P_RCVD_RECV, 16)]), 6000);
			soup(rep, SoupCfg { prop: "C16", cancel_recv: 40, cancel_send: 20, ..s }, 5000);
			crate::rawcancel::run(rep, 3000);
			rep.require("sends_cancelled", 3000);
			rep.require("receives_cancelled", 3000);
			rep.require("cancelled_receives", 3000);
		}
		"C17" => {
			soup(rep, SoupCfg { prop: "C17", cancel_recv: 0, slow: 30, end_early: 0, ..s }, 5000);
			crate::flood::run(rep, 1500);
		}
		"C18" => {
			lockstep(rep, Profile::base("C18").with(&[(P_STREAM, 14), (R_STREAM, 14), (P_BURST, 8), (P_RECV_MSG, 24)]), 6000);
			soup(rep, SoupCfg { prop: "C18", ..s }, 5000);
			crate::backlog::run_volume(rep, false, 12);
		}
		"C19" => crate::listen::run_c19(rep),
		"C20" => crate::listen::run_c20(rep),
		"C21" => {
			crate::errors::run(rep, 12000);
			lockstep(rep, Profile::base("C21").with(&[(R_VIOLATION, 12), (P_OVERSIZE, 6), (P_PEEK_STALE, 10)]), 3000);
		}
		"C22" | "C23" | "C24" => {
			let code = crate::ifdrive::run(id, rep);
			if code != 1 {
				std::process::exit(code);
			}
		}
		"C25" => crate::verdicts::run(rep),
		"C26" => crate::mtdrive::run(rep),
		"C27" => crate::frugal::run_memory(rep),
		"C28" => crate::idle::run_idle(rep),
		_ => return false,
	}
	true
}
