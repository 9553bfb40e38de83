#![allow(dead_code)]
#![allow(private_interfaces)]
pub mod alloc;
pub mod c01;
pub mod chaos;
pub mod checks;
pub mod cli;
pub mod crowd;
pub mod endings;
pub mod errors;
pub mod backlog;
pub mod extremes;
pub mod frugal;
pub mod idle;
pub mod fds;
pub mod flood;
pub mod fuzz;
pub mod handles;
pub mod iface;
pub mod ifbuild;
pub mod ifdrive;
pub mod ifemit;
pub mod ifgen;
pub mod ifrun;
pub mod kit;
pub mod listen;
pub mod lockstep;
pub mod proxy;
pub mod mtdrive;
pub mod rawcancel;
pub mod report;
pub mod rng;
pub mod scarce;
pub mod sim;
pub mod soup;
pub mod tails;
pub mod util;
pub mod verdicts;
pub mod wire;
