//! Bounded exhaustive exploration of newton_rootfinder: see /verif/DESIGN.md.

mod alloc;
mod base;
mod cases;
mod cli;
mod env;
mod explore;
mod monitor;
mod run;
mod s_api;
mod s_default;
mod s_equiv;
mod s_frame;
mod s_funcs;
mod s_history;
mod s_inside;
mod s_log;
mod s_sched;
mod s_trace;
mod s_xml;

#[global_allocator]
static GLOBAL: alloc::Points = alloc::Points;

fn main() {
    std::process::exit(cli::main());
}
