// Compiler driver: compiles the crate under analysis with the normal front end and dumps the
// type-checked program (ADTs, impls, functions, MIR with resolved callees) as JSON for the
// abstract interpreter in /verif/engine.  It executes nothing of the analysed program.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_index;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod dump;
mod json;

use rustc_driver::{Callbacks, Compilation};
use rustc_interface::interface;
use rustc_middle::ty::TyCtxt;

struct Cb {
    out: String,
}

impl Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        let s = dump::dump(tcx);
        std::fs::write(&self.out, s).expect("write dump");
        Compilation::Continue
    }
}

struct Plain;
impl Callbacks for Plain {}

fn main() -> std::process::ExitCode {
    // RUSTC_WORKSPACE_WRAPPER: argv = [driver, rustc, args...]
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let is_target = args.iter().any(|a| a == "bellframe")
        && args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == "bellframe")
        && !args.iter().any(|a| a == "--test");
    let out = std::env::var("BF_DUMP").ok();
    if is_target && out.is_some() {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Zinline-mir=no".into());
        args.push("-Awarnings".into());
        let mut cb = Cb { out: out.unwrap() };
        rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut cb))
    } else {
        rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Plain))
    }
}
