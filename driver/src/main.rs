//! `mirdump`: a rustc wrapper that type-checks the crate with the flags of the real build and
//! writes the resolved MIR of the crate (and of the library functions it calls) as JSON.
//!
//! It is injected with RUSTC_WORKSPACE_WRAPPER. Only the crate named by MIRDUMP_CRATE is dumped;
//! every other invocation behaves like rustc.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_trait_selection;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

mod dump;
mod json;

use rustc_driver::Compilation;
use rustc_interface::interface;
use rustc_middle::ty::TyCtxt;

struct Cb {
    out: Option<String>,
    args: Vec<String>,
}

impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if let Some(out) = &self.out {
            dump::dump(tcx, out, &self.args);
        }
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc.
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let want = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
    let mut crate_name = None;
    let mut is_test = false;
    let mut crate_type = None;
    for i in 0..args.len() {
        if args[i] == "--crate-name" && i + 1 < args.len() {
            crate_name = Some(args[i + 1].clone());
        }
        if args[i] == "--crate-type" && i + 1 < args.len() {
            crate_type = Some(args[i + 1].clone());
        }
        if args[i] == "--test" {
            is_test = true;
        }
    }
    let mine = !want.is_empty()
        && crate_name.as_deref() == Some(want.as_str())
        && !is_test
        && crate_type.as_deref() == Some("lib");
    let plain = args.clone();
    let out = if mine { std::env::var("MIRDUMP_OUT").ok() } else { None };
    if out.is_some() {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Zinline-mir=no".into());
        // The crate is written for the trait solver of the stable toolchain.
        args.push("-Znext-solver=coherence".into());
        args.push("--cap-lints=allow".into());
    }
    rustc_driver::compiler_entrypoint(&args, &mut Cb { out, args: plain });
}
