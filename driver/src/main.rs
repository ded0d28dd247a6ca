//! MIR extractor.  Used as RUSTC_WRAPPER: behaves like rustc, except that
//!  * for the crate `sharness` it additionally dumps the monomorphic MIR of
//!    everything reachable from the crate's public functions (resolved callees,
//!    decoded constants, types, spans) to $VP_OUT/mir.json;
//!  * for the crate `stacks_rs` it dumps, for every body of the crate (generic
//!    or not), the resolved names of what it calls, to $VP_OUT/poly.json.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;
extern crate rustc_span;

mod json;
mod mono;
mod poly;

use std::process::ExitCode;

fn crate_name(args: &[String]) -> Option<String> {
    args.iter()
        .position(|a| a == "--crate-name")
        .and_then(|i| args.get(i + 1))
        .cloned()
}

fn main() -> ExitCode {
    // argv: sdriver rustc <args...>
    let argv: Vec<String> = std::env::args().collect();
    let rest: Vec<String> = argv[1..].to_vec();
    let name = crate_name(&rest);
    let out = std::env::var("VP_OUT").ok();
    let dump = match (&name, &out) {
        (Some(n), Some(_)) if n == "sharness" || n == "stacks_rs" => true,
        _ => false,
    };
    if !dump {
        let st = std::process::Command::new(&rest[0])
            .args(&rest[1..])
            .status()
            .expect("rustc");
        return ExitCode::from(st.code().unwrap_or(101) as u8);
    }
    let out = out.unwrap();
    let name = name.unwrap();
    // `--crate-type proc-macro`/build scripts never carry these names.
    let res = rustc_public::run_with_tcx!(&rest, |tcx| -> ControlFlow<(), ()> {
        if name == "sharness" {
            mono::dump(tcx, &out);
        } else {
            poly::dump(tcx, &out);
        }
        ControlFlow::Continue(())
    });
    match res {
        Ok(_) | Err(rustc_public::CompilerError::Skipped) | Err(rustc_public::CompilerError::Interrupted(_)) => ExitCode::SUCCESS,
        Err(_) => ExitCode::FAILURE,
    }
}
