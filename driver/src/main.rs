#![feature(rustc_private)]
#[macro_use]
extern crate rustc_public;
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;
extern crate rustc_hir;
extern crate rustc_public_bridge;

mod census;
mod dom;
mod harness;
mod interp;
mod models;


/// RUSTC_WORKSPACE_WRAPPER: argv[1] is rustc, the rest are its arguments.
fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let crate_name = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned().unwrap_or_default();
    let target = std::env::var("TBCHECK_CRATE").unwrap_or_default();
    if target.is_empty() || crate_name != target {
        let st = std::process::Command::new(&args[0]).args(&args[1..]).status().expect("rustc");
        std::process::exit(st.code().unwrap_or(101));
    }
    let r = std::thread::Builder::new()
        .stack_size(2 << 30)
        .spawn(move || {
            let r = run_with_tcx!(&args, |tcx| {
                harness::run(tcx);
                std::ops::ControlFlow::<(), ()>::Continue(())
            });
            match r {
                Ok(_) => 0,
                Err(rustc_public::CompilerError::Skipped) => 0,
                Err(_) => 1,
            }
        })
        .unwrap()
        .join()
        .unwrap_or(101);
    std::process::exit(r);
}
