//! rustc driver: when compiling the crate `probe`, lowers every function reachable from the public
//! API of the crate `ntfs` into the `ir` representation. Acts as plain rustc otherwise.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod calls;
mod lower;

use rustc_driver::{Callbacks, Compilation};
use rustc_middle::ty::TyCtxt;

struct Cb { out: String }
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let p = lower::lower_program(tcx);
        let f = std::fs::File::create(&self.out).expect("cannot create output");
        serde_json::to_writer(std::io::BufWriter::new(f), &p).expect("cannot write output");
        Compilation::Continue
    }
}
struct Calls { out: String }
impl Callbacks for Calls {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        std::fs::write(&self.out, calls::calls(tcx).to_string()).expect("cannot write output");
        Compilation::Continue
    }
}
struct Plain;
impl Callbacks for Plain {}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && args[1].ends_with("rustc") { args.remove(1); }
    let is_probe = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == "probe");
    // decided by the compiler: not a single unsafe block, function, impl or attribute in the crate
    if args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == "ntfs") { args.push("-Funsafe_code".into()); }
    let is_shell = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == "shellprobe");
    if is_shell { args.push("-Funsafe_code".into()); }
    let out = std::env::var("MIRX_OUT").ok();
    let code = rustc_driver::catch_with_exit_code(|| {
        match (is_probe, out) {
            (false, Some(out)) if is_shell => rustc_driver::compiler_entrypoint(&args, &mut Calls { out }),
            (true, Some(out)) => rustc_driver::compiler_entrypoint(&args, &mut Cb { out }),
            _ => rustc_driver::compiler_entrypoint(&args, &mut Plain),
        }
    });
    let _ = code;
    std::process::exit(if format!("{:?}", code).contains("unix_exit_status(0)") { 0 } else { 1 });
}
