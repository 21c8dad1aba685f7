// vx: extracts functions of the crate under verification from rustc's typed
// representation (THIR) and prints them in the subset of Rust that Verus accepts.
//
// What the extraction changes (and nothing else):
//  * shared references, Cow, Box, Arc and Lazy are erased: `&T`, `Arc<T>`, ... become `T`
//    (all values reachable through them are immutable);
//  * str/String/&str/Cow<str> become the opaque type Str (view: Seq<char>), slices/arrays/Vec
//    become SeqV<T>, hash maps MapV<K, V>; external types become opaque types;
//  * closures are inlined where an Option/Result combinator applies them, functions that
//    have no contract are inlined at their call sites (return elimination);
//  * `?`, for, let chains and combinators are desugared to match/loop.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_driver;
extern crate rustc_driver_impl;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

mod ext;
mod tr;

use rustc_driver_impl::Compilation;
use rustc_middle::ty::TyCtxt;

struct Cb {
    active: bool,
}

impl rustc_driver_impl::Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        if self.active {
            tr::run(tcx);
        }
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // As RUSTC_WORKSPACE_WRAPPER: vx rustc ARGS...
    if args.len() > 1 && (args[1].ends_with("rustc")) {
        args.remove(1);
    }
    let name = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|i| args.get(i + 1).cloned())
        .unwrap_or_default();
    let active = std::env::var("VX_CRATE").map(|c| c == name).unwrap_or(false);
    if active {
        args.push("-Zno-steal-thir".into());
    }
    rustc_driver_impl::compiler_entrypoint(&args, &mut Cb { active });
}
