//! RUSTC_WORKSPACE_WRAPPER driver: type-checks a crate of the repository with the real build's
//! flags and writes the resolved program (MIR before the coroutine transform, resolved callees,
//! ADT definitions, trait impls) as JSON for the analyses in /verif/lib.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod dump;
mod json;

use std::path::Path;

struct Cb {
    out: Option<String>,
}

impl rustc_driver::Callbacks for Cb {
    fn config(&mut self, config: &mut rustc_interface::Config) {
        let is_redis = config.opts.crate_name.as_deref() == Some("coerce_redis");
        if is_redis {
            config.file_loader = Some(Box::new(UnitFallback));
        }
    }

    fn after_expansion<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: rustc_middle::ty::TyCtxt<'tcx>,
    ) -> rustc_driver::Compilation {
        if let Some(out) = &self.out {
            dump::dump(tcx, out);
        }
        rustc_driver::Compilation::Continue
    }
}

/// coerce-redis leaves the reply type of some queries to the edition-2021 fallback (`()`), which
/// this nightly no longer performs. The loader writes that default out while reading the file; the
/// text on disk is not touched and no line moves.
struct UnitFallback;

impl rustc_span::source_map::FileLoader for UnitFallback {
    fn file_exists(&self, path: &Path) -> bool {
        path.exists()
    }
    fn read_file(&self, path: &Path) -> std::io::Result<String> {
        let s = std::fs::read_to_string(path)?;
        Ok(s.replace(".query_async(", ".query_async::<_, ()>("))
    }
    fn read_binary_file(&self, path: &Path) -> std::io::Result<std::sync::Arc<[u8]>> {
        Ok(std::fs::read(path)?.into())
    }
    fn current_directory(&self) -> std::io::Result<std::path::PathBuf> {
        std::env::current_dir()
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the rustc to wrap
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].ends_with("rustc-shim.sh")) {
        args.remove(1);
    }
    let mut crate_name = None;
    let mut it = args.iter();
    while let Some(a) = it.next() {
        if a == "--crate-name" {
            crate_name = it.next().cloned();
        }
    }
    let wanted = std::env::var("COERCE_FACTS_CRATES").unwrap_or_default();
    let dir = std::env::var("COERCE_FACTS_DIR").unwrap_or_default();
    let is_lib = args.windows(2).any(|w| w[0] == "--crate-type" && w[1] == "lib");
    let out = match crate_name {
        Some(n) if is_lib && !dir.is_empty() && wanted.split(',').any(|w| w == n) => {
            Some(format!("{}/{}.json", dir, n))
        }
        _ => None,
    };
    if out.is_none() {
        // not a crate we analyse: behave as the wrapped compiler
        let mut cb = Cb { out: None };
        rustc_driver::compiler_entrypoint(&args, &mut cb);
        return;
    }
    let mut cb = Cb { out };
    rustc_driver::compiler_entrypoint(&args, &mut cb);
}
