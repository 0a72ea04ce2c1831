use vharness::big::*;
use vharness::blobs::*;
use vharness::callbacks::*;
use vharness::corrupt::*;
use vharness::faults::*;
use vharness::run;
use vharness::stored::*;
use vharness::stores::*;
use vharness::suites::*;
use vharness::threads::*;

/// a case of any suite (those without files, for interpreted runs)
fn mix(ctx: &mut vharness::ctx::Ctx) -> vharness::ctx::R {
    const ALL: &[(&str, run::CaseFn)] = &[
        ("inner.c01", c01),
        ("inner.c02", c02),
        ("inner.c03", c03),
        ("inner.c04", c04),
        ("inner.c05", c05),
        ("inner.c06", c06),
        ("inner.c07", c07),
        ("inner.c08", c08),
        ("inner.c10", c10),
        ("inner.c12", c12),
        ("inner.c13", c13),
        ("inner.c18", c18),
        ("inner.c21", c21),
        ("inner.c22", c22),
        ("inner.c25", c25),
    ];
    let (name, f) = ALL[ctx.index as usize % ALL.len()];
    ctx.stat(name, 1);
    f(ctx)
}

fn main() {
    if std::env::args().nth(1).as_deref() == Some("golden-write") {
        golden_write(&std::env::args().nth(2).unwrap());
        return;
    }
    let suites: &[(&'static str, run::CaseFn)] = &[
        ("c01", c01),
        ("c02", c02),
        ("c03", c03),
        ("c04", c04),
        ("c05", c05),
        ("c06", c06),
        ("c07", c07),
        ("c08", c08),
        ("c09", c09),
        ("c10", c10),
        ("c11", c11),
        ("c12", c12),
        ("c12_golden", c12_golden),
        ("c13", c13),
        ("c14", c14),
        ("c13_large", c13_large),
        ("c14_large", c14_large),
        ("c17", c17),
        ("c18", c18),
        ("c21", c21),
        ("c21_cycle", c21_cycle),
        ("c22", c22),
        ("big", big),
        ("c13_many", c13_many),
        ("c01_deep", c01_deep),
        ("c01_chain", c01_chain),
        ("c25", c25),
        ("c26", c26),
        ("c28", vharness::portable::c28), ("c28_foreign", vharness::portable::c28_foreign),
        ("mix", mix),
    ];
    std::process::exit(run::main(suites));
}
