#![allow(unexpected_cfgs)]
// The modules that touch a narrow interface of the crates are features, so that a tree which changes
// that interface only takes the checks that need it out of service (see build.sh).
#![cfg_attr(not(all(feature = "text", feature = "units", feature = "drive")), allow(dead_code))]
mod arch;
mod asmc;
mod batch;
#[cfg(feature = "text")]
mod circuit;
mod cli;
mod common;
mod cpu;
mod dbg;
mod dbgc;
#[cfg(feature = "drive")]
mod drive;
mod fam;
mod hazards;
#[cfg(all(feature = "text", y86_verif))]
mod hclc;
#[cfg(feature = "text")]
mod order;
mod prog;
mod refasm;
#[cfg(all(feature = "text", y86_verif))]
mod refhcl;
mod refisa;
#[cfg(feature = "regs")]
mod regs;
#[cfg(feature = "text")]
mod show;
#[cfg(feature = "units")]
mod units;

fn main() {
    std::env::set_var("RUST_BACKTRACE", "0");
    std::env::set_var("RUST_LIB_BACKTRACE", "0");
    let id = std::env::args().nth(1).expect("usage: mc <property>");
    #[cfg(feature = "text")]
    if id == "C10-child" {
        return order::child(std::env::var("VERIF_TIER").as_deref() == Ok("thorough"));
    }
    let ctx = common::Ctx::new(&id);
    ctx.register_worker();
    if let Err(e) = common::guard(|| dispatch(&id, &ctx)) {
        eprintln!("harness panic: {e}");
        std::process::exit(3);
    }
    ctx.finish_and_exit()
}

fn dispatch(id: &str, ctx: &std::sync::Arc<common::Ctx>) {
    match id {
        "C01" => cpu::c01(ctx),
        "C02" => cpu::c02(ctx),
        "C03" => cpu::c03(ctx),
        "C04" => cpu::c04(ctx),
        "C05" => cpu::c05(ctx),
        "C06" => cpu::c06(ctx),
        "C07" => cpu::c07(ctx),
        "C08" => cpu::c08(ctx),
        "C09" => cpu::c09(ctx),
        #[cfg(feature = "text")]
        "C10" => order::c10(ctx),
        #[cfg(feature = "text")]
        "C11" => circuit::c11(ctx),
        #[cfg(all(feature = "text", y86_verif))]
        "C12" => hclc::c12(ctx),
        #[cfg(all(feature = "text", y86_verif))]
        "C13" => hclc::c13(ctx),
        #[cfg(all(feature = "regs", not(y86_verif)))]
        "C13" => regs::c13_structs(ctx),
        "C14" => asmc::c14(ctx),
        "C15" => asmc::c15(ctx),
        "C16" => asmc::c16(ctx),
        "C17" => asmc::c17(ctx),
        "C18" => cli::c18(ctx),
        "C19" => dbgc::c19(ctx),
        "C20" => dbgc::c20(ctx),
        "C21" => dbgc::c21(ctx),
        "C22" => dbgc::c22(ctx),
        "C23" => {
            cli::c23_cli(ctx);
            dbgc::c23_dbg(ctx)
        }
        "C24" => cli::c24(ctx),
        #[cfg(feature = "units")]
        "C25" => units::c25(ctx),
        #[cfg(feature = "drive")]
        "C26" => drive::c26(ctx),
        #[cfg(feature = "drive")]
        "C27" => drive::c27(ctx),
        #[cfg(feature = "text")]
        "C28" => show::c28(ctx),
        _ => panic!("unknown property {id}"),
    }
}
