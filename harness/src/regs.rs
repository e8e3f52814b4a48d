//! C13, the part that needs no hook: registers declared with define_stages!, every state x input x control.
use crate::common::*;
use serde_json::json;
use std::sync::Arc;

#[allow(unexpected_cfgs)]
mod decl {
    y86_sim::define_stages! {
        /// several fields of every kind
        StageA a { f: u8 = 17, g: u64 = 0xfedc_ba98_7654_3210, h: bool = true }
        StageB b { f: u8 = RNONE, g: u64 = 1 }
        StageC c { only: u8 = IOPQ }
    }
}
use decl::*;

const AF: [u8; 3] = [17, 0, 0xee];
const AG: [u64; 3] = [0xfedc_ba98_7654_3210, 0, u64::MAX];
const BF: [u8; 3] = [15, 0, 17];
const BG: [u64; 3] = [1, 0, 0xfedc_ba98_7654_3210];
const CO: [u8; 2] = [0xc, 0x33];

type A = (u8, u64, bool);
type B = (u8, u64);

fn get(r: &PipeRegs) -> (A, B, u8) {
    ((r.a.f, r.a.g, r.a.h), (r.b.f, r.b.g), r.c.only)
}

pub fn c13_structs(ctx: &Arc<Ctx>) {
    let d = PipeRegs::default();
    if get(&d) != ((17, 0xfedc_ba98_7654_3210, true), (15, 1), 0xc)
        || d.a.stall
        || d.a.bubble
        || d.b.stall
        || d.b.bubble
        || d.c.stall
        || d.c.bubble
    {
        ctx.violation(Viol::new(
            format!("registers at start-up are not the declared ones: {d:?}"),
            "start",
            json!(format!("{d:?}")),
        ));
        return;
    }
    // one job per (old a, new a): 18 x 18
    let a = |k: usize| (AF[k % 3], AG[k / 3 % 3], k / 9 == 0);
    ctx.par(18 * 18, |j| {
        let (oa, na) = (a(j % 18), a(j / 18));
        let mut n = 0u64;
        for rest in 0..(9 * 9 * 2 * 2) {
            let (ob, nb) = ((BF[rest % 3], BG[rest / 3 % 3]), (BF[rest / 9 % 3], BG[rest / 27 % 3]));
            let (oc, nc) = (CO[rest / 81 % 2], CO[rest / 162]);
            for ctl in 0..64usize {
                // controls left over from the cycle before must not matter
                for left in [0usize, 1, 2, 3] {
                    let mut r = PipeRegs::default();
                    let mut w = PipeRegs::default();
                    (r.a.f, r.a.g, r.a.h) = oa;
                    (w.a.f, w.a.g, w.a.h) = na;
                    (r.b.f, r.b.g) = ob;
                    (w.b.f, w.b.g) = nb;
                    r.c.only = oc;
                    w.c.only = nc;
                    (r.a.stall, r.b.stall, r.c.bubble) = (left & 1 != 0, left & 2 != 0, left & 1 != 0);
                    (r.a.bubble, r.b.bubble, r.c.stall) = (left & 2 != 0, left & 1 != 0, left & 2 != 0);
                    (w.a.stall, w.a.bubble) = (ctl & 1 != 0, ctl & 2 != 0);
                    (w.b.stall, w.b.bubble) = (ctl & 4 != 0, ctl & 8 != 0);
                    (w.c.stall, w.c.bubble) = (ctl & 16 != 0, ctl & 32 != 0);
                    r.mux(&w);
                    let g = get(&r);
                    fn ok<T: PartialEq>(c: usize, got: T, old: T, new: T, reset: T) -> bool {
                        match c {
                            0 => got == new,
                            1 => got == old,
                            2 => got == reset,
                            _ => got == old || got == reset,
                        }
                    }
                    if !(ok(ctl & 3, g.0, oa, na, (17, 0xfedc_ba98_7654_3210, true)) && ok(ctl >> 2 & 3, g.1, ob, nb, (15, 1)) && ok(ctl >> 4, g.2, oc, nc, 0xc)) {
                        ctx.violation(Viol::new(
                            format!("clock edge: old {:?}, input {:?}, controls (1 stall, 2 bubble) a={} b={} c={}: registers are {g:?}", (oa, ob, oc), (na, nb, nc), ctl & 3, ctl >> 2 & 3, ctl >> 4),
                            format!("mux {} {} {}", ctl & 3, ctl >> 2 & 3, ctl >> 4),
                            json!({"old": format!("{:?}", (oa, ob, oc)), "input": format!("{:?}", (na, nb, nc)), "controls": [ctl & 3, ctl >> 2 & 3, ctl >> 4], "left": left}),
                        ));
                        return;
                    }
                    n += 1;
                }
            }
        }
        ctx.add(n, n, 0);
        ctx.outcome("clock edges of declared registers: every old value, input and control", n);
    });
}
