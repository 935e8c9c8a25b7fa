//! One monitor per property.
pub mod bus;
pub mod calc;
pub mod codec;
pub mod config;
pub mod driver;
pub mod eeprom;
pub mod robust;

use crate::ctx::Ctx;

pub fn run(id: &str, replay: Option<(String, u64, u64)>) -> Option<i32> {
    let f: fn(&mut Ctx) = match id {
        "C01" => eeprom::c01,
        "C02" => eeprom::c02,
        "C03" => codec::c03,
        "C04" => robust::c04,
        "C05" => bus::c05,
        "C06" => bus::c06,
        "C07" => codec::c07,
        "C08" => calc::c08,
        "C09" => calc::c09,
        "C10" => calc::c10,
        "C11" => calc::c11,
        "C12" => calc::c12,
        "C13" => driver::c13,
        "C14" => driver::c14,
        "C15" => driver::c15,
        "C16" => driver::c16,
        "C17" => robust::c17,
        "C20" => driver::c20,
        "C21" => eeprom::c21,
        "C22" => calc::c22,
        "C23" => codec::c23,
        "C24" => driver::c24,
        _ => return None,
    };
    let name: &'static str = Box::leak(id.to_string().into_boxed_str());
    let mut ctx = Ctx::new(name);
    if let Some((phase, case, seed)) = replay {
        ctx.seed = seed;
        ctx.replay = Some((phase, case));
    }
    f(&mut ctx);
    Some(ctx.finish())
}

/// The properties decided from runs of the portable workload.
pub fn run_recorded(id: &str, runs: &str) -> Option<i32> {
    let f: fn(&mut Ctx, &[config::Run]) = match id {
        "C18" => config::c18,
        "C19" => config::c19,
        _ => return None,
    };
    let mut ctx = Ctx::new(if id == "C18" { "C18" } else { "C19" });
    f(&mut ctx, &config::read_runs(runs));
    Some(ctx.finish())
}
