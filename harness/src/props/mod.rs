pub mod content;
pub mod opening;
pub mod p20;
pub mod pure;
pub mod raw;
pub mod sessions;

use crate::run::Ctx;

pub fn dispatch(ctx: &mut Ctx) {
    let id = ctx.id.clone();
    match id.as_str() {
        "P01" => content::p01(ctx),
        "P02" => sessions::p02(ctx),
        "P03" => sessions::p03(ctx),
        "P04" => sessions::p04(ctx),
        "P05" => sessions::p05(ctx),
        "P06" => raw::p06(ctx),
        "P07" => raw::p07(ctx),
        "P08" => sessions::p08(ctx),
        "P09" => pure::p09(ctx),
        "P10" => opening::p10(ctx),
        "P11" => sessions::p11(ctx),
        "P12" => sessions::p12(ctx),
        "P13" => opening::p13(ctx),
        "P14" => pure::p14(ctx),
        "P15" => pure::p15(ctx),
        "P16" => pure::p16(ctx),
        "P17" => opening::p17(ctx),
        "P18" => sessions::p18(ctx),
        "P19" => content::p19(ctx),
        "P20" => p20::p20(ctx),
        "P21" => pure::p21(ctx),
        "P22" => sessions::p22(ctx),
        "P23" => p20::p23(ctx),
        _ => ctx.error = Some(format!("unknown property {id}")),
    }
}
