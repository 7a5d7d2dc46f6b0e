use crate::engine::{Env, Plan};
pub mod c01;
pub mod c02;
pub mod c03;
pub mod c04;
pub mod c05;
pub mod c06;
pub mod c07;
pub mod c08;
pub mod c09;
pub mod c10;
pub mod c11;
pub mod c12;
pub mod c13;
pub mod c14;
pub mod c15;
pub mod c16;
pub mod c17;
pub mod c18;
pub mod c20;
pub mod c21;
pub mod c22;
pub mod c23;
pub mod c24;
pub mod c25;
pub mod c26;
pub mod c27;
pub mod c28;
pub mod c30;
pub mod c31;
pub mod c32;

pub fn plan(id: &str, env: &Env) -> Option<Plan> {
    Some(match id {
        "C01" => c01::plan(env),
        "C02" => c02::plan(env),
        "C03" => c03::plan(env),
        "C04" => c04::plan(env),
        "C05" => c05::plan(env),
        "C06" => c06::plan(env),
        "C07" => c07::plan(env),
        "C08" => c08::plan(env),
        "C09" => c09::plan(env),
        "C10" => c10::plan(env),
        "C11" => c11::plan(env),
        "C12" => c12::plan(env),
        "C13" => c13::plan(env),
        "C14" => c14::plan(env),
        "C15" => c15::plan(env),
        "C16" => c16::plan(env),
        "C17" => c17::plan(env),
        "C18" => c18::plan(env),
        "C20" => c20::plan(env),
        "C21" => c21::plan(env),
        "C22" => c22::plan(env),
        "C23" => c23::plan(env),
        "C24" => c24::plan(env),
        "C25" => c25::plan(env),
        "C26" => c26::plan(env),
        "C27" => c27::plan(env),
        "C28" => c28::plan(env),
        "C30" => c30::plan(env),
        "C31" => c31::plan(env),
        "C32" => c32::plan(env),
        _ => return None,
    })
}
