use crate::pool::Plan;
mod c01;
mod c03;
mod c04;
mod c05;
mod c08;
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod c15;
mod c16;
mod c17;
pub mod c18;
mod c19;
mod c20;
mod c21;
mod c22;
mod c23;
mod c24;
mod c25;
mod c26;
pub fn plans() -> Vec<Plan> {
    vec![c01::plan(), c01::plan_int(), c03::plan(), c03::plan_cut(), c04::plan(), c08::plan(), c09::plan(), c10::plan(), c11::plan(), c12::plan(), c13::plan(), c13::plan_model(), c15::plan(), c16::plan(), c17::plan(), c18::plan(), c19::plan(), c20::plan(), c21::plan(), c22::plan(), c23::plan(), c24::plan(), c25::plan(), c26::plan(), c05::plan(), c05::plan_corrupt()]
}
pub fn plan(id: &str) -> Plan {
    if id == "GOLD2" {
        return c23::gold2();
    }
    if id == "GOLD3" {
        return c23::gold3();
    }
    if id == "GOLD" {
        return c23::gold();
    }
    match plans().into_iter().find(|p| p.prop == id) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {}", id);
            std::process::exit(2)
        }
    }
}
pub const MB: usize = 1 << 20;
