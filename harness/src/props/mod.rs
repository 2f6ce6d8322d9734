use crate::engine::*;

pub mod ga_env;
mod memory;
mod ga_props;
mod ga_parts;
mod ops;
pub mod pso_env;
mod pso_props;
mod real;
mod stop;
mod refusal;
mod testfunc;
mod tools;
mod views;

pub struct Prop {
    pub id: &'static str,
    pub tasks: fn(Tier, u64) -> Vec<Task>,
    pub bounds: &'static str,
    pub assumptions: &'static [&'static str],
}

pub const ALL: &[&Prop] = &[&ga_props::C01, &ga_props::C02, &ga_parts::C03, &ga_parts::C05, &ga_parts::C06, &ops::C07, &ops::C08, &ops::C09, &ops::C10, &pso_props::C11, &pso_props::C12, &pso_props::C13, &stop::C17, &stop::C18, &pso_props::C21, &tools::C22, &tools::C23, &tools::C24, &tools::C25, &testfunc::C26, &ops::C14, &ops::C15, &ops::C16, &real::C04, &real::C19, &real::C20, &real::C27, &real::C28, &views::C29, &real::C30, &refusal::C31, &real::whole::C32, &real::whole::C33, &real::whole::C34, &memory::C35, &real::watch::C36, &real::units::C37];

pub use memory::first_call;

pub fn find(id: &str) -> Option<&'static Prop> {
    ALL.iter().find(|p| p.id == id).copied()
}
