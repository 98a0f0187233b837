use crate::ctx::{Ctx, Res};
use crate::rng::Rng;

pub mod cli;
pub mod codec;
pub mod faults;
pub mod format;
pub mod hostile;
pub mod isolation;
pub mod levels;
pub mod port;
pub mod session;
pub mod ub;
pub mod wav;
pub mod internal;

pub struct Prop {
    pub id: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub run: fn(&mut Ctx, &mut Rng, u64) -> Res,
    pub rule: &'static str,
    pub assume: &'static [&'static str],
    pub require: &'static [(&'static str, u64)],
}

pub fn all() -> Vec<&'static Prop> {
    let mut v: Vec<&'static Prop> = vec![];
    v.extend(codec::PROPS);
    v.extend(wav::PROPS);
    v.extend(hostile::PROPS);
    v.extend(faults::PROPS);
    v.extend(isolation::PROPS);
    v.extend(format::PROPS);
    v.extend(cli::PROPS);
    v.extend(session::PROPS);
    v.extend(levels::PROPS);
    v.extend(port::PROPS);
    v.extend(ub::PROPS);
    v.extend(internal::props());
    v
}
pub fn find(id: &str) -> &'static Prop {
    all().into_iter().find(|p| p.id == id).unwrap_or_else(|| panic!("unknown property {}", id))
}
