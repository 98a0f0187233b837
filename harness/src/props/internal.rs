//! C20-C23: internal containers and numeric helpers, reached through the guarded `verif_hooks` module.
//! One module and one feature per property, so that a changed signature of one private type does not
//! keep the others from being decided.
use super::Prop;
use crate::ctx::*;
use crate::rng::*;

#[cfg(feature = "c20")]
pub mod bits;
#[cfg(feature = "c22")]
pub mod lists;
#[cfg(feature = "c23")]
pub mod numeric;
#[cfg(feature = "c21")]
pub mod packed;

pub fn props() -> Vec<&'static Prop> {
    #[allow(unused_mut)]
    let mut v: Vec<&'static Prop> = vec![];
    #[cfg(feature = "c20")]
    v.push(&bits::C20);
    #[cfg(feature = "c21")]
    v.push(&packed::C21);
    #[cfg(feature = "c22")]
    v.push(&lists::C22);
    #[cfg(feature = "c23")]
    v.push(&numeric::C23);
    v
}

/// interpreted runs are about a thousand times slower: fewer operations per history
#[allow(dead_code)]
const MIRI: bool = cfg!(miri);

#[allow(dead_code)]
fn copy<T: serde::Serialize + serde::de::DeserializeOwned>(t: &T) -> Result<T, String> {
    let b = bincode::serialize(t).map_err(|e| format!("serialize: {}", e))?;
    // one in four through a form that names its fields
    let h = hash_bytes(&b);
    if h % 4 == 0 && b.len() < 1 << 14 {
        return crate::value::copy(t, h % 8 == 0).map_err(|e| format!("self-describing serialisation: {}", e));
    }
    bincode::deserialize(&b).map_err(|e| format!("deserialize: {}", e))
}
/// sizes around the limits of narrow counters
#[allow(dead_code)]
fn big_size(r: &mut Rng) -> usize {
    match r.below(3) {
        0 => *r.pick(&[255usize, 256, 257, 4095, 4096, 65535, 65536, 65537, 131072]),
        1 => 65536 + r.usize(0, 3000),
        _ => r.usize(300, 300_000),
    }
}

/// one small container history for the undefined-behaviour detectors
#[allow(unused_variables)]
pub fn ub_case(c: &mut Ctx, r: &mut Rng, idx: u64) -> Res {
    match idx % 12 {
        #[cfg(feature = "c20")]
        0 => bits::c20(c, r, idx),
        #[cfg(feature = "c21")]
        1 => packed::nibbles(c, r, false),
        #[cfg(feature = "c21")]
        2 => packed::bits(c, r, false),
        #[cfg(feature = "c21")]
        3 => packed::stack(c, r, false),
        #[cfg(feature = "c21")]
        4 => packed::ring(c, r, false),
        #[cfg(feature = "c22")]
        5 | 6 => lists::list_serde(c, r),
        #[cfg(feature = "c22")]
        7 | 8 => lists::list_drops(c, r),
        #[cfg(feature = "c22")]
        9 => {
            let uni = lists::keys(r).min(6);
            lists::lru(c, r, (0..uni as u64).collect())
        }
        #[cfg(feature = "c22")]
        10 => {
            let uni = lists::keys(r).min(6);
            lists::lru(c, r, (0..uni).map(|i| format!("key {}", i)).collect())
        }
        #[cfg(feature = "c23")]
        11 => match r.below(4) {
            0 => numeric::convolve(c, r),
            1 => numeric::scale(c, r),
            2 => numeric::gauss(c, r),
            _ => numeric::parabola(c, r),
        },
        _ => Ok(()),
    }
}
