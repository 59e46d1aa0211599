#[cfg(feature = "native")] #[path = "../../engine/src/big.rs"] pub mod big;
#[macro_use] pub mod sym;
pub mod util;
pub mod sums;
pub mod ubi;
pub mod lift;
pub mod ratio;
pub mod bi;
pub mod conv;
pub mod ulift;
pub mod rlift;
pub mod alg;
pub mod fp;
pub mod rconv;
pub mod text;
pub mod rtext;
pub mod num;
pub mod ftext;
pub mod misc;

pub fn lookup(n: &str) -> Option<fn(&[u64])> {
    for t in [ubi::TABLE, ratio::TABLE, bi::TABLE, conv::TABLE, ulift::TABLE, alg::TABLE, fp::TABLE, rconv::TABLE, text::TABLE, rtext::TABLE, num::TABLE, ftext::TABLE, misc::TABLE] { for (k, f) in t.iter() { if *k == n { return Some(*f); } } }
    None
}
