use vstd::prelude::*;
use vstd::arithmetic::mul::*;
use vstd::arithmetic::div_mod::*;
verus! {
// widening conversions of std (u32::from and friends); their meaning is that of `as`
pub fn widen_u32(x: impl Widen32) -> (r: u32) ensures r as int == x.val() { x.w() }
pub trait Widen32 { spec fn val(&self) -> int; fn w(&self) -> (r: u32) ensures r as int == self.val(); }
impl Widen32 for u8 { open spec fn val(&self) -> int { *self as int } fn w(&self) -> u32 { *self as u32 } }
impl Widen32 for u16 { open spec fn val(&self) -> int { *self as int } fn w(&self) -> u32 { *self as u32 } }
pub fn widen_u64(x: u32) -> (r: u64) ensures r == x { x as u64 }
//@include models_body
}
