use vstd::prelude::*;
use vstd::arithmetic::mul::*;
use vstd::arithmetic::div_mod::*;
verus! {
// ================================================================ assumed contracts (std, byteorder)
// widening conversions of std (u32::from and friends); their meaning is that of `as`
pub trait Widen32 { spec fn val(&self) -> int; fn w(&self) -> (r: u32) ensures r as int == self.val(); }
impl Widen32 for u8 { open spec fn val(&self) -> int { *self as int } fn w(&self) -> u32 { *self as u32 } }
impl Widen32 for u16 { open spec fn val(&self) -> int { *self as int } fn w(&self) -> u32 { *self as u32 } }
pub fn widen_u32<X: Widen32>(x: X) -> (r: u32) ensures r as int == x.val() { x.w() }
pub trait Widen64 { spec fn val64(&self) -> int; fn w64(&self) -> (r: u64) ensures r as int == self.val64(); }
impl Widen64 for u32 { open spec fn val64(&self) -> int { *self as int } fn w64(&self) -> u64 { *self as u64 } }
pub fn widen_u64<X: Widen64>(x: X) -> (r: u64) ensures r as int == x.val64() { x.w64() }

pub mod io {
    use vstd::prelude::*;
    pub struct Error { pub kind: ErrorKind }
    pub enum ErrorKind { UnexpectedEof, Other }
    pub type Result<T> = core::result::Result<T, Error>;
    impl Error {
        pub fn new(kind: ErrorKind, _what: &str) -> Error { Error { kind } }
    }
}
// std::io::Write: write_all either appends the whole buffer to what was delivered or fails
pub trait Write: Sized {
    spec fn sunk(&self) -> Seq<u8>;
    fn write_all(&mut self, buf: &[u8]) -> (r: io::Result<()>)
        ensures r is Ok ==> final(self).sunk() == old(self).sunk() + buf@;
}
// std::io::Read / byteorder::ReadBytesExt: bytes come from the front of what is left, or the call fails
pub trait Read: Sized {
    spec fn left(&self) -> Seq<u8>;
    fn read_exact(&mut self, buf: &mut [u8; 4]) -> (r: io::Result<()>)
        ensures r is Ok ==> old(self).left().len() >= 4 && final(self).left() == old(self).left().skip(4) && final(buf)@ == old(self).left().take(4),
            old(self).left().len() >= 4 ==> r is Ok;
    fn read_u8(&mut self) -> (r: io::Result<u8>)
        ensures r is Ok ==> old(self).left().len() >= 1 && r->Ok_0 == old(self).left()[0] && final(self).left() == old(self).left().skip(1),
            old(self).left().len() >= 1 ==> r is Ok;
}
// slice::fill, sub-slices of the output buffer (raw parts and ranges alike: the bounds are an obligation here)
pub fn fill(v: &mut Vec<u8>, x: u8)
    ensures final(v)@ == Seq::new(old(v)@.len(), |i: int| x)
{
    let mut i: usize = 0;
    while i < v.len()
        invariant 0 <= i <= v@.len(), v@.len() == old(v)@.len(), forall|k: int| 0 <= k < i ==> v@[k] == x,
        decreases v@.len() - i
    { v[i] = x; i += 1; }
    proof { assert(v@ =~= Seq::new(old(v)@.len(), |i: int| x)); }
}
pub fn part(v: &Vec<u8>, at: usize, len: usize) -> (r: &[u8])
    requires at + len <= v@.len()
    ensures r@ == v@.subrange(at as int, at + len)
{ let n = v.len(); vstd::slice::slice_subrange(v.as_slice(), at, at + len) }

//@include models_body
pub mod coder {
use super::*;
//@include coder_body
}
pub mod pair {
use super::*;
use super::coder::*;
//@include pair_body
}
} // verus!
