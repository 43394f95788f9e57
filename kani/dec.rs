//! Child of `decoders`: lane number of a decoder in the contract (tape) harnesses.
use super::*;

impl<T: Read> ArithmeticDecoder<T> {
    pub fn lane(&self) -> u32 {
        self.value
    }
    pub fn set_lane(&mut self, l: u32) {
        self.value = l;
    }
}

/// Contract of `read_init_bytes`: the decoder starts on the bytes of its layer.
pub fn stub_init<T: Read>(d: &mut ArithmeticDecoder<T>) -> std::io::Result<()> {
    unsafe { crate::verif_ghost::INIT[d.value as usize] += 1 };
    Ok(())
}
