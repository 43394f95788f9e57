//! Child of `encoders`: lane number of an encoder in the contract (tape) harnesses.
use super::*;

impl<T: Write> ArithmeticEncoder<T> {
    pub fn lane(&self) -> u32 {
        self.base
    }
    pub fn set_lane(&mut self, l: u32) {
        self.base = l;
    }
}

/// An encoder without its 8 KiB buffer; its coding functions are replaced by their contracts.
pub fn stub_new<T: Write>(out_stream: T) -> ArithmeticEncoder<T> {
    ArithmeticEncoder {
        out_buffer: Vec::new().into_boxed_slice(),
        out_byte: std::ptr::null_mut(),
        end_byte: std::ptr::null(),
        base: 0,
        length: 1,
        out_stream,
    }
}

/// Contract of `done`: the sink holds the bytes of the lane; nothing is encoded after it.
pub fn stub_done<T: Write>(e: &mut ArithmeticEncoder<T>) -> std::io::Result<()> {
    crate::verif_ghost::layer_done(e.base as usize, &mut e.out_stream)
}
