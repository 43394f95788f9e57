pub use appender::ParLasZipAppender;
pub use compression::{par_compress, par_compress_buffer, ParLasZipCompressor};
pub use decompression::{par_decompress, par_decompress_selective};
pub use decompression::{par_decompress_buffer, ParLasZipDecompressor};

mod appender;
mod compression;
mod decompression;
