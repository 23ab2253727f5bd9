//! Stand-in for the brotlic crate: blocks of a length byte and that many bytes, ended by a zero.
use std::io::{BufRead, Error, ErrorKind, Read, Result, Write};
macro_rules! num { ($($n:ident $lo:literal $hi:literal;)*) => { $(
    #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)] pub struct $n(u8);
    impl $n {
        pub const fn new(v: u8) -> std::result::Result<Self, OutOfRange> { if v >= $lo && v <= $hi { Ok($n(v)) } else { Err(OutOfRange) } }
        pub const fn best() -> Self { $n($hi) } pub const fn worst() -> Self { $n($lo) } pub const fn default_() -> Self { $n($hi) }
        pub const fn level(&self) -> u8 { self.0 } pub const fn bits(&self) -> u8 { self.0 }
    }
    impl Default for $n { fn default() -> Self { $n($hi) } }
)* } }
#[derive(Clone, Copy, Debug)] pub struct OutOfRange;
num! { Quality 0 11; WindowSize 10 24; BlockSize 16 24; }
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)] pub enum CompressionMode { Generic, Text, Font }
pub use decode::DecompressorReader;
pub use encode::{BrotliEncoderOptions, CompressorWriter};
pub mod encode {
    use super::*;
    #[derive(Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash)] pub struct BrotliEncoderOptions { hint: Option<u32>, q: Option<Quality>, w: Option<WindowSize>, b: Option<BlockSize>, m: Option<CompressionMode> }
    #[derive(Debug)] pub struct BrotliEncoder;
    impl BrotliEncoderOptions {
        pub fn new() -> Self { Self::default() }
        pub fn quality(&mut self, q: Quality) -> &mut Self { self.q = Some(q); self }
        pub fn window_size(&mut self, q: WindowSize) -> &mut Self { self.w = Some(q); self }
        pub fn block_size(&mut self, q: BlockSize) -> &mut Self { self.b = Some(q); self }
        pub fn mode(&mut self, q: CompressionMode) -> &mut Self { self.m = Some(q); self }
        pub fn size_hint(&mut self, q: u32) -> &mut Self { self.hint = Some(q); self }
        pub fn disable_context_modeling(&mut self, _: bool) -> &mut Self { self }
        pub fn postfix_bits(&mut self, _: u32) -> &mut Self { self }
        pub fn large_window_size(&mut self, _: bool) -> &mut Self { self }
        pub fn build(&self) -> std::result::Result<BrotliEncoder, OutOfRange> { Ok(BrotliEncoder) }
    }
    #[derive(Debug)] pub struct CompressorWriter<W: Write> { w: W }
    impl<W: Write> CompressorWriter<W> {
        pub fn new(w: W) -> Self { CompressorWriter { w } }
        pub fn with_encoder(_: BrotliEncoder, w: W) -> Self { CompressorWriter { w } }
        pub fn into_inner(mut self) -> Result<W> { self.w.write_all(&[0])?; Ok(self.w) }
    }
    impl<W: Write> Write for CompressorWriter<W> {
        fn write(&mut self, b: &[u8]) -> Result<usize> { let n = b.len().min(255); if n > 0 { self.w.write_all(&[n as u8])?; self.w.write_all(&b[..n])?; } Ok(n) }
        fn flush(&mut self) -> Result<()> { self.w.flush() }
    }
}
pub mod decode {
    use super::*;
    pub struct BrotliDecoder { left: u8, done: bool }
    #[derive(Clone, Copy, Debug, PartialEq, Eq)] pub enum DecoderInfo { Finished, NeedsMoreInput, NeedsMoreOutput }
    pub struct DecodeResult { pub bytes_read: usize, pub bytes_written: usize, pub info: DecoderInfo }
    impl BrotliDecoder {
        pub fn new() -> Self { BrotliDecoder { left: 0, done: false } }
        pub fn decompress(&mut self, i: &[u8], o: &mut [u8]) -> std::result::Result<DecodeResult, OutOfRange> {
            let (mut r, mut w) = (0, 0);
            let info = loop {
                if self.done { break DecoderInfo::Finished; }
                if self.left == 0 { if r == i.len() { break DecoderInfo::NeedsMoreInput; } if i[r] == 0 { self.done = true; } self.left = i[r]; r += 1; continue; }
                if r == i.len() { break DecoderInfo::NeedsMoreInput; }
                if w == o.len() { break DecoderInfo::NeedsMoreOutput; }
                let n = (self.left as usize).min(i.len() - r).min(o.len() - w);
                o[w..w + n].copy_from_slice(&i[r..r + n]);
                r += n; w += n; self.left -= n as u8;
            };
            Ok(DecodeResult { bytes_read: r, bytes_written: w, info })
        }
    }
    pub struct DecompressorReader<R: BufRead> { r: R, d: BrotliDecoder }
    impl<R: BufRead> DecompressorReader<R> {
        pub fn new(r: R) -> Self { DecompressorReader { r, d: BrotliDecoder::new() } }
        pub fn into_inner(self) -> Result<R> { Ok(self.r) }
        pub fn get_ref(&self) -> &R { &self.r }
    }
    impl<R: BufRead> Read for DecompressorReader<R> {
        fn read(&mut self, o: &mut [u8]) -> Result<usize> {
            loop {
                let b = self.r.fill_buf()?;
                let end = b.is_empty();
                let x = self.d.decompress(b, o).map_err(|_| Error::from(ErrorKind::InvalidData))?;
                self.r.consume(x.bytes_read);
                if x.bytes_written > 0 || o.is_empty() || x.info == DecoderInfo::Finished { return Ok(x.bytes_written); }
                if end { return Err(ErrorKind::UnexpectedEof.into()); }
            }
        }
    }
}
