//! Stand-in for the zstd crate: writes real zstd frames made of raw and run-length blocks, reads frames with ruzstd.
use std::io::{Error, ErrorKind, Read, Result, Write};
pub use stream::Encoder;
pub mod stream {
    use super::*;
    pub struct Encoder<'a, W: Write> { w: W, buf: Vec<u8>, _l: std::marker::PhantomData<&'a ()> }
    impl<'a, W: Write> Encoder<'a, W> {
        pub fn new(w: W, _level: i32) -> Result<Self> { Ok(Encoder { w, buf: vec![], _l: std::marker::PhantomData }) }
        pub fn include_checksum(&mut self, _: bool) -> Result<()> { Ok(()) }
        pub fn include_contentsize(&mut self, _: bool) -> Result<()> { Ok(()) }
        pub fn set_pledged_src_size(&mut self, _: Option<u64>) -> Result<()> { Ok(()) }
        pub fn finish(mut self) -> Result<W> { let f = super::frame(&self.buf); self.w.write_all(&f)?; Ok(self.w) }
    }
    impl<W: Write> Write for Encoder<'_, W> {
        fn write(&mut self, b: &[u8]) -> Result<usize> { self.buf.extend_from_slice(b); Ok(b.len()) }
        fn flush(&mut self) -> Result<()> { Ok(()) }
    }
    pub fn encode_all<R: Read>(mut r: R, _level: i32) -> Result<Vec<u8>> { let mut v = vec![]; r.read_to_end(&mut v)?; Ok(super::frame(&v)) }
    pub fn decode_all<R: Read>(r: R) -> Result<Vec<u8>> {
        let mut d = ruzstd::StreamingDecoder::new(r).map_err(|e| Error::new(ErrorKind::InvalidData, e.to_string()))?;
        let mut v = vec![];
        d.read_to_end(&mut v)?;
        Ok(v)
    }
}
pub fn encode_all<R: Read>(r: R, l: i32) -> Result<Vec<u8>> { stream::encode_all(r, l) }
pub fn decode_all<R: Read>(r: R) -> Result<Vec<u8>> { stream::decode_all(r) }
fn frame(b: &[u8]) -> Vec<u8> {
    let mut o = vec![0x28, 0xb5, 0x2f, 0xfd, 0xa0]; // single segment, 4-byte content size
    o.extend_from_slice(&(b.len() as u32).to_le_bytes());
    let mut it = b.chunks(1 << 12).peekable();
    if b.is_empty() { o.extend_from_slice(&[1, 0, 0]); }
    while let Some(c) = it.next() {
        let last = it.peek().is_none() as u32;
        let rle = c.len() > 1 && c.iter().all(|x| *x == c[0]);
        let h = last | (rle as u32) << 1 | (c.len() as u32) << 3;
        o.extend_from_slice(&h.to_le_bytes()[..3]);
        if rle { o.push(c[0]) } else { o.extend_from_slice(c) }
    }
    o
}
pub mod zstd_safe {
    pub fn find_frame_compressed_size(b: &[u8]) -> std::result::Result<usize, String> {
        let fhd = *b.get(4).ok_or("short")?;
        if b[..4] != [0x28, 0xb5, 0x2f, 0xfd] { return Err("magic".into()); }
        let single = fhd & 0x20 != 0;
        let mut p = 5 + !single as usize + [0, 1, 2, 4][(fhd & 3) as usize] + match fhd >> 6 { 0 => single as usize, 1 => 2, 2 => 4, _ => 8 };
        loop {
            let h = b.get(p..p + 3).ok_or("short")?;
            let h = h[0] as usize | (h[1] as usize) << 8 | (h[2] as usize) << 16;
            p += 3 + if (h >> 1) & 3 == 1 { 1 } else { h >> 3 };
            if p > b.len() { return Err("short".into()); }
            if h & 1 == 1 { break; }
        }
        if fhd & 4 != 0 { p += 4; }
        if p > b.len() { Err("short".into()) } else { Ok(p) }
    }
}
