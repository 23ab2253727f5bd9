//! Workload generators: file contents, source/target pairs and encoder configurations.
use crate::rng::Rng;
use smdiff_encoder::{EncoderConfig, SecondaryCompression, SrcMatcherConfig, TrgtMatcherConfig};

/// Lengths at which the format or the implementation changes behaviour.
pub const EDGE: &[usize] = &[
    0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 20, 25, 26, 27, 31, 32, 33, 44, 45, 46, 61, 62, 63, 64, 65,
    88, 89, 90, 91, 92, 123, 124, 125, 126, 127, 128, 129, 185, 186, 187, 188, 247, 248, 249, 253, 254, 255, 256, 257, 310, 316,
    317, 318, 319, 371, 372, 373, 374, 434, 435, 496, 497, 511, 512, 513, 557, 558, 559, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097,
];
pub const EDGE_BIG: &[usize] = &[
    8191, 8192, 16383, 16384, 16385, 32767, 32768, 65533, 65534, 65535, 65536, 65537, 65540, 65597, 65598, 131069, 131070, 131071, 131072,
    131073, 131134, 196604, 196605, 196606, 262143, 262144, 262145,
];
/// A length up to `max`, biased to the edges.
pub fn len(rng: &mut Rng, max: usize) -> usize {
    let max = if cfg!(miri) { max.min(300) } else { max };
    for _ in 0..4 {
        let v = match rng.below(10) {
            0..=4 => *rng.pick(EDGE),
            5 => *rng.pick(EDGE_BIG),
            6..=7 => rng.below(24),
            _ => rng.lrange(0, max),
        };
        if v <= max { return v; }
    }
    rng.range(0, max)
}

const WORDS: &[&str] = &["the ", "quick ", "delta ", "file", "\n", "section ", "patch ", "copy", " = ", "0000", "{", "}", "return ", "fn ", "header", ", ", "source", "target", "aaaa", "  "];

const MAGIC: &[&[u8]] = &[
    b"\x28\xb5\x2f\xfd", b"\x50\x2a\x4d\x18", b"\x37\xa4\x30\xec", b"\xd6\xc3\xc4\0\0", b"\x1f\x8b\x08", b"PK\x03\x04", b"BZh9", b"\xfd7zXZ\0", b"\xef\xbb\xbf", b"\0\0\0\0", b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\x01",
    b"\x80\x80\x80\x80\x01", b"BSDIFF40", b"\x7fELF", b"\r\n", b"\x1a", b"smdiff", b"\xff\xff", b"\x7f\xff\xff\xff", b"\xce\xb2\xcf\x81", b"%PDF-", b"\x89PNG\r\n\x1a\n",
];
/// File contents of various textures.
pub fn content(rng: &mut Rng, n: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(n);
    match rng.below(if n >= 4 { 19 } else { 18 }) / 2 {
        0..=1 => return rng.vec(n),
        9 => { // signatures of file formats, the delta formats among them, and extreme numbers
            while v.len() < n { let m: &&[u8] = rng.pick(MAGIC); v.extend_from_slice(m); if rng.pct(70) { let l = rng.below(24); let x = rng.vec(l); v.extend_from_slice(&x); } else if rng.pct(30) { let b = rng.byte(); let l = v.len() + rng.below(80); v.resize(l, b); } }
        }
        2 => { let k = rng.range(2, 4); for _ in 0..n { v.push(b'a' + rng.below(k) as u8); } }
        3 => { while v.len() < n { let w: &&str = rng.pick(WORDS); v.extend_from_slice(w.as_bytes()); } }
        4 => { let p = len(rng, 300).max(1); let base = rng.vec(p); while v.len() < n { v.extend_from_slice(&base); if rng.pct(5) && n > 0 { v.push(rng.byte()); } } }
        5 => { while v.len() < n { let l = len(rng, 2000).max(1); let b = if rng.pct(50) { 0 } else { rng.byte() }; if rng.pct(50) { v.resize(v.len() + l, b) } else { let x = rng.vec(l.min(64)); v.extend_from_slice(&x) } } }
        6 => { let b = rng.byte(); v.resize(n, b); }
        7 => { let mut c = rng.u64() as u32; while v.len() < n { v.extend_from_slice(&c.to_le_bytes()); v.extend_from_slice(b"\0\0\xff\x01"); c = c.wrapping_add(1 + rng.below(3) as u32); } }
        _ => { // de Bruijn-like low entropy with long range repeats
            let base = { let l = rng.range(1, 40.max(n / 8)); rng.vec(l) };
            while v.len() < n { let a = rng.below(base.len()); let b = rng.range(a, base.len()); v.extend_from_slice(&base[a..b]); if a == b { v.push(0) } }
        }
    }
    v.truncate(n);
    v
}

#[derive(Clone)]
pub struct Pair { pub src: Vec<u8>, pub trgt: Vec<u8>, pub tag: &'static str }

/// Appends a fragment; returns nothing. Fragments are copies from src, copies from the target so far, runs and fresh bytes.
fn fragment(rng: &mut Rng, src: &[u8], t: &mut Vec<u8>, max: usize) {
    let l = len(rng, max);
    match rng.below(12) {
        0..=4 if !src.is_empty() => { let l = l.min(src.len()); let a = match rng.below(6) { 0 => 0, 1 => src.len() - l, _ => rng.range(0, src.len() - l) }; t.extend_from_slice(&src[a..a + l]); }
        5..=6 if !t.is_empty() => { let l = l.min(t.len()); let a = match rng.below(6) { 0 => 0, 1 => t.len() - l, _ => rng.range(0, t.len() - l) }; t.extend_from_within(a..a + l); }
        7..=8 => { let b = match rng.below(3) { 0 => 0, 1 => t.last().copied().unwrap_or(1), _ => rng.byte() }; let n = t.len() + l; t.resize(n, b); }
        9 if !src.is_empty() => { // a stretch of source with sparse point mutations
            let l = l.min(src.len()); let a = rng.range(0, src.len() - l); let s = t.len(); t.extend_from_slice(&src[a..a + l]);
            let gap = rng.range(1, 60); let mut i = s + rng.below(gap + 1); while i < t.len() { t[i] ^= 1 << rng.below(8); i += 1 + rng.below(gap * 2 + 1); }
        }
        10 => { let b = rng.byte(); t.push(b); }
        _ => { let b = rng.vec(l.min(700)); t.extend_from_slice(&b); }
    }
}

/// A source/target pair with total size of roughly up to `max` bytes each.
pub fn pair(rng: &mut Rng, max: usize) -> Pair {
    let n = len(rng, max);
    let src = content(rng, n);
    let (trgt, tag) = target_for(rng, &src, max);
    Pair { src, trgt, tag }
}
/// A target related to the given source in one of many ways.
pub fn target_for(rng: &mut Rng, src: &[u8], max: usize) -> (Vec<u8>, &'static str) {
    let n = src.len();
    let mut t = Vec::new();
    let tag: &'static str = match rng.below(16) {
        0..=4 => { let k = rng.lrange(1, 40); for _ in 0..k { if t.len() >= max { break; } let room = max - t.len(); fragment(rng, src, &mut t, room); } "fragments" }
        5 => { t = src.to_vec(); "identical" }
        6..=7 => { // few edits at chosen places, in particular near the end
            t = src.to_vec();
            for _ in 0..rng.range(1, 6) {
                let near_end = rng.pct(50);
                let p = if t.is_empty() { 0 } else if near_end { t.len() - 1 - rng.below(t.len().min(24)) } else { rng.below(t.len()) };
                match rng.below(4) {
                    0 if !t.is_empty() => t[p] ^= 1 + rng.byte() % 255,
                    1 => { let l = len(rng, 40); let b = rng.vec(l); t.splice(p..p, b); }
                    2 if !t.is_empty() => { let e = (p + len(rng, 40)).min(t.len()); t.drain(p..e); }
                    _ => { let l = rng.below(14); let b = rng.vec(l); t.extend_from_slice(&b); }
                }
            }
            "edits"
        }
        8 => { let l = len(rng, max); t = content(rng, l); "unrelated" }
        9 => { t = src.to_vec(); let l = if rng.pct(60) { rng.below(14) } else { len(rng, max) }; let b = content(rng, l); t.extend_from_slice(&b); "append" }
        10 => { let l = if rng.pct(60) { rng.below(14) } else { len(rng, max) }; t = content(rng, l); t.extend_from_slice(src); "prepend" }
        11 => { // moved blocks
            let mut blocks: Vec<&[u8]> = Vec::new();
            if !src.is_empty() { let k = rng.range(1, 1 + src.len().min(2000)); for c in src.chunks(k) { blocks.push(c); } }
            let m = blocks.len(); for i in 0..m { let j = rng.below(m); if rng.pct(40) { blocks.swap(i, j); } }
            for b in blocks { t.extend_from_slice(b); } "moved"
        }
        12 => { // truncations
            let a = rng.range(0, src.len()); let b = rng.range(a, src.len()); t = src[a..b].to_vec(); if rng.pct(50) { let x = rng.below(10); let y = rng.vec(x); t.extend_from_slice(&y) } "slice"
        }
        13 => { // self similar, nothing from source
            let l = len(rng, 200).max(1); t = rng.vec(l); while t.len() < n.max(1) { let a = rng.below(t.len()); let b = rng.range(a, t.len()); t.extend_from_within(a..b); if rng.pct(30) { t.push(rng.byte()); } } t.truncate(max); "selfsimilar"
        }
        14 => { // dense mutations
            t = src.to_vec(); let gap = rng.range(4, 48); let mut i = rng.below(gap); while i < t.len() { t[i] = t[i].wrapping_add(1); i += rng.range(gap / 2, gap + gap / 2).max(1); } "dense"
        }
        _ => { if rng.pct(50) { "empty-target" } else { let l = rng.below(16); t = rng.vec(l); "tiny-target" } }
    };
    (t, tag)
}

/// Long runs and long matches at the instruction-size limits.
pub fn pair_big_ops(rng: &mut Rng) -> Pair {
    let n = *rng.pick(EDGE_BIG);
    let src = if rng.pct(70) { rng.vec(n) } else { content(rng, n) };
    let mut t = Vec::new();
    for _ in 0..rng.range(1, 4) {
        match rng.below(5) {
            0 => { let a = rng.below(9).min(src.len()); t.extend_from_slice(&src[a..]); }
            1 => { let l = *rng.pick(EDGE_BIG); let b = rng.byte(); let n = t.len() + l; t.resize(n, b); }
            2 => { let l = *rng.pick(EDGE_BIG); let b = rng.vec(l); t.extend_from_slice(&b); }
            3 => { let l = len(rng, 400); let b = rng.vec(l); t.extend_from_slice(&b); }
            _ => { let l = t.len().min(140_000); let a = rng.below(t.len() - l + 1); t.extend_from_within(a..a + l); }
        }
    }
    let l = rng.below(12); let b = rng.vec(l); t.extend_from_slice(&b);
    Pair { src, trgt: t, tag: "bigops" }
}

#[derive(Clone)]
pub struct Cfg {
    pub cfg: EncoderConfig, pub desc: String,
    /// what was asked for, noted when it was asked for: compression algorithm, segregated layout, section size, no source matching
    pub comp: u8, pub seg: bool, pub win: Option<usize>, pub nosrc: bool,
}

pub fn trgt_cfg(rng: &mut Rng, small: bool) -> TrgtMatcherConfig {
    if rng.pct(40) { return TrgtMatcherConfig::comp_level(rng.below(10)); }
    let mut c = TrgtMatcherConfig::comp_level(rng.below(10));
    if rng.pct(60) { c.compress_early_exit = *rng.pick(&[0, 1, 4, 5, 9, 70, 1000, usize::MAX]); }
    if rng.pct(60) { c.chain_check = *rng.pick(if small { &[0usize, 1, 2, 3, 33, 1000][..] } else { &[0usize, 1, 2, 3, 33][..] }); }
    if rng.pct(60) {
        let cap = match rng.below(4) { 0 => 0, 1 => 1usize << rng.below(19), 2 => rng.range(1, 70), _ => 1usize << rng.below(8) };
        c = c.with_table_capacity(cap);
    }
    c
}
pub fn src_cfg(rng: &mut Rng) -> SrcMatcherConfig {
    if rng.pct(50) { return SrcMatcherConfig::comp_level(rng.below(10)); }
    let l = *rng.pick(&[0usize, 1, 2, 3, 4, 5, 7, 8, 9, 10, 13, 16, 26, 64, 1000, 70000]);
    let w = match rng.below(6) { 0..=1 => None, 2 => Some(0), 3 => Some(1usize << rng.range(18, 26)), 4 => Some(*rng.pick(&[usize::MAX, 1 << 63, (1 << 63) + 1, 1 << 40])), _ => Some(rng.range(1, 3 << 20)) };
    SrcMatcherConfig::new(l, w)
}
pub fn brotli_opts(rng: &mut Rng, small: bool) -> (smdiff_encoder::brotli::BrotliEncoderOptions, String) {
    use smdiff_encoder::brotli::*;
    let mut o = BrotliEncoderOptions::default();
    let mut d = String::new();
    let q = if small { rng.below(12) } else { rng.below(6) } as u8;
    o.quality(Quality::new(q).unwrap()); d += &format!("q{q}");
    if rng.pct(50) { let w = rng.range(10, 24) as u8; o.window_size(WindowSize::new(w).unwrap()); d += &format!("w{w}"); }
    if rng.pct(40) { let b = rng.range(16, 24) as u8; o.block_size(BlockSize::new(b).unwrap()); d += &format!("b{b}"); }
    if rng.pct(40) { o.mode(*rng.pick(&[CompressionMode::Generic, CompressionMode::Text, CompressionMode::Font])); }
    if rng.pct(20) { o.disable_context_modeling(true); d += "n"; }
    (o, d)
}
pub fn sec_comp(rng: &mut Rng, small: bool) -> (Option<SecondaryCompression>, String, u8) {
    match rng.below(8) {
        0..=2 => (None, "none".into(), 0),
        3..=4 => { let t = trgt_cfg(rng, small); let d = format!("smdiff({:?})", t); (Some(SecondaryCompression::Smdiff(t)), d, 1) }
        5..=6 => { let l = if small { rng.range(1, 22) } else { rng.range(1, 6) } as i32; (Some(SecondaryCompression::Zstd { level: l }), format!("zstd{l}"), 2) }
        _ => { let (o, d) = brotli_opts(rng, small); (Some(SecondaryCompression::Brotli { options: o }), format!("brotli-{d}"), 3) }
    }
}
pub const SEG: &[usize] = &[0, 1, 65534, 65535, 65536, 65600, 70000, 98304, 131070, 131071, 200000, 1 << 20, (1 << 24) - 2, (1 << 24) - 1, 1 << 24, usize::MAX];

/// An encoder configuration; `n` is the size of the data it will be used on.
pub fn config(rng: &mut Rng, n: usize) -> Cfg {
    let small = n <= 6000;
    let mut c = EncoderConfig::default();
    let mut d = String::new();
    let (mut seg, mut win, mut nosrc) = (false, None, false);
    // options that are set and taken back, or set again, before the ones that count
    if rng.pct(10) {
        d += "again ";
        let (t, s) = (trgt_cfg(rng, small), src_cfg(rng));
        c = c.set_match_target(t).no_match_target().set_match_src(s).set_sec_comp(SecondaryCompression::new_zstd_default()).no_sec_comp().format_segregated().format_interleaved().set_output_segment_size(70_000).set_output_segment_size(smdiff_common::MAX_WIN_SIZE).set_lazy_escape_len(45);
    }
    if rng.pct(12) {
        let lvl = rng.below(10); let mt = rng.pct(60); let (s, sd, comp) = sec_comp(rng, small);
        c = EncoderConfig::comp_level(lvl, mt, s);
        return Cfg { cfg: c, desc: format!("comp_level({lvl},{mt},{sd})"), comp, seg: comp > 0, win: None, nosrc: false };
    }
    match rng.below(8) {
        0 => { c = c.no_match_src(); nosrc = true; d += "nosrc "; }
        1 => { d += "defsrc "; }
        _ => { let s = src_cfg(rng); d += &format!("src({},{:?}) ", s.l_step, s.max_src_win_size); c = c.set_match_src(s); }
    }
    if rng.pct(60) { let t = trgt_cfg(rng, small); d += &format!("trgt({},{},{:?}) ", t.compress_early_exit, t.chain_check, t.prev_table_capacity); c = c.set_match_target(t); }
    let (s, sd, comp) = sec_comp(rng, small);
    if let Some(s) = s { c = c.set_sec_comp(s); d += &sd; d.push(' '); }
    if rng.pct(50) { c = c.format_segregated(); seg = true; d += "seg "; }
    if rng.pct(60) { let z = *rng.pick(SEG); c = c.set_output_segment_size(z); win = Some(z); d += &format!("win{z} "); }
    if rng.pct(40) { c = c.set_naive_tests(Default::default()); nosrc = false; d += "naive "; }
    if rng.pct(60) {
        let z = *rng.pick(if small { &[0usize, 1, 3, 4, 5, 9, 10, 45, 89, 90, 1000, usize::MAX][..] } else { &[0usize, 1, 4, 9, 45, 90, 200][..] });
        c = c.set_lazy_escape_len(z); d += &format!("lazy{z} ");
    }
    Cfg { cfg: c, desc: d, comp, seg, win, nosrc }
}
/// A configuration without secondary compression, cheap enough for large inputs.
pub fn config_large(rng: &mut Rng) -> Cfg {
    let mut c = EncoderConfig::default();
    let mut d = String::new();
    let (mut seg, mut win, mut nosrc) = (false, None, false);
    let l = *rng.pick(&[2usize, 3, 8, 9, 16, 26]);
    let w = match rng.below(3) { 0 => None, 1 => Some(1usize << 20), _ => Some(1usize << rng.range(18, 24)) };
    if !rng.pct(10) { c = c.set_match_src(SrcMatcherConfig::new(l, w)); d += &format!("src({l},{w:?}) "); } else { c = c.no_match_src(); nosrc = true; d += "nosrc "; }
    if rng.pct(50) { let lv = rng.below(5); c = c.set_match_target(TrgtMatcherConfig::comp_level(lv)); d += &format!("trgt(l{lv}) "); }
    let mut comp = 0;
    match rng.below(8) { 0 => { c = c.set_sec_comp(SecondaryCompression::Zstd { level: 1 }); comp = 2; d += "zstd1 "; }
        1 => { let (o, dd) = { let mut o = smdiff_encoder::brotli::BrotliEncoderOptions::default(); o.quality(smdiff_encoder::brotli::Quality::new(2).unwrap()); (o, "q2") }; c = c.set_sec_comp(SecondaryCompression::Brotli { options: o }); comp = 3; d += dd; }
        2 => { c = c.set_sec_comp(SecondaryCompression::Smdiff(TrgtMatcherConfig::comp_level(1))); comp = 1; d += "smd1 "; }
        _ => {} }
    if rng.pct(50) { c = c.format_segregated(); seg = true; d += "seg "; }
    if rng.pct(50) { let z = *rng.pick(SEG); c = c.set_output_segment_size(z); win = Some(z); d += &format!("win{z} "); }
    if rng.pct(40) { c = c.set_naive_tests(Default::default()); nosrc = false; d += "naive "; }
    if rng.pct(30) { let z = *rng.pick(&[0usize, 9, 45, 200]); c = c.set_lazy_escape_len(z); d += &format!("lazy{z} "); }
    Cfg { cfg: c, desc: d, comp, seg, win, nosrc }
}
