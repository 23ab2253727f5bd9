//! Calls into the library used by several properties.
use crate::gen::{Cfg, Pair};
use crate::mon::{Ctx, Viol};
use crate::refm::{self, Patch, ROp};
use std::io::Cursor;

pub type Cu = Cursor<Vec<u8>>;

/// Runs the real encoder.
pub fn encode(src: Option<&[u8]>, trgt: &[u8], cfg: &smdiff_encoder::EncoderConfig) -> std::io::Result<Vec<u8>> {
    let mut out = Vec::new();
    let mut t = Cursor::new(trgt);
    match src {
        Some(s) => { let mut s = Cursor::new(s); smdiff_encoder::encode(Some(&mut s), &mut t, &mut out, cfg)?; }
        None => smdiff_encoder::encode(None, &mut t, &mut out, cfg)?,
    }
    Ok(out)
}
/// Runs the real decoder.
pub fn apply(patch: &[u8], src: Option<&[u8]>) -> std::io::Result<Vec<u8>> {
    let mut sink = Cursor::new(Vec::new());
    let mut p = Cursor::new(patch);
    match src {
        Some(s) => { let mut s = Cursor::new(s); smdiff_decoder::apply_patch(&mut p, Some(&mut s), &mut sink)?; }
        None => smdiff_decoder::apply_patch::<_, Cursor<&[u8]>, _>(&mut p, None, &mut sink)?,
    }
    Ok(sink.into_inner())
}
pub fn diff_at(a: &[u8], b: &[u8]) -> String {
    let i = a.iter().zip(b).position(|(x, y)| x != y);
    match i { Some(i) => format!("first difference at byte {i} (got {:#04x}, want {:#04x}); lengths {} / {}", a[i], b[i], a.len(), b.len()), None => format!("lengths {} / {}", a.len(), b.len()) }
}
pub fn describe(ctx: &mut Ctx, p: &Pair, c: &Cfg) {
    ctx.sign(&p.src); ctx.sign(&p.trgt); ctx.signs(&c.desc);
    ctx.desc = format!("{} src={}B trgt={}B cfg[{}]", p.tag, p.src.len(), p.trgt.len(), c.desc.trim());
    ctx.blob("src", &p.src); ctx.blob("trgt", &p.trgt);
    ctx.count("source_bytes", p.src.len() as u64);
    ctx.count("target_bytes", p.trgt.len() as u64);
    let k: &'static str = match p.tag { "fragments" => "pairs_fragments", "identical" => "pairs_identical", "edits" => "pairs_edits", "unrelated" => "pairs_unrelated", "append" => "pairs_append", "prepend" => "pairs_prepend", "moved" => "pairs_moved", "slice" => "pairs_slice", "selfsimilar" => "pairs_selfsimilar", "dense" => "pairs_dense", "bigops" => "pairs_bigops", _ => "pairs_other" };
    ctx.count(k, 1);
}
/// Counts what a patch contains (so the evidence shows which operations and size classes occurred).
pub fn observe(ctx: &mut Ctx, p: &Patch) {
    ctx.count("sections", p.secs.len() as u64);
    ctx.max("max_sections_in_patch", p.secs.len() as u64);
    for s in &p.secs {
        match s.algo { 0 => ctx.count("sections_plain", 1), 1 => ctx.count("sections_smdiff", 1), 2 => ctx.count("sections_zstd", 1), 3 => ctx.count("sections_brotli", 1), _ => {} }
        if s.seg { ctx.count("sections_segregated", 1) } else { ctx.count("sections_interleaved", 1) }
        ctx.max("max_section_output", s.out);
        for o in &s.ops {
            match o { ROp::D { .. } => ctx.count("ops_copy_source", 1), ROp::O { .. } => ctx.count("ops_copy_output", 1), ROp::Add(_) => ctx.count("ops_add", 1), ROp::Run { .. } => ctx.count("ops_run", 1) }
            match o.len() { 0..=62 => {} 63 => ctx.count("ops_len_63", 1), 64..=317 => ctx.count("ops_len_64_317", 1), 65535 => ctx.count("ops_len_max", 1), _ => ctx.count("ops_len_u16", 1) }
        }
    }
}
/// Parses with the strict model, turning a rejection into a violation.
pub fn parse(what: &str, b: &[u8]) -> Result<Patch, Viol> {
    let p = refm::parse(b).map_err(|e| Viol::new("format", format!("{what}: not a conforming patch: {e} (patch of {} bytes)", b.len())))?;
    refm::legal_sizes(&p).map_err(|e| Viol::new("format-size", format!("{what}: {e}")))?;
    if let Some((i, s)) = p.secs.iter().enumerate().find(|(_, s)| s.version != 0) { return Err(Viol::new("format-version", format!("{what}: section {i} has version {}", s.version))); }
    if p.consumed != b.len() { return Err(Viol::new("format-trailing", format!("{what}: {} bytes after the terminal section", b.len() - p.consumed))); }
    Ok(p)
}
pub const CAP: usize = 1 << 31;

// ------------------------------------------------------------------ producers other than the encoder
use crate::rng::Rng;
use smdiff_common::{Format, SectionHeader};
use smdiff_encoder::SecondaryCompression;
use smdiff_merger::{Merger, SummaryPatch};

/// Output options of the merger and the transcoder.
#[derive(Clone)]
pub struct OutOpts { pub win: Option<usize>, pub fmt: Option<Format>, pub sec: Option<SecondaryCompression>, pub algo: u8, pub seg: bool, pub desc: String }
pub fn out_opts(rng: &mut Rng, n: usize) -> OutOpts {
    let (sec, sd, algo) = crate::gen::sec_comp(rng, n <= 6000);
    let win = if rng.pct(50) { None } else { Some(*rng.pick(crate::gen::SEG)) };
    let fmt = match rng.below(3) { 0 => None, 1 => Some(Format::Interleaved), _ => Some(Format::Segregated) };
    let seg = fmt == Some(Format::Segregated);
    OutOpts { win, fmt, sec, algo, seg, desc: format!("out({sd},{win:?},{})", if seg { "seg" } else { "int" }) }
}
pub fn limit(win: Option<usize>) -> u64 { win.unwrap_or(refm::MAX_OUT as usize).clamp(65535, refm::MAX_OUT as usize) as u64 }
pub fn transcode(p: &[u8], o: &OutOpts) -> std::io::Result<Vec<u8>> {
    let mut out = vec![];
    smdiff_merger::transcoder::transcode(&mut Cursor::new(p), &mut out, o.fmt.unwrap_or_default(), o.sec.clone(), o.win.unwrap_or(smdiff_common::MAX_WIN_SIZE))?;
    Ok(out)
}
pub fn convert(v: &[u8]) -> std::io::Result<Vec<u8>> {
    let mut out = vec![];
    smdiff_vcdiff::convert_vcdiff_to_smdiff(Cursor::new(v), &mut out)?;
    Ok(out)
}
pub enum End { More(Merger), Done(SummaryPatch) }
impl End {
    pub fn summary(self) -> SummaryPatch { match self { End::More(m) => m.finish(), End::Done(s) => s } }
    pub fn done(&self) -> bool { matches!(self, End::Done(_)) }
}
pub fn merge_start(p: &[u8]) -> std::io::Result<End> { Ok(match Merger::new(Cursor::new(p))? { Ok(m) => End::More(m), Err(s) => End::Done(s) }) }
pub fn merge_step(m: Merger, p: &[u8]) -> std::io::Result<End> { Ok(match m.merge(Cursor::new(p))? { Ok(m) => End::More(m), Err(s) => End::Done(s) }) }
pub fn write_summary(s: SummaryPatch, o: &OutOpts) -> std::io::Result<Vec<u8>> { let mut out = vec![]; s.write(&mut out, o.win, o.fmt, o.sec.clone())?; Ok(out) }

/// Everything a produced patch has to satisfy; returns the parsed patch.
pub fn conforms(ctx: &mut Ctx, what: &str, bytes: &[u8], src: &[u8], want: &[u8], seg: bool, algo: u8, limit: u64) -> Result<Patch, Viol> {
    let v = |k: &str, m: String| Viol::new(k, format!("{what}: {m} [{}]", ctx.desc));
    let p = parse(what, bytes).map_err(|e| Viol::new(&e.key, format!("{} [{}]", e.what, ctx.desc)))?;
    for (i, s) in p.secs.iter().enumerate() {
        if s.seg != seg { return Err(v("layout", format!("section {i} is {} but the other layout was requested", if s.seg { "segregated" } else { "interleaved" }))); }
        if s.algo != algo { return Err(v("algo", format!("section {i} has compression {} but {algo} was requested", s.algo))); }
        if s.out > limit { return Err(v("limit", format!("section {i} produces {} bytes, limit {limit}", s.out))); }
    }
    let got = refm::apply(&p, src, CAP).map_err(|e| v("illegal-copy", format!("the reference decoder refuses it: {e}")))?;
    if got != want { return Err(v("ref-decode", format!("the reference decoder gives something else: {}", diff_at(&got, want)))); }
    ctx.count("patches_judged", 1);
    if bytes.len() < 400_000 { observe(ctx, &p); }
    Ok(p)
}
/// All sections as the library's decoder-side reader returns them.
pub fn lib_sections(bytes: &[u8], borrowed: bool) -> std::io::Result<Vec<(Vec<ROp>, SectionHeader)>> {
    let mut it = smdiff_decoder::reader::SectionIterator::new(Cursor::new(bytes));
    let mut v = vec![];
    if borrowed { while let Some(r) = it.next_borrowed() { let (ops, h) = r?; v.push((ops.iter().map(refm::from_op).collect(), h)); } }
    else { for r in &mut it { let (ops, h) = r?; v.push((ops.iter().map(refm::from_op).collect(), h)); } }
    Ok(v)
}
/// The same with the iterator of the reader crate, which knows no compression.
pub fn plain_sections(bytes: &[u8], borrowed: bool) -> std::io::Result<Vec<(Vec<ROp>, SectionHeader)>> {
    let mut it = smdiff_reader::SectionIterator::new(Cursor::new(bytes));
    let mut v = vec![];
    if borrowed { while let Some(r) = it.next_borrowed() { let (ops, h) = r?; v.push((ops.iter().map(refm::from_op).collect(), h)); } }
    else { for r in &mut it { let (ops, h) = r?; v.push((ops.iter().map(refm::from_op).collect(), h)); } }
    Ok(v)
}
/// A version history: `files[0]` and patches from each version to the next, made by the encoder and by the free-form builder.
pub struct History { pub files: Vec<Vec<u8>>, pub patches: Vec<Vec<u8>>, pub desc: String }
pub fn history(rng: &mut Rng, links: usize, max: usize) -> Result<History, Viol> {
    let n = crate::gen::len(rng, max);
    let mut files = vec![crate::gen::content(rng, n)];
    let (mut patches, mut desc) = (vec![], String::new());
    for _ in 0..links {
        let prev = files.last().unwrap().clone();
        if rng.pct(50) {
            let (mut t, tag) = crate::gen::target_for(rng, &prev, max);
            t.truncate(max);
            let c = crate::gen::config(rng, max);
            let p = encode(Some(&prev), &t, &c.cfg).map_err(|e| Viol::new("encode-err", format!("{e}")))?;
            desc += &format!(" enc:{tag}:{}", t.len());
            patches.push(p); files.push(t);
        } else {
            let (p, secs, t) = refm::random_patch(rng, &prev, max, true, &[1, 2, 3]);
            desc += &format!(" built:{}s:{}", secs.len(), t.len());
            patches.push(p); files.push(t);
        }
    }
    Ok(History { files, patches, desc })
}
