//! P04: writing then reading a section gives the same operations and header, and consumes exactly what was written.
use super::util::*;
use crate::iox::CountR;
use crate::mon::{Ctx, R};
use crate::refm::{self, ROp};
use crate::rng::Rng;
use crate::{ensure, gen, ok, Scen};
use smdiff_common::{Format, SectionHeader};
use smdiff_reader::{read_ops_no_comp, read_section, read_section_header};
use smdiff_writer::{write_ops, write_section_header};
use std::cell::Cell;
use std::io::Cursor;
use std::rc::Rc;

/// Any legal operations, addresses anywhere in 64 bits (nothing is applied here).
pub fn free_ops(rng: &mut Rng, n: usize, max: usize, room: usize) -> Vec<ROp> {
    let mut v = vec![]; let mut left = room;
    let mut prev = [0u64, 0];
    for _ in 0..n {
        if left == 0 { break; }
        let l = gen::len(rng, max.min(left).min(65535)).max(1);
        let k = rng.below(4);
        let addr = match rng.below(8) { 0 => 0, 1 => u64::MAX, 2 => 1 << 63, 3 => (1 << 63) - 1, 4 => prev[k & 1].wrapping_add(rng.ulog()), 5 => prev[k & 1].wrapping_sub(rng.ulog()), 6 => prev[k & 1].wrapping_add(1 << 63), _ => rng.ulog() };
        let op = match k { 0 => ROp::D { addr, len: l as u16 }, 1 => ROp::O { addr, len: l as u16 }, 2 => ROp::Add(rng.vec(l)), _ => ROp::Run { byte: rng.byte(), len: if rng.pct(20) { 62.min(left) as u8 } else { l.min(62) as u8 } } };
        if k < 2 { prev[k] = addr; }
        left -= op.len() as usize;
        v.push(op);
    }
    v
}
pub fn header_of(ops: &[ROp], seg: bool, more: bool) -> SectionHeader {
    SectionHeader { compression_algo: 0, format: if seg { Format::Segregated } else { Format::Interleaved }, more_sections: more, num_operations: ops.len() as u32,
        num_add_bytes: ops.iter().map(|o| if let ROp::Add(b) = o { b.len() as u32 } else { 0 }).sum(), output_size: ops.iter().map(|o| o.len() as u32).sum() }
}
/// what a header and its operations say about themselves
fn said(ctx: &mut Ctx, h: &SectionHeader, ops: &[ROp]) -> R {
    let b = SectionHeader::new(h.num_operations, h.num_add_bytes, h.output_size);
    ensure!(b == SectionHeader { compression_algo: 0, format: Format::Interleaved, more_sections: false, ..*h }, "new-header", "SectionHeader::new gave {b:?} for the sizes of {h:?}");
    let b = b.set_compression_algo(h.compression_algo).set_format(h.format).set_more_sections(h.more_sections);
    ensure!(b == *h, "built-header", "the header built is {b:?}, asked for {h:?}");
    ensure!(h.is_interleaved() != h.format.is_segregated() && h.format.is_interleaved() != h.format.is_segregated() && h.is_compressed() == (h.compression_algo != 0), "header-says", "{h:?} says interleaved {} compressed {}", h.is_interleaved(), h.is_compressed());
    for r in ops {
        let o = refm::to_op(r);
        let k = r.kind();
        ensure!(o.is_copy() == (k < 2) && o.is_add() == (k == 2) && o.is_run() == (k == 3) && o.bit_flag() == [0u8, 0x40, 0x80, 0xC0][k as usize] && o.oal() as u64 == r.len(), "op-says", "{}: copy {} add {} run {} flag {:#x} length {}", refm::show(std::slice::from_ref(r)), o.is_copy(), o.is_add(), o.is_run(), o.bit_flag(), o.oal());
        let c = match r { ROp::D { addr, len } => Some(smdiff_common::Copy { src: smdiff_common::CopySrc::Dict, addr: *addr, len: *len }), ROp::O { addr, len } => Some(smdiff_common::Copy { src: smdiff_common::CopySrc::Output, addr: *addr, len: *len }), _ => None };
        ensure!(o.take_copy() == c, "op-says", "{}: take_copy {:?}", refm::show(std::slice::from_ref(r)), o.take_copy());
    }
    ctx.count("headers_and_operations_asked", 1 + ops.len() as u64);
    Ok(())
}
fn case(ctx: &mut Ctx, rng: &mut Rng, n: usize, max: usize, room: usize) -> R {
    let ns = if rng.pct(50) { 1 } else { rng.range(2, 5) };
    let (mut bytes, mut ends, mut secs) = (vec![], vec![], vec![]);
    for i in 0..ns {
        let k = if rng.pct(4) { 0 } else if n > 100_000 && rng.pct(60) { rng.range(60_000, n) } else { rng.lrange(1, n) };
        let ops = free_ops(rng, k, max, room);
        let seg = rng.pct(50);
        let h = header_of(&ops, seg, i + 1 < ns);
        if k < 1000 { said(ctx, &h, &ops)?; }
        let lops: Vec<_> = ops.iter().map(refm::to_op).collect();
        // with the interleaved layout the writer has no use for the number of add bytes
        let wh = if !seg && rng.pct(50) { SectionHeader { num_add_bytes: 0, ..h } } else { h };
        ok!(write_section_header(&wh, &mut bytes), "write-err", "write_section_header {h:?}");
        ok!(write_ops(&lops, &wh, &mut bytes), "write-err", "write_ops {h:?} {}", refm::show(&ops));
        ends.push(bytes.len());
        secs.push((ops, h));
    }
    let tail = rng.rvec(0, 30);
    let total = bytes.len();
    bytes.extend_from_slice(&tail);
    ctx.desc = format!("{ns} sections, {total} bytes: {}", secs.iter().map(|s| refm::show(&s.0)).collect::<Vec<_>>().join(" | ").chars().take(300).collect::<String>());
    ctx.sign(&bytes);
    ctx.blob("patch", &bytes);
    ctx.nontrivial = secs.iter().any(|s| !s.0.is_empty());
    // what was written is what the format prescribes
    let m = parse("write_ops", &bytes[..total])?;
    for (i, (s, (ops, h))) in m.secs.iter().zip(&secs).enumerate() {
        ensure!(&s.ops == ops && s.seg == h.format.is_segregated(), "written", "section {i}: wrote {} but the bytes say {}", refm::show(ops), refm::show(&s.ops));
    }
    observe(ctx, &m);
    ctx.max("max_ops_in_a_section", secs.iter().map(|s| s.0.len()).max().unwrap_or(0) as u64);
    // read_section, section by section, with the position checked after each
    let mut c = Cursor::new(&bytes);
    let mut buf = vec![];
    let keep = rng.pct(30); // the buffer may already hold operations
    for (i, (ops, h)) in secs.iter().enumerate() {
        if !keep { buf.clear(); }
        let at = buf.len();
        let got = if rng.pct(50) { ok!(read_section(&mut c, &mut buf), "read-err", "section {i} [{}]", ctx.desc) } else {
            let mut g = ok!(read_section_header(&mut c), "read-err", "header {i} [{}]", ctx.desc);
            ensure!(g.num_add_bytes == if h.format.is_segregated() { h.num_add_bytes } else { 0 }, "add-bytes", "section {i}: header claims {} add bytes before reading", g.num_add_bytes);
            ok!(read_ops_no_comp(&mut c, &mut g, &mut buf), "read-err", "ops {i} [{}]", ctx.desc); g };
        ensure!(got == *h, "header", "section {i}: read header {got:?}, wrote {h:?}");
        let rops: Vec<ROp> = buf[at..].iter().map(refm::from_op).collect();
        ensure!(rops == *ops, "ops", "section {i}: read {} wrote {}", refm::show(&rops), refm::show(ops));
        ensure!(c.position() as usize == ends[i], "position", "section {i}: reader at {} of {}", c.position(), ends[i]);
        ctx.count("sections_roundtripped", 1);
    }
    // the iterator of the reader crate: owned, borrowed, and handing the stream back
    for borrowed in [false, true] {
        let n = Rc::new(Cell::new(0));
        let mut it = smdiff_reader::SectionIterator::new(CountR { inner: Cursor::new(&bytes), n: n.clone() });
        let mut i = 0;
        loop {
            let (rops, h): (Vec<ROp>, SectionHeader) = if borrowed { match it.next_borrowed() { None => break, Some(r) => { let (o, h) = ok!(r, "iter-err", "section {i} [{}]", ctx.desc); (o.iter().map(refm::from_op).collect(), h) } } }
                else { match it.next() { None => break, Some(r) => { let (o, h) = ok!(r, "iter-err", "section {i} [{}]", ctx.desc); (o.iter().map(refm::from_op).collect(), h) } } };
            ensure!(i < secs.len() && rops == secs[i].0 && h == secs[i].1, "iter", "section {i}: got {} {h:?} want {:?}", refm::show(&rops), secs.get(i).map(|s| refm::show(&s.0)));
            ensure!(n.get() as usize == ends[i], "iter-position", "section {i}: {} bytes consumed, {} written", n.get(), ends[i]);
            i += 1;
        }
        ensure!(i == secs.len(), "iter-count", "{i} sections of {}", secs.len());
        let mut rest = vec![];
        std::io::Read::read_to_end(&mut it.into_inner(), &mut rest).unwrap();
        ensure!(rest == tail, "rest", "the stream handed back has {} bytes left, {} followed the patch", rest.len(), tail.len());
    }
    Ok(())
}
fn small(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R { case(ctx, rng, 12, 400, 10_000) }
fn wide(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R { case(ctx, rng, 60, 65535, 4_000_000) }
/// sections up to the largest output
fn full(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R { case(ctx, rng, 600, 65535, 16_777_215) }
fn many(ctx: &mut Ctx, rng: &mut Rng, idx: u64) -> R { case(ctx, rng, if idx % 5 == 0 { 250_000 } else { 20_000 }, 3, 1 << 20) }
/// every operation kind at every size next to a change of size form
fn sizes(ctx: &mut Ctx, rng: &mut Rng, idx: u64) -> R {
    let l = if idx < 700 { idx + 1 } else { 65535 - (idx % 700) };
    let mut ops = vec![];
    for k in 0..4 { let a = rng.ulog(); ops.push(match k { 0 => ROp::D { addr: a, len: l as u16 }, 1 => ROp::O { addr: a, len: l as u16 }, 2 => ROp::Add(rng.vec(l as usize)), _ => ROp::Run { byte: 1, len: l.min(62) as u8 } }); }
    for seg in [false, true] {
        let h = header_of(&ops, seg, false);
        let mut b = vec![];
        let lops: Vec<_> = ops.iter().map(refm::to_op).collect();
        ok!(write_section_header(&h, &mut b), "write-err", "{h:?}");
        ok!(write_ops(&lops, &h, &mut b), "write-err", "{h:?}");
        let m = parse("write_ops", &b)?;
        ensure!(m.secs[0].ops == ops, "written", "size {l}: wrote {} but the bytes say {}", refm::show(&ops), refm::show(&m.secs[0].ops));
        let mut buf = vec![];
        let mut c = Cursor::new(&b);
        let got = ok!(read_section(&mut c, &mut buf), "read-err", "size {l}");
        ensure!(got == h && buf == lops && c.position() as usize == b.len(), "ops", "size {l} seg {seg}: {got:?} {:?}", buf.len());
        ctx.count("sections_roundtripped", 1);
    }
    ctx.desc = format!("all kinds with size {l}");
    ctx.signs(&ctx.desc.clone());
    ctx.nontrivial = true;
    Ok(())
}
/// headers alone, over the whole range of their fields
fn headers(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R {
    for _ in 0..50 {
        let u = |rng: &mut Rng| -> u32 { match rng.below(5) { 0 => rng.below(3) as u32, 1 => u32::MAX - rng.below(3) as u32, 2 => 1u32 << rng.below(32), _ => rng.u64() as u32 >> rng.below(32) } };
        let out = u(rng) % 16_777_216;
        let out = if rng.pct(10) { 16_777_215 } else { out };
        let adds = match rng.below(4) { 0 => 0, 1 => out, _ => u(rng) % (out + 1) };
        let seg = rng.pct(50);
        let h = SectionHeader { compression_algo: rng.below(8) as u8, format: if seg { Format::Segregated } else { Format::Interleaved }, more_sections: rng.pct(50), num_operations: u(rng), num_add_bytes: if seg { adds } else { 0 }, output_size: out };
        said(ctx, &h, &[])?;
        let mut b = vec![];
        ok!(write_section_header(&h, &mut b), "write-err", "{h:?}");
        let n = b.len();
        let t = rng.rvec(0, 5); b.extend(t);
        let mut c = Cursor::new(&b);
        let g = ok!(read_section_header(&mut c), "read-err", "{h:?}");
        ensure!(g == h && c.position() as usize == n, "header", "wrote {h:?} read {g:?}, consumed {} of {n}", c.position());
        let mut want = vec![];
        refm::header(&mut want, h.compression_algo, seg, h.more_sections, h.num_operations as u64, h.num_add_bytes as u64, out as u64);
        ensure!(want == b[..n], "header-bytes", "header {h:?} written as {:02x?}, format has {:02x?}", &b[..n], want);
        ctx.sign(&b[..n]);
        ctx.count("headers_roundtripped", 1);
    }
    ctx.desc = "50 headers".into();
    ctx.nontrivial = true;
    Ok(())
}
pub fn scens() -> Vec<Scen> {
    vec![
        Scen { name: "small", weight: 40, min: (20_000, 300_000), cpu_limit: 60, run: small },
        Scen { name: "wide", weight: 5, min: (300, 6_000), cpu_limit: 60, run: wide },
        Scen { name: "full", weight: 0, min: (16, 300), cpu_limit: 120, run: full },
        Scen { name: "many", weight: 1, min: (40, 1_000), cpu_limit: 120, run: many },
        Scen { name: "sizes", weight: 1, min: (1_400, 1_400), cpu_limit: 60, run: sizes },
        Scen { name: "headers", weight: 5, min: (1_000, 20_000), cpu_limit: 60, run: headers },
    ]
}
