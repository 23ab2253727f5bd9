//! P15: the number and address codings are inverses over their whole range, minimal, self-delimiting, and refuse what is no number.
use crate::iox::{Chunky, CountR};
use crate::mon::{Ctx, R};
use crate::refm;
use crate::rng::Rng;
use crate::{ensure, ok, viol, Scen};
use smdiff_common as c;
use std::io::Cursor;

fn uvar(ctx: &mut Ctx, rng: &mut Rng, v: u64, buf: &mut Vec<u8>) -> R {
    buf.clear();
    ok!(c::write_u_varint(buf, v), "write", "write_u_varint({v})");
    let mut want = vec![];
    refm::put_uvar(&mut want, v);
    ensure!(*buf == want, "uvar-bytes", "{v} is written as {buf:02x?}, documented {want:02x?}");
    let n = buf.len();
    ensure!(c::u_varint_encode_size(v) == n, "uvar-size", "u_varint_encode_size({v}) = {}, written in {n}", c::u_varint_encode_size(v));
    buf.extend_from_slice(&[0xff, 0x80, 0x01]);
    let mut r = &buf[..];
    let got = ok!(c::read_u_varint(&mut r), "read", "read_u_varint of {v}");
    ensure!(got == v, "uvar-value", "{v} reads back as {got}");
    ensure!(r.len() == 3, "uvar-consumed", "reading {v} consumed {} of its {n} bytes", buf.len() - r.len());
    // every truncation is refused
    for k in 0..n { ensure!(c::read_u_varint(&mut &buf[..k]).is_err(), "uvar-truncated", "the first {k} bytes of {v} ({:02x?}) were read as a number", &buf[..k]); }
    if rng.pct(2) {
        let mut s = Chunky::new(Cursor::new(&buf[..]), rng.fork(), 1, 40);
        ensure!(ok!(c::read_u_varint(&mut s), "read", "read_u_varint of {v}, interrupted") == v, "uvar-value", "{v} is misread from an interrupted stream");
    }
    ctx.count("unsigned_values", 1);
    Ok(())
}
fn ivar(ctx: &mut Ctx, v: i64, buf: &mut Vec<u8>) -> R {
    buf.clear();
    ok!(c::write_i_varint(buf, v), "write", "write_i_varint({v})");
    let mut want = vec![];
    refm::put_ivar(&mut want, v);
    ensure!(*buf == want, "ivar-bytes", "{v} is written as {buf:02x?}, documented {want:02x?}");
    let n = buf.len();
    buf.push(0x80);
    let mut r = &buf[..];
    let got = ok!(c::read_i_varint(&mut r), "read", "read_i_varint of {v}");
    ensure!(got == v, "ivar-value", "{v} reads back as {got}");
    ensure!(r.len() == 1, "ivar-consumed", "reading {v} did not consume its {n} bytes");
    for k in 0..n { ensure!(c::read_i_varint(&mut &buf[..k]).is_err(), "ivar-truncated", "the first {k} bytes of {v} were read as a number"); }
    let z = c::zigzag_encode(v);
    ensure!(c::zigzag_decode(z) == v && c::zigzag_encode(c::zigzag_decode(v as u64)) == v as u64, "zigzag", "zigzag is not a bijection at {v}");
    ctx.count("signed_values", 1);
    Ok(())
}
fn addr(ctx: &mut Ctx, a: u64, b: u64) -> R {
    let d = c::diff_addresses_to_i64(a, b);
    let got = c::diff_addresses_to_u64(a, d);
    ensure!(got == b, "addr", "difference {a} -> {b} is {d}, which restores {got}");
    let t = b as i128 - a as i128;
    if i64::try_from(t).is_ok() { ensure!(d as i128 == t, "addr-diff", "difference {a} -> {b} is {d}, not {t}"); }
    ctx.count("address_pairs", 1);
    Ok(())
}
fn near(rng: &mut Rng) -> u64 {
    match rng.below(4) { 0 => rng.ulog(), 1 => (1u64 << rng.below(64)).wrapping_add(rng.below(5) as u64).wrapping_sub(2), 2 => u64::MAX - rng.ulog(), _ => rng.u64() }
}
/// all values of one block of 4096: blocks from zero up, and around every power of two
fn blocks(ctx: &mut Ctx, rng: &mut Rng, idx: u64) -> R {
    let base = if idx < 64 { ((1u128 << idx) as u64).wrapping_sub(2048) } else { (idx - 64).wrapping_mul(4096) };
    ctx.desc = format!("values from {base}");
    ctx.sign(&base.to_le_bytes());
    ctx.nontrivial = true;
    let mut buf = vec![];
    for i in 0..4096u64 {
        let v = base.wrapping_add(i);
        uvar(ctx, rng, v, &mut buf)?;
        ivar(ctx, v as i64, &mut buf)?;
        ivar(ctx, (v as i64).wrapping_neg(), &mut buf)?;
        addr(ctx, near(rng), v)?;
    }
    Ok(())
}
fn random(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R {
    ctx.nontrivial = true;
    let mut buf = vec![];
    for i in 0..500 {
        let (a, b) = (near(rng), near(rng));
        if i == 0 { ctx.desc = format!("values {a}, {b}, .."); ctx.sign(&a.to_le_bytes()); ctx.sign(&b.to_le_bytes()); }
        uvar(ctx, rng, a, &mut buf)?;
        ivar(ctx, b as i64, &mut buf)?;
        addr(ctx, a, b)?;
        addr(ctx, a, a.wrapping_add(rng.ulog()))?;
        addr(ctx, a, a.wrapping_sub(rng.ulog()))?;
    }
    Ok(())
}
/// every 8-bit and 16-bit value
fn fixed(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R {
    ctx.nontrivial = true;
    ctx.desc = "all u8 and u16 values".into();
    ctx.signs("fixed");
    for v in 0..=u8::MAX { let mut b = vec![]; ok!(c::write_u8(&mut b, v), "write", "write_u8"); ensure!(b == [v], "u8", "{v} is written as {b:02x?}"); b.push(7); let mut r = &b[..]; ensure!(ok!(c::read_u8(&mut r), "read", "read_u8") == v && r.len() == 1, "u8", "{v} is misread"); }
    for v in 0..=u16::MAX {
        let mut b = vec![]; ok!(c::write_u16(&mut b, v), "write", "write_u16"); ensure!(b == [v as u8, (v >> 8) as u8], "u16", "{v} is written as {b:02x?}");
        b.push(7); let mut r = &b[..]; ensure!(ok!(c::read_u16(&mut r), "read", "read_u16") == v && r.len() == 1, "u16", "{v} is misread");
        ensure!(c::read_u16(&mut &b[..rng.below(2)]).is_err(), "u16", "a truncated u16 was read");
        // the size class chosen for an operation can express its size
        if v > 0 { match c::size_routine(v) { c::Size::Done(x) => ensure!(x as u16 == v && (1..=62).contains(&v), "size-class", "size {v} is put in the operation byte as {x}"), c::Size::U8And62 => ensure!((62..=317).contains(&v), "size-class", "size {v} does not fit one byte"), c::Size::U16 => {} } }
        // ... in as many bytes as it says, behind the operation byte and before the address
        if v > 0 {
            let (op, h): ([smdiff_reader::Op; 1], _) = ([c::Op::Copy(c::Copy { src: c::CopySrc::Output, addr: 0, len: v })], c::SectionHeader::new(1, 0, v as u32));
            let mut b = vec![];
            ok!(smdiff_writer::write_ops(&op, &h, &mut b), "write", "write_ops");
            ensure!(b.len() == 2 + c::size_routine(v).size_overhead(), "size-overhead", "size {v} takes {} bytes besides the operation byte, size_overhead says {}", b.len() - 2, c::size_routine(v).size_overhead());
        }
    }
    ensure!(c::read_u8(&mut &[][..]).is_err() && c::read_u16(&mut &[][..]).is_err(), "empty", "a number was read from nothing");
    ctx.count("fixed_width_values", 65536 + 256);
    Ok(())
}
/// byte strings that may or may not be a number
fn malformed(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R {
    ctx.nontrivial = true;
    for i in 0..200 {
        let n = rng.range(0, 14);
        let mut b: Vec<u8> = (0..n).map(|_| match rng.below(6) { 0 => 0x80, 1 => 0xff, 2 => 0x81, _ => rng.byte() | 0x80 }).collect();
        if rng.pct(80) { let l = *rng.pick(&[0u8, 1, 2, 3, 0x40, 0x7f, 0x7e]); b.push(l); }
        let t = rng.below(3); b.extend(rng.vec(t));
        if i == 0 { ctx.desc = format!("bytes {b:02x?}, .."); ctx.sign(&b); }
        // what the bytes say: the number up to its terminating byte, of any length
        let end = b.iter().position(|x| x & 0x80 == 0);
        let value = end.and_then(|e| { let mut v: u128 = 0; for (k, x) in b[..=e].iter().enumerate() { let d = (x & 0x7f) as u128; if k >= 18 { if d != 0 { return None; } continue; } v |= d << (7 * k); } u64::try_from(v).ok() });
        let minimal = end.map(|e| e == 0 || b[e] != 0).unwrap_or(false);
        let count = CountR { inner: &b[..], n: Default::default() };
        let n = count.n.clone();
        let mut count = count;
        match (c::read_u_varint(&mut count), value) {
            (Ok(x), Some(v)) => { ensure!(x == v, "misread", "{b:02x?} reads as {x}, but says {v}"); ensure!(n.get() as usize == end.unwrap() + 1, "misread-consumed", "{b:02x?}: consumed {} bytes of a number of {}", n.get(), end.unwrap() + 1); ctx.count("numbers_read", 1) }
            (Ok(x), None) => viol!("accepted", "{b:02x?} is no number of at most 64 bits but was read as {x}"),
            (Err(e), Some(v)) => { if minimal { viol!("refused", "{b:02x?} says {v} but was refused: {e}") } ctx.count("padded_refused", 1) }
            (Err(_), None) => ctx.count("non_numbers_refused", 1),
        }
        let z = value.map(|v| if v & 1 == 0 { (v >> 1) as i64 } else { !((v >> 1) as i64) });
        match (c::read_i_varint(&mut &b[..]), z) {
            (Ok(x), Some(v)) => ensure!(x == v, "misread", "{b:02x?} reads as signed {x}, but says {v}"),
            (Ok(x), None) => viol!("accepted", "{b:02x?} is no number of at most 64 bits but was read as signed {x}"),
            (Err(e), Some(v)) => if minimal { viol!("refused", "{b:02x?} says {v} but was refused: {e}") },
            (Err(_), None) => {}
        }
    }
    Ok(())
}
/// long sequences of mixed numbers and address chains in one stream
fn streams(ctx: &mut Ctx, rng: &mut Rng, _: u64) -> R {
    let n = rng.range(1, 400);
    let vals: Vec<(u8, u64)> = (0..n).map(|_| (rng.below(5) as u8, near(rng))).collect();
    let mut b = vec![];
    let mut cur = 0u64;
    for (k, v) in &vals {
        match k { 0 => c::write_u_varint(&mut b, *v), 1 => c::write_i_varint(&mut b, *v as i64), 2 => c::write_u8(&mut b, *v as u8), 3 => c::write_u16(&mut b, *v as u16), _ => { let d = c::diff_addresses_to_i64(cur, *v); cur = *v; c::write_i_varint(&mut b, d) } }.map_err(|e| crate::mon::Viol::new("write", e.to_string()))?;
    }
    ctx.sign(&b);
    ctx.nontrivial = true;
    ctx.desc = format!("{n} numbers in {} bytes", b.len());
    let mut r = Chunky::new(Cursor::new(&b[..]), rng.fork(), rng.range(1, 5), 10);
    cur = 0;
    for (i, (k, v)) in vals.iter().enumerate() {
        let e = |e: std::io::Error| crate::mon::Viol::new("read", format!("number {i}: {e}"));
        let good = match k { 0 => c::read_u_varint(&mut r).map_err(e)? == *v, 1 => c::read_i_varint(&mut r).map_err(e)? == *v as i64, 2 => c::read_u8(&mut r).map_err(e)? == *v as u8, 3 => c::read_u16(&mut r).map_err(e)? == *v as u16, _ => { cur = c::diff_addresses_to_u64(cur, c::read_i_varint(&mut r).map_err(e)?); cur == *v } };
        ensure!(good, "stream", "number {i} of a stream (kind {k}, value {v}) is misread");
    }
    ensure!(r.inner.position() as usize == b.len(), "stream-consumed", "{} of {} bytes consumed", r.inner.position(), b.len());
    ctx.count("stream_numbers", n as u64);
    Ok(())
}
pub fn scens() -> Vec<Scen> {
    vec![
        Scen { name: "fixed", weight: 0, min: (1, 1), cpu_limit: 60, run: fixed },
        Scen { name: "blocks", weight: 10, min: (600, 60_000), cpu_limit: 60, run: blocks },
        Scen { name: "random", weight: 10, min: (1_000, 100_000), cpu_limit: 60, run: random },
        Scen { name: "malformed", weight: 10, min: (2_000, 200_000), cpu_limit: 60, run: malformed },
        Scen { name: "streams", weight: 5, min: (1_000, 100_000), cpu_limit: 60, run: streams },
    ]
}
