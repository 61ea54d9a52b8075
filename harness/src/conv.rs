//! Oracles for conversions: coordinates (P11), timestamps (P12), kinds (P17).
use crate::util::*;
use osmio::{lat_lon_inner_to_degrees, Lat, Lon, OSMObjectType, ParseLatLonError, TimestampFormat};
use std::cmp::Ordering;
use std::convert::TryFrom;
use std::str::FromStr;

/// decimal digits of i / 10^7 without floating point, shortest form
fn dec(i: i32) -> String {
    let n = (i as i64).abs();
    let mut s = format!("{}{}.{:07}", if i < 0 { "-" } else { "" }, n / 10_000_000, n % 10_000_000);
    while s.ends_with('0') { s.pop(); }
    if s.ends_with('.') { s.pop(); }
    s
}
enum Want { Val(i64, i64), Large, Small, Any }
/// exact analysis of a finite double times 10^7: nearest integers allowing for
/// the rounding of one floating-point multiplication at a tie
fn want(x: f64) -> Want {
    let bits = x.to_bits();
    let neg = bits >> 63 == 1;
    let e = ((bits >> 52) & 0x7ff) as i32;
    let m = if e == 0 { (bits & ((1 << 52) - 1)) << 1 } else { (bits & ((1 << 52) - 1)) | (1 << 52) } as u128;
    let e = e - 1075;
    // value = m * 2^e
    if e > 0 || (m * 10_000_000) >> (-e).clamp(0, 127) > 1 << 40 {
        if e > 0 || -e < 127 { return if neg { Want::Small } else { Want::Large }; }
    }
    let p = m * 10_000_000; // < 2^77
    let sh = (-e) as u32;
    if sh > 120 { return Want::Val(0, 0); }
    let q = (p >> sh) as i64;
    let rem = p & ((1u128 << sh) - 1);
    let half = 1u128 << (sh.max(1) - 1);
    let tol = (p >> 52).max(1); // half an ulp of the product, generously
    let (lo, hi) = if sh == 0 { (q, q) } else if rem + tol < half { (q, q) } else if rem > half + tol { (q + 1, q + 1) } else { (q, q + 1) };
    let (lo, hi) = if neg { (-hi, -lo) } else { (lo, hi) };
    let fit = |v: i64| v >= i32::MIN as i64 && v <= i32::MAX as i64;
    if fit(lo) && fit(hi) { Want::Val(lo, hi) } else if !fit(lo) && !fit(hi) { if neg { Want::Small } else { Want::Large } } else { Want::Any }
}
fn judge(tag: &str, x: f64, got: Result<i32, ParseLatLonError>, what: &str) -> Res {
    let ok = match (want(x), &got) {
        (Want::Val(a, b), Ok(v)) => a == *v as i64 || b == *v as i64,
        (Want::Large, Err(ParseLatLonError::TooLarge(_))) => true,
        (Want::Small, Err(ParseLatLonError::TooSmall(_))) => true,
        (Want::Any, _) => true,
        _ => false,
    };
    if ok { Ok(()) } else { fail(tag, format!("{what} {x:?}: {got:?}")) }
}
fn fixed(i: i32) -> Res {
    macro_rules! one { ($t:ident) => {{
        let n = stringify!($t);
        let l = $t::from_inner(i);
        if l.inner() != i { return fail(&format!("P11-{n}-inner"), format!("{i} -> {}", l.inner())); }
        let d = l.degrees();
        if d.to_bits() != (i as f64 / 1e7).to_bits() || f64::from(l).to_bits() != d.to_bits() || lat_lon_inner_to_degrees(i).to_bits() != d.to_bits() { return fail(&format!("P11-{n}-degrees"), format!("{i} -> {d:?}")); }
        match $t::try_from(d) { Ok(b) if b.inner() == i => {} x => return fail(&format!("P11-{n}-roundtrip"), format!("{i} -> {d:?} -> {:?}", x.map(|v| v.inner()))) }
    }}; }
    one!(Lat);
    one!(Lon);
    Ok(())
}
fn fixed_text(i: i32) -> Res {
    macro_rules! one { ($t:ident) => {{
        let n = stringify!($t);
        let l = $t::from_inner(i);
        let s = l.to_string();
        match $t::from_str(&s) { Ok(b) if b.inner() == i => {} x => return fail(&format!("P11-{n}-text"), format!("{i} -> {s} -> {:?}", x.map(|v| v.inner()))) }
        if s != dec(i) && s.parse::<f64>().ok() != Some(l.degrees()) { return fail(&format!("P11-{n}-display"), format!("{i} -> {s}")); }
        match $t::from_str(&dec(i)) { Ok(b) if b.inner() == i => {} x => return fail(&format!("P11-{n}-decimal"), format!("{} -> {:?}", dec(i), x.map(|v| v.inner()))) }
    }}; }
    one!(Lat);
    one!(Lon);
    Ok(())
}
pub fn p11(r: &mut Rng, c: u64) -> Res {
    // a block of consecutive fixed-point values per case (the whole i32 range when enough cases run)
    const B: u64 = 4096;
    let start = (c.wrapping_mul(0x9E37_79B1).wrapping_mul(B)) as u32 as i32;
    for k in 0..B as i32 {
        fixed(start.wrapping_add(k))?;
    }
    for k in 0..64 {
        fixed_text(start.wrapping_add(k * 61))?;
    }
    let i = r.inner(1_800_000_000);
    fixed(i)?;
    fixed_text(i)?;
    let j = if r.flip() { i } else { i.wrapping_add(r.range(-2, 2) as i32) };
    macro_rules! ord { ($t:ident) => {
        let (a, b) = ($t::from_inner(i), $t::from_inner(j));
        if a.cmp(&b) != i.cmp(&j) || a.partial_cmp(&b) != Some(i.cmp(&j)) || (a == b) != (i == j) || (a < b) != (i < j) { return fail(concat!("P11-", stringify!($t), "-order"), format!("{i} {j}")); }
    }; }
    ord!(Lat);
    ord!(Lon);
    for _ in 0..32 {
        let x = match r.below(9) {
            0 => f64::from_bits(r.next()),
            1 => (r.inner(1_800_000_000) as f64 + 0.5) / 1e7,
            2 => f64::from_bits(((r.inner(1_800_000_000) as f64 + 0.5) / 1e7).to_bits().wrapping_add(r.range(-3, 3) as u64)),
            3 => f64::from_bits(214.7483647f64.to_bits().wrapping_add(r.range(-40, 40) as u64)),
            4 => -f64::from_bits(214.7483648f64.to_bits().wrapping_add(r.range(-40, 40) as u64)),
            5 => 214.74836475 + r.range(-10, 10) as f64 * 1e-9,
            6 => -214.74836485 + r.range(-10, 10) as f64 * 1e-9,
            7 => r.range(-2_300_000_000, 2_300_000_000) as f64 / 1e7 + r.range(-60, 60) as f64 * 1e-9,
            _ => *r.pick(&[0.0, -0.0, 5e-8, -5e-8, 4.9999999e-8, f64::MIN_POSITIVE, f64::MAX, f64::MIN, f64::INFINITY, f64::NEG_INFINITY, 1e-300, 214.7483648, -214.7483649, 1e15, -1e15]),
        };
        if x.is_nan() { continue; }
        if x.is_infinite() {
            let ok = matches!((x > 0.0, Lat::try_from(x), Lon::try_from(x)), (true, Err(ParseLatLonError::TooLarge(_)), Err(ParseLatLonError::TooLarge(_))) | (false, Err(ParseLatLonError::TooSmall(_)), Err(ParseLatLonError::TooSmall(_))));
            if !ok { return fail("P11-infinite", format!("{x:?}")); }
            continue;
        }
        judge("P11-Lat-f64", x, Lat::try_from(x).map(|v| v.inner()), "try_from")?;
        judge("P11-Lon-f64", x, Lon::try_from(x).map(|v| v.inner()), "try_from")?;
        let y = x as f32;
        if y.is_finite() {
            judge("P11-Lat-f32", y as f64, Lat::try_from(y).map(|v| v.inner()), "try_from f32")?;
            judge("P11-Lon-f32", y as f64, Lon::try_from(y).map(|v| v.inner()), "try_from f32")?;
        }
        let s = match r.below(3) { 0 => format!("{x}"), 1 => format!("{x:e}"), _ => format!("{x:?}") };
        judge("P11-Lat-str", x, Lat::from_str(&s).map(|v| v.inner()), &s)?;
        judge("P11-Lon-str", x, Lon::from_str(&s).map(|v| v.inner()), &s)?;
    }
    let t = if r.flip() { r.text(true) } else { r.pick(&["", " 1", "1 ", "1,5", "0x1", "1..2", "--1", "1e", "é", "1_0"]).to_string() };
    if t.parse::<f64>().is_err() && !matches!((Lat::from_str(&t), Lon::from_str(&t)), (Err(ParseLatLonError::ParseFloatError(_)), Err(ParseLatLonError::ParseFloatError(_)))) {
        return fail("P11-bad-text", format!("{t:?}"));
    }
    Ok(())
}

pub fn p12(r: &mut Rng, _c: u64) -> Res {
    for _ in 0..16 {
        let e = r.epoch();
        let s = iso(e);
        let n = TimestampFormat::EpochNumber(e);
        let i = TimestampFormat::ISOString(s.clone());
        let d = |w: &str, g: String| (format!("P12-{w}"), format!("epoch {e} iso {s}: {g}"));
        if n.to_iso_string() != s { return Err(d("epoch-to-iso", n.to_iso_string())); }
        if n.to_epoch_number() != e { return Err(d("epoch-id", n.to_epoch_number().to_string())); }
        if i.to_iso_string() != s { return Err(d("iso-id", i.to_iso_string())); }
        if i.to_epoch_number() != e { return Err(d("iso-to-epoch", i.to_epoch_number().to_string())); }
        if n.to_string() != s || i.to_string() != s { return Err(d("display", format!("{n} {i}"))); }
        if !matches!(s.parse::<TimestampFormat>(), Ok(TimestampFormat::EpochNumber(x)) if x == e) { return Err(d("parse", format!("{:?}", s.parse::<TimestampFormat>()))); }
        if !matches!(TimestampFormat::from(e), TimestampFormat::EpochNumber(x) if x == e) { return Err(d("from", String::new())); }
        if !matches!(TimestampFormat::from(e as i32), TimestampFormat::EpochNumber(x) if x == e as i32 as i64) { return Err(d("from-i32", String::new())); }
        // other spellings of the same instant
        let off = r.range(-14 * 60, 14 * 60);
        let le = e + off * 60;
        if (EPOCH_MIN..=EPOCH_MAX).contains(&le) && off != 0 {
            let mut t = iso(le);
            t.pop();
            if r.flip() { t.push_str(&format!(".{}", ["0", "5", "999", "123456789"][r.us(4)])); }
            t.push_str(&format!("{}{:02}:{:02}", if off < 0 { '-' } else { '+' }, off.abs() / 60, off.abs() % 60));
            let x = TimestampFormat::ISOString(t.clone());
            if x.to_epoch_number() != e { return Err(d("offset-to-epoch", format!("{t} -> {}", x.to_epoch_number()))); }
            if !matches!(t.parse::<TimestampFormat>(), Ok(TimestampFormat::EpochNumber(x)) if x == e) { return Err(d("offset-parse", format!("{t} -> {:?}", t.parse::<TimestampFormat>()))); }
            if x.to_iso_string() != t { return Err(d("iso-id", x.to_iso_string())); }
        }
        let e2 = match r.below(4) { 0 => e, 1 => (e + r.range(-3, 3)).clamp(EPOCH_MIN, EPOCH_MAX), _ => r.epoch() };
        let n2 = TimestampFormat::EpochNumber(e2);
        let i2 = TimestampFormat::ISOString(iso(e2));
        for (a, b, w) in [(&n, &n2, "ee"), (&n, &i2, "ei"), (&i, &n2, "ie"), (&i, &i2, "ii")] {
            if a.partial_cmp(b) != Some(e.cmp(&e2)) || (a == b) != (e == e2) || (a < b) != (e < e2) || (a >= b) != (e >= e2) {
                return Err(d(&format!("cmp-{w}"), format!("against {e2}: {:?} eq {}", a.partial_cmp(b), a == b)));
            }
        }
        let _: Option<Ordering> = n.partial_cmp(&n2);
        let bad = match r.below(3) { 0 => r.text(true), 1 => s[..r.us(s.len())].to_string(), _ => format!("{s}x") };
        if bad.parse::<TimestampFormat>().is_ok() { return Err(d("bad-accepted", bad)); }
    }
    Ok(())
}

pub fn p17(r: &mut Rng, c: u64) -> Res {
    let ks = [OSMObjectType::Node, OSMObjectType::Way, OSMObjectType::Relation];
    let short = ['n', 'w', 'r'];
    let long = ["node", "way", "relation"];
    for i in 0..3 {
        if ks[i].name_short() != short[i] { return fail("P17-short", format!("{:?}", ks[i].name_short())); }
        if ks[i].name_long() != long[i] || ks[i].to_string() != long[i] { return fail("P17-long", format!("{} {}", ks[i].name_long(), ks[i])); }
        if format!("{:?}", ks[i]) != short[i].to_string() { return fail("P17-debug", format!("{:?}", ks[i])); }
        if OSMObjectType::try_from(short[i]) != Ok(ks[i]) { return fail("P17-char", format!("{}", short[i])); }
        for s in [long[i].to_string(), short[i].to_string()] {
            if s.parse() != Ok(ks[i]) { return fail("P17-str", s); }
        }
        for j in 0..3 {
            if ks[i].cmp(&ks[j]) != i.cmp(&j) || ks[i].partial_cmp(&ks[j]) != Some(i.cmp(&j)) || (ks[i] == ks[j]) != (i == j) { return fail("P17-order", format!("{i} {j}")); }
        }
    }
    if "rel".parse() != Ok(OSMObjectType::Relation) { return fail("P17-str", "rel".into()); }
    // all characters, in blocks
    if c < 0x11_0000 / 4096 {
        for u in c as u32 * 4096..(c as u32 + 1) * 4096 {
            if let Some(ch) = char::from_u32(u) {
                if OSMObjectType::try_from(ch).is_ok() != short.contains(&ch) { return fail("P17-char-rejects", format!("{ch:?}")); }
                if ch.to_string().parse::<OSMObjectType>().is_ok() != short.contains(&ch) { return fail("P17-str-rejects", format!("{ch:?}")); }
            }
        }
    }
    let ok = ["n", "w", "r", "node", "way", "relation", "rel"];
    for _ in 0..64 {
        let mut s: String = match r.below(4) { 0 => r.text(true), _ => r.pick(&ok).to_string() };
        match r.below(7) {
            0 => s.push(r.ch(true)),
            1 => s.insert(0, r.ch(true)),
            2 => s = s.to_uppercase(),
            3 => { s.pop(); }
            4 => { if let Some(c) = s.chars().next() { s = c.to_uppercase().collect::<String>() + &s[c.len_utf8()..]; } }
            5 => s.push('s'),
            _ => {}
        }
        if s.parse::<OSMObjectType>().is_ok() != ok.contains(&s.as_str()) { return fail("P17-str-rejects", format!("{s:?}")); }
    }
    // every string of length <= 4 over the relevant letters
    let al = ['n', 'o', 'd', 'e', 'w', 'a', 'y', 'r', 'l', 't', 'i', 's', 'N', ' '];
    let mut x = c;
    let mut s = String::new();
    for _ in 0..(c % 5) { s.push(al[(x % 14) as usize]); x /= 14; }
    if s.parse::<OSMObjectType>().is_ok() != ok.contains(&s.as_str()) { return fail("P17-str-rejects", format!("{s:?}")); }
    Ok(())
}
