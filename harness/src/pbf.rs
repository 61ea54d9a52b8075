//! Independent PBF encoder and oracles for P01-P05.
use crate::util::*;
use osmio::{OSMObj, OSMObjectType, OSMReader};
use std::io::{Read, Write};

// ---------- protobuf wire format ----------
#[derive(Default, Clone)]
pub struct Pb(pub Vec<u8>);
impl Pb {
    fn varint(&mut self, mut v: u64) {
        while v >= 0x80 {
            self.0.push((v as u8) | 0x80);
            v >>= 7;
        }
        self.0.push(v as u8);
    }
    fn int(&mut self, field: u32, v: i64) {
        self.varint((field as u64) << 3);
        self.varint(v as u64);
    }
    fn bytes(&mut self, field: u32, b: &[u8]) {
        self.varint(((field as u64) << 3) | 2);
        self.varint(b.len() as u64);
        self.0.extend_from_slice(b);
    }
    fn zz(v: i64) -> u64 {
        ((v << 1) ^ (v >> 63)) as u64
    }
    fn list(&mut self, field: u32, vs: &[i64], zigzag: bool, packed: bool) {
        if vs.is_empty() {
            return;
        }
        let enc = |v: i64| if zigzag { Pb::zz(v) } else { v as u64 };
        if packed {
            let mut p = Pb::default();
            for &v in vs {
                p.varint(enc(v));
            }
            self.bytes(field, &p.0);
        } else {
            for &v in vs {
                self.varint((field as u64) << 3);
                self.varint(enc(v));
            }
        }
    }
}
fn deltas(vs: &[i64]) -> Vec<i64> {
    let mut last = 0i64;
    vs.iter()
        .map(|&v| {
            let d = v - last;
            last = v;
            d
        })
        .collect()
}

// ---------- model ----------
#[derive(Clone, Debug, Default)]
pub struct Meta {
    version: Option<i32>,
    ts: Option<i64>,
    changeset: Option<i64>,
    uid: Option<i32>,
    sid: Option<u32>,
    visible: Option<bool>,
}
#[derive(Clone, Debug)]
pub struct DNode {
    id: i64,
    lat: i64,
    lon: i64,
    tags: Vec<(u32, u32)>,
    meta: Meta,
}
#[derive(Clone, Debug)]
pub struct PWay {
    id: i64,
    tags: Vec<(u32, u32)>,
    refs: Vec<i64>,
    meta: Option<Meta>,
}
#[derive(Clone, Debug)]
pub struct PRel {
    id: i64,
    tags: Vec<(u32, u32)>,
    members: Vec<(u32, i64, u32)>,
    meta: Option<Meta>,
}
#[derive(Clone, Debug)]
pub enum Group {
    Dense { nodes: Vec<DNode>, info: bool, kv: bool },
    Ways(Vec<PWay>),
    Rels(Vec<PRel>),
    Empty,
}
#[derive(Clone, Debug)]
pub struct Block {
    gran: Option<i32>,
    lat_off: Option<i64>,
    lon_off: Option<i64>,
    dgran: Option<i32>,
    strings: Vec<String>,
    groups: Vec<Group>,
}

const IDM: i64 = (1 << 62) - 1;
fn pid(r: &mut Rng) -> i64 {
    r.id().clamp(-IDM, IDM)
}
fn tagidx(r: &mut Rng, ns: usize) -> Vec<(u32, u32)> {
    if ns < 2 {
        return vec![];
    }
    (0..r.len().min(20)).map(|_| (1 + r.us(ns - 1) as u32, r.us(ns) as u32)).collect()
}
fn meta(r: &mut Rng, ns: usize, dg: i64, full: bool) -> Meta {
    let opt = |r: &mut Rng| full || r.chance(3, 4);
    let tsmax = i64::MAX / dg.max(1) / 4;
    Meta {
        version: if opt(r) { Some(*r.pick(&[0, 1, 2, 77, i32::MAX])) } else { None },
        ts: if opt(r) {
            Some(match r.below(6) {
                0 => r.range(-tsmax, tsmax),
                1 => 0,
                2 => -(r.below(5_000_000_000) as i64),
                3 => (r.below(10_000_000_000) as i64).min(tsmax),
                _ => (r.range(1_100_000_000, 1_800_000_000) * 1000 / dg.max(1)).min(tsmax),
            })
        } else {
            None
        },
        changeset: if opt(r) { Some(r.u32v() as i64) } else { None },
        uid: if opt(r) { Some((r.u32v() >> 1) as i32) } else { None },
        sid: if opt(r) { Some(r.us(ns) as u32) } else { None },
        visible: if r.flip() { Some(r.flip()) } else { None },
    }
}
pub struct Opts {
    pub kinds: &'static [u8],
    pub max_groups: usize,
}
pub fn gen_block(r: &mut Rng, o: &Opts) -> Block {
    let mut strings = vec![String::new()];
    for _ in 0..1 + r.len() {
        strings.push(if r.flip() { r.text(true) } else { r.key() });
    }
    let ns = strings.len();
    let gran = if r.flip() { None } else { Some(*r.pick(&[100, 1, 10, 50, 1000, 10_000, 7, 250, 1_000_000, 100_000_000])) };
    let off = |r: &mut Rng| match r.below(5) {
        0..=1 => None,
        2 => Some(r.range(-90_000_000_000, 90_000_000_000)),
        3 => Some(r.range(-900_000_000, 900_000_000) * 100),
        _ => Some(r.range(-3, 3)),
    };
    let (lat_off, lon_off) = (off(r), off(r));
    let dgran = if r.flip() { None } else { Some(*r.pick(&[1000, 1, 100, 500, 2000, 60_000, 1001, 999, 1_000_000])) };
    let dg = dgran.unwrap_or(1000) as i64;
    let g = gran.unwrap_or(100) as i64;
    let ng = r.us(o.max_groups + 1);
    let ng = if o.max_groups == 1 { 1 } else { ng };
    let mut groups = vec![];
    for _ in 0..ng {
        let k = *r.pick(o.kinds);
        groups.push(match k {
            0 => {
                let n = r.len();
                let info = r.chance(3, 4);
                let which: Vec<bool> = (0..6).map(|i| if i == 5 { r.flip() } else { r.chance(7, 8) }).collect();
                let all_meta = r.flip();
                let kv = r.chance(4, 5);
                let nodes = (0..n)
                    .map(|_| {
                        let raw = |r: &mut Rng, max: i64, off: i64| {
                            let t = r.inner(max) as i64 * 100 + if r.chance(1, 4) { r.range(-99, 99) } else { 0 };
                            let mut v = (t - off) / g;
                            while (off + v * g).abs() / 100 > i32::MAX as i64 - 1 {
                                v -= (off + v * g).signum();
                            }
                            v
                        };
                        let lat = raw(r, 900_000_000, lat_off.unwrap_or(0));
                        let lon = raw(r, 1_800_000_000, lon_off.unwrap_or(0));
                        let mut m = meta(r, ns, dg, true);
                        if m.visible.is_none() { m.visible = Some(r.flip()); }
                        if !info {
                            m = Meta::default();
                        } else {
                            if !(all_meta || which[0]) { m.version = None }
                            if !(all_meta || which[1]) { m.ts = None }
                            if !(all_meta || which[2]) { m.changeset = None }
                            if !(all_meta || which[3]) { m.uid = None }
                            if !(all_meta || which[4]) { m.sid = None }
                            if !which[5] { m.visible = None }
                        }
                        DNode { id: pid(r), lat, lon, tags: if kv { tagidx(r, ns) } else { vec![] }, meta: m }
                    })
                    .collect();
                Group::Dense { nodes, info, kv }
            }
            1 => Group::Ways((0..1 + r.len()).map(|_| PWay { id: r.id(), tags: tagidx(r, ns), refs: (0..r.len()).map(|_| pid(r)).collect(), meta: if r.chance(4, 5) { Some({ let f = r.flip(); meta(r, ns, dg, f) }) } else { None } }).collect()),
            2 => Group::Rels((0..1 + r.len()).map(|_| PRel { id: r.id(), tags: tagidx(r, ns), members: (0..r.len()).map(|_| (r.below(3) as u32, pid(r), r.us(ns) as u32)).collect(), meta: if r.chance(4, 5) { Some({ let f = r.flip(); meta(r, ns, dg, f) }) } else { None } }).collect()),
            _ => Group::Empty,
        });
    }
    Block { gran, lat_off, lon_off, dgran, strings, groups }
}

fn enc_meta(m: &Meta) -> Pb {
    let mut p = Pb::default();
    if let Some(v) = m.version { p.int(1, v as i64) }
    if let Some(v) = m.ts { p.int(2, v) }
    if let Some(v) = m.changeset { p.int(3, v) }
    if let Some(v) = m.uid { p.int(4, v as i64) }
    if let Some(v) = m.sid { p.int(5, v as i64) }
    if let Some(v) = m.visible { p.int(6, v as i64) }
    p
}
pub fn enc_block(b: &Block, packed: bool) -> Vec<u8> {
    let mut out = Pb::default();
    let mut st = Pb::default();
    for s in &b.strings {
        st.bytes(1, s.as_bytes());
    }
    out.bytes(1, &st.0);
    for g in &b.groups {
        let mut gp = Pb::default();
        match g {
            Group::Empty => {}
            Group::Dense { nodes, info, kv } => {
                let mut d = Pb::default();
                let ids: Vec<i64> = nodes.iter().map(|n| n.id).collect();
                d.list(1, &deltas(&ids), true, packed);
                if *info {
                    let mut i = Pb::default();
                    let col = |f: &dyn Fn(&Meta) -> Option<i64>| -> Vec<i64> { nodes.iter().filter_map(|n| f(&n.meta)).collect() };
                    i.list(1, &col(&|m| m.version.map(|v| v as i64)), false, packed);
                    i.list(2, &deltas(&col(&|m| m.ts)), true, packed);
                    i.list(3, &deltas(&col(&|m| m.changeset)), true, packed);
                    i.list(4, &deltas(&col(&|m| m.uid.map(|v| v as i64))), true, packed);
                    i.list(5, &deltas(&col(&|m| m.sid.map(|v| v as i64))), true, packed);
                    i.list(6, &col(&|m| m.visible.map(|v| v as i64)), false, packed);
                    d.bytes(5, &i.0);
                }
                d.list(8, &deltas(&nodes.iter().map(|n| n.lat).collect::<Vec<_>>()), true, packed);
                d.list(9, &deltas(&nodes.iter().map(|n| n.lon).collect::<Vec<_>>()), true, packed);
                if *kv {
                    let mut l = vec![];
                    for n in nodes {
                        for (k, v) in &n.tags {
                            l.push(*k as i64);
                            l.push(*v as i64);
                        }
                        l.push(0);
                    }
                    d.list(10, &l, false, packed);
                }
                gp.bytes(2, &d.0);
            }
            Group::Ways(ws) => {
                for w in ws {
                    let mut p = Pb::default();
                    p.int(1, w.id);
                    p.list(2, &w.tags.iter().map(|t| t.0 as i64).collect::<Vec<_>>(), false, packed);
                    p.list(3, &w.tags.iter().map(|t| t.1 as i64).collect::<Vec<_>>(), false, packed);
                    if let Some(m) = &w.meta { p.bytes(4, &enc_meta(m).0) }
                    p.list(8, &deltas(&w.refs), true, packed);
                    gp.bytes(3, &p.0);
                }
            }
            Group::Rels(rs) => {
                for w in rs {
                    let mut p = Pb::default();
                    p.int(1, w.id);
                    p.list(2, &w.tags.iter().map(|t| t.0 as i64).collect::<Vec<_>>(), false, packed);
                    p.list(3, &w.tags.iter().map(|t| t.1 as i64).collect::<Vec<_>>(), false, packed);
                    if let Some(m) = &w.meta { p.bytes(4, &enc_meta(m).0) }
                    p.list(8, &w.members.iter().map(|m| m.2 as i64).collect::<Vec<_>>(), false, packed);
                    p.list(9, &deltas(&w.members.iter().map(|m| m.1).collect::<Vec<_>>()), true, packed);
                    p.list(10, &w.members.iter().map(|m| m.0 as i64).collect::<Vec<_>>(), false, packed);
                    gp.bytes(4, &p.0);
                }
            }
        }
        out.bytes(2, &gp.0);
    }
    if let Some(v) = b.gran { out.int(17, v as i64) }
    if let Some(v) = b.dgran { out.int(18, v as i64) }
    if let Some(v) = b.lat_off { out.int(19, v) }
    if let Some(v) = b.lon_off { out.int(20, v) }
    out.0
}
pub fn put_blob(out: &mut Vec<u8>, ty: &str, data: &[u8], zlib: bool, index: bool) {
    let mut blob = Pb::default();
    if zlib {
        let mut e = flate2::write::ZlibEncoder::new(Vec::new(), flate2::Compression::fast());
        e.write_all(data).unwrap();
        if data.len() % 3 != 0 { blob.int(2, data.len() as i64) }      // raw_size is optional
        blob.bytes(3, &e.finish().unwrap());
    } else {
        blob.bytes(1, data);
    }
    let mut h = Pb::default();
    h.bytes(1, ty.as_bytes());
    if index { h.bytes(2, b"\x00\x01idx") }
    h.int(3, blob.0.len() as i64);
    out.extend_from_slice(&(h.0.len() as u32).to_be_bytes());
    out.extend_from_slice(&h.0);
    out.extend_from_slice(&blob.0);
}

// ---------- expectation ----------
#[derive(Clone, Debug)]
pub struct Exp {
    m: M,
    nano: Option<(i128, i128)>,
    milli: Option<i128>,
}
fn exp_meta(m: &mut Exp, meta: &Meta, b: &Block, deleted_default: bool) {
    let _ = deleted_default;
    m.m.version = meta.version.map(|v| v as u32);
    m.m.changeset = meta.changeset.map(|v| v as u32);
    m.m.uid = meta.uid.map(|v| v as u32);
    m.m.user = meta.sid.map(|s| b.strings[s as usize].clone());
    m.m.deleted = meta.visible == Some(false);
    m.milli = meta.ts.map(|t| t as i128 * b.dgran.unwrap_or(1000) as i128);
}
pub fn expect(b: &Block) -> Vec<Exp> {
    let st = |i: u32| b.strings[i as usize].clone();
    let blank = |kind, id, tags: &Vec<(u32, u32)>| Exp {
        m: M { kind, id, version: None, deleted: false, changeset: None, ts: None, uid: None, user: None, tags: tags.iter().map(|(k, v)| (st(*k), st(*v))).collect(), ll: None, nodes: vec![], members: vec![] },
        nano: None,
        milli: None,
    };
    let ty = [OSMObjectType::Node, OSMObjectType::Way, OSMObjectType::Relation];
    let mut out = vec![];
    for g in &b.groups {
        match g {
            Group::Empty => {}
            Group::Dense { nodes, .. } => {
                for n in nodes {
                    let mut e = blank(OSMObjectType::Node, n.id, &n.tags);
                    let g = b.gran.unwrap_or(100) as i128;
                    e.nano = Some((b.lat_off.unwrap_or(0) as i128 + g * n.lat as i128, b.lon_off.unwrap_or(0) as i128 + g * n.lon as i128));
                    exp_meta(&mut e, &n.meta, b, false);
                    out.push(e);
                }
            }
            Group::Ways(ws) => {
                for w in ws {
                    let mut e = blank(OSMObjectType::Way, w.id, &w.tags);
                    e.m.nodes = w.refs.clone();
                    if let Some(m) = &w.meta { exp_meta(&mut e, m, b, false) }
                    out.push(e);
                }
            }
            Group::Rels(rs) => {
                for w in rs {
                    let mut e = blank(OSMObjectType::Relation, w.id, &w.tags);
                    e.m.members = w.members.iter().map(|(t, i, s)| (ty[*t as usize], *i, st(*s))).collect();
                    if let Some(m) = &w.meta { exp_meta(&mut e, m, b, false) }
                    out.push(e);
                }
            }
        }
    }
    out
}
fn near(got: i128, scaled: i128, unit: i128) -> bool {
    (got * unit - scaled).abs() < unit && (scaled % unit != 0 || got * unit == scaled)
}
fn cmp(tag: &str, exp: &[Exp], got: &[M]) -> Res {
    for (i, (e, g)) in exp.iter().zip(got).enumerate() {
        let mut em = e.m.clone();
        // fixed point and whole-second values: exact when the encoded value is
        // exact, otherwise either neighbouring unit is accepted
        match (e.nano, g.ll) {
            (None, _) => {}
            (Some((a, b)), Some((la, lo))) if near(la as i128, a, 100) && near(lo as i128, b, 100) => em.ll = g.ll,
            (Some(n), _) => return fail(&format!("{tag}-ll"), format!("object {i}: expected {:?} nanodegrees, got {:?}", n, g.ll)),
        }
        match (e.milli, &g.ts) {
            (None, _) => {}
            (Some(t), Some(Ts::Ep(v))) if near(*v as i128, t, 1000) => em.ts = g.ts.clone(),
            (Some(t), x) => return fail(&format!("{tag}-ts"), format!("object {i}: expected {t} ms, got {x:?}")),
        }
        if let Some((f, d)) = diff(&em, g) {
            return fail(&format!("{tag}-{f}"), format!("object {i} of {}: {d}", exp.len()));
        }
    }
    if exp.len() != got.len() {
        return fail(&format!("{tag}-count"), format!("expected {} objects got {}", exp.len(), got.len()));
    }
    Ok(())
}

/// a Read that returns a few bytes at a time
pub struct Chunky(pub std::io::Cursor<Vec<u8>>, pub usize);
impl Read for Chunky {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.1.max(1));
        self.0.read(&mut b[..n])
    }
}
fn rd(d: &[u8], r: &mut Rng) -> Chunky {
    let n = *r.pick(&[1usize, 3, 64, 1 << 20, 1 << 20]);
    Chunky(std::io::Cursor::new(d.to_vec()), n)
}
fn both(tag: &str, data: &[u8], exp: &[Exp], r: &mut Rng) -> Res {
    let mut s = osmio::stringpbf::PBFReader::new(rd(data, r));
    let mut got = vec![];
    while let Some(o) = s.next() {
        got.push(snap(&o));
    }
    cmp(&format!("{tag}-string"), exp, &got)?;
    for _ in 0..3 {
        if s.next().is_some() {
            return fail(&format!("{tag}-string-after-end"), "object after the end".into());
        }
    }
    let mut s = osmio::arcpbf::PBFReader::new(rd(data, r));
    let mut got = vec![];
    while let Some(o) = s.next() {
        got.push(snap(&o));
    }
    cmp(&format!("{tag}-arc"), exp, &got)?;
    for _ in 0..3 {
        if s.next().is_some() {
            return fail(&format!("{tag}-arc-after-end"), "object after the end".into());
        }
    }
    Ok(())
}
fn single(tag: &str, kinds: &'static [u8], r: &mut Rng) -> Res {
    let b = gen_block(r, &Opts { kinds, max_groups: 1 });
    let mut data = vec![];
    put_blob(&mut data, "OSMHeader", b"", true, false);
    let packed = r.chance(3, 4);
    put_blob(&mut data, "OSMData", &enc_block(&b, packed), true, false);
    let e = expect(&b);
    both(tag, &data, &e, r).map_err(|(s, d)| (s, format!("{d} || block={b:?}")))
}
pub fn p01(r: &mut Rng, _c: u64) -> Res {
    single("P01", &[0], r)
}
pub fn p02(r: &mut Rng, _c: u64) -> Res {
    single("P02", &[1], r)
}
pub fn p03(r: &mut Rng, _c: u64) -> Res {
    single("P03", &[2], r)
}
pub fn gen_stream(r: &mut Rng) -> (Vec<u8>, Vec<Exp>) {
    let mut data = vec![];
    let mut exp = vec![];
    let n = r.us(6);
    for _ in 0..n {
        if r.chance(1, 4) {
            let ty = *r.pick(&["OSMHeader", "OSMheader", "Foo", "", "OSMData2", "OSMDat"]);
            let z = r.flip();
            let l = if r.chance(1, 20) { 60_000 + r.us(20_000) } else { r.us(40) };
            let junk: Vec<u8> = (0..l).map(|_| r.next() as u8).collect();
            put_blob(&mut data, ty, &junk, z, r.flip());
        } else {
            let b = gen_block(r, &Opts { kinds: &[0, 0, 1, 2, 3], max_groups: 4 });
            let packed = r.chance(7, 8);
            let z = r.flip();
            put_blob(&mut data, "OSMData", &enc_block(&b, packed), z, r.chance(1, 4));
            exp.extend(expect(&b));
            if r.chance(1, 40) {
                // a large block
                let mut b = gen_block(r, &Opts { kinds: &[1, 2, 3], max_groups: 3 });
                b.strings.push("x".repeat(66_000));
                put_blob(&mut data, "OSMData", &enc_block(&b, packed), false, false);
                exp.extend(expect(&b));
            }
        }
    }
    (data, exp)
}
pub fn p04(r: &mut Rng, _c: u64) -> Res {
    let (data, exp) = gen_stream(r);
    if r.chance(1, 8) {
        let p = crate::chg::scratch("pbf");
        std::fs::write(&p, &data).unwrap();
        macro_rules! from { ($e:expr) => { match $e { Ok(mut rd) => Ok(rd.objects().map(|o| snap(&o)).collect::<Vec<M>>()), Err(e) => Err(format!("{e:?}")) } }; }
        let got = match r.below(3) { 0 => from!(osmio::read_pbf(&p)), 1 => from!(osmio::stringpbf::PBFReader::from_filename(&p)), _ => from!(osmio::arcpbf::PBFReader::from_filename(&p)) };
        let _ = std::fs::remove_file(&p);
        match got { Ok(g) => cmp("P04-file", &exp, &g)?, Err(e) => return fail("P04-open", e) }
    }
    both("P04", &data, &exp, r)
}
pub fn p05(r: &mut Rng, c: u64) -> Res {
    let (data, exp) = gen_stream(r);
    let of = |k: OSMObjectType| exp.iter().filter(|e| e.m.kind == k).cloned().collect::<Vec<_>>();
    let (n, w, l) = (of(OSMObjectType::Node), of(OSMObjectType::Way), of(OSMObjectType::Relation));
    use osmio::{arcpbf, stringpbf};
    let mut s = stringpbf::PBFReader::new(rd(&data, r));
    let g: Vec<M> = s.nodes().map(|o| snap_node(&o)).collect();
    cmp("P05-string-nodes", &n, &g)?;
    let mut s = stringpbf::PBFReader::new(rd(&data, r));
    let g: Vec<M> = s.ways().map(|o| snap_way(&o)).collect();
    cmp("P05-string-ways", &w, &g)?;
    let mut s = stringpbf::PBFReader::new(rd(&data, r));
    let g: Vec<M> = s.relations().map(|o| snap_rel(&o)).collect();
    cmp("P05-string-relations", &l, &g)?;
    macro_rules! generic {
        ($rd:ty, $tag:literal) => {{
            let mut s = <$rd>::new(rd(&data, r));
            let g: Vec<M> = OSMReader::nodes(&mut s).map(|o| snap_node(&o)).collect();
            cmp(concat!("P05-", $tag, "-generic-nodes"), &n, &g)?;
            let mut s = <$rd>::new(rd(&data, r));
            let g: Vec<M> = OSMReader::ways(&mut s).map(|o| snap_way(&o)).collect();
            cmp(concat!("P05-", $tag, "-generic-ways"), &w, &g)?;
            let mut s = <$rd>::new(rd(&data, r));
            let g: Vec<M> = OSMReader::relations(&mut s).map(|o| snap_rel(&o)).collect();
            cmp(concat!("P05-", $tag, "-generic-relations"), &l, &g)?;
            let mut s = <$rd>::new(rd(&data, r));
            let g: Vec<M> = s.objects().map(|o| snap(&o)).collect();
            cmp(concat!("P05-", $tag, "-objects"), &exp, &g)?;
        }};
    }
    generic!(stringpbf::PBFReader<Chunky>, "string");
    generic!(arcpbf::PBFReader<Chunky>, "arc");
    let full: Vec<(i64, (i32, i32))> = {
        let mut s = stringpbf::PBFReader::new(rd(&data, r));
        let mut v = vec![];
        while let Some(o) = s.next() {
            if let Some(x) = o.as_node() {
                let m = snap_node(x);
                v.push((m.id, m.ll.unwrap()));
            }
        }
        v
    };
    let mut p = stringpbf::PBFNodePositionReader::from_reader(rd(&data, r));
    let pos: Vec<(i64, (i32, i32))> = p.by_ref().map(|(i, (a, b))| (i, (a.inner(), b.inner()))).collect();
    if pos != full {
        let at = pos.iter().zip(&full).position(|(a, b)| a != b).unwrap_or(pos.len().min(full.len()));
        return fail("P05-positions", format!("differs at {at}: expected {:?} got {:?}", full.get(at), pos.get(at)));
    }
    if p.next().is_some() {
        return fail("P05-positions-after-end", String::new());
    }
    if c % 8 == 3 {
        let f = crate::chg::scratch("pbf");
        std::fs::write(&f, &data).unwrap();
        let got = stringpbf::PBFNodePositionReader::from_filename(&f).map(|p| p.map(|(i, (a, b))| (i, (a.inner(), b.inner()))).collect::<Vec<_>>());
        let _ = std::fs::remove_file(&f);
        match got {
            Ok(g) if g == full => {}
            Ok(g) => return fail("P05-positions-file", format!("expected {} got {}", full.len(), g.len())),
            Err(e) => return fail("P05-open", format!("{e:?}")),
        }
    }
    if c % 4 == 0 {
        // generic filters of a reader that is not PBF
        let kinds: Vec<M> = (0..r.us(8)).map(|_| { let k = any_kind(r); let mut m = gen_model(r, k, false); m.version = Some(1); if m.ll.is_none() && k == OSMObjectType::Node { m.ll = Some((1, 2)) } m }).collect();
        let doc = crate::xmlt::write_xml(&kinds.iter().map(string_obj).collect::<Vec<_>>());
        let full: Vec<M> = osmio::xml::XMLReader::new(&doc[..]).objects().map(|o| snap(&o)).collect();
        let f = |k| full.iter().filter(|m| m.kind == k).cloned().collect::<Vec<_>>();
        let a: Vec<M> = osmio::xml::XMLReader::new(&doc[..]).nodes().map(|o| snap_node(&o)).collect();
        let b: Vec<M> = osmio::xml::XMLReader::new(&doc[..]).ways().map(|o| snap_way(&o)).collect();
        let c: Vec<M> = osmio::xml::XMLReader::new(&doc[..]).relations().map(|o| snap_rel(&o)).collect();
        if a != f(OSMObjectType::Node) || b != f(OSMObjectType::Way) || c != f(OSMObjectType::Relation) || full.len() != kinds.len() {
            return fail("P05-xml-generic", format!("{} objects", full.len()));
        }
    }
    Ok(())
}
