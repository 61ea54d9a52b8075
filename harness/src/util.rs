//! PRNG, text generators, model objects and snapshots shared by all oracles.
use osmio::{Lat, Lon, Node, OSMObj, OSMObjBase, OSMObjectType, Relation, TimestampFormat, Way};

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { self.next() % n }
    }
    pub fn us(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn flip(&mut self) -> bool {
        self.next() & 1 == 1
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.us(xs.len())]
    }
    /// inclusive range
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        let span = (hi as i128 - lo as i128 + 1) as u128;
        (lo as i128 + (self.next() as u128 % span) as i128) as i64
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = self.us(i + 1);
            xs.swap(i, j);
        }
    }
    /// a short length with a heavy tail
    pub fn len(&mut self) -> usize {
        match self.below(16) {
            0..=2 => 0,
            3..=5 => 1,
            6..=8 => 2,
            9..=11 => 3 + self.us(3),
            12..=14 => 5 + self.us(12),
            _ => 20 + self.us(60),
        }
    }
    pub fn id(&mut self) -> i64 {
        match self.below(12) {
            0 => 0,
            1 => -(self.below(1000) as i64) - 1,
            2 => self.range(i64::MIN / 4, i64::MAX / 4),
            3 => (1i64 << 32) + self.range(-3, 3),
            4 => (1i64 << 31) + self.range(-3, 3),
            5 => -(1i64 << 31) + self.range(-3, 3),
            6 => i32::MAX as i64 * 1000 + self.range(0, 5000),
            7 => 1 + self.below(12) as i64,
            8 => i64::MAX - self.below(2) as i64,
            9 => i64::MIN + self.below(2) as i64,
            _ => 1 + self.below(1_000_000) as i64,
        }
    }
    pub fn u32v(&mut self) -> u32 {
        match self.below(8) {
            0 => 0,
            1 => u32::MAX - self.below(2) as u32,
            2 => (1u32 << 31) - 1 + self.below(3) as u32,
            3 => self.next() as u32,
            4 => 1,
            _ => self.below(100_000) as u32,
        }
    }
    pub fn inner(&mut self, max: i64) -> i32 {
        match self.below(12) {
            0 => 0,
            1 => self.range(-3, 3) as i32,
            2 => (max - self.range(0, 2)) as i32,
            3 => (-max + self.range(0, 2)) as i32,
            4 => i32::MAX - self.below(2) as i32,
            5 => i32::MIN + self.below(2) as i32,
            6 => self.next() as i32,
            7 => (self.range(-180, 180) * 10_000_000).clamp(-max, max) as i32,
            8 => self.range(-999, 999) as i32,
            _ => self.range(-max, max) as i32,
        }
    }
    /// seconds in years 0000..=9999
    pub fn epoch(&mut self) -> i64 {
        match self.below(16) {
            0 => 0,
            1 => -1,
            2 => i32::MAX as i64 + self.range(-2, 3),
            3 => u32::MAX as i64 + self.range(-2, 3),
            4 => i32::MIN as i64 + self.range(-3, 2),
            5 => EPOCH_MIN + self.range(0, 86400 * 400),
            6 => EPOCH_MAX - self.range(0, 86400 * 400),
            7 => self.range(EPOCH_MIN, EPOCH_MAX),
            8 => self.range(-400, 400) * 86400 + self.range(-2, 2),
            9 => *self.pick(&[EPOCH_MIN, EPOCH_MAX, 951782400, 951868799, 1709164800, 4107456000, -2203891200]),
            _ => self.range(1_100_000_000, 1_800_000_000),
        }
    }
    /// any XML representable text; `ws` also allows tab/newline/CR
    pub fn text(&mut self, ws: bool) -> String {
        let n = match self.below(10) {
            0 => 0,
            1 => 1,
            2..=6 => 1 + self.us(6),
            7 => 20 + self.us(10),
            8 => 22 + self.us(3),
            _ => self.us(60),
        };
        let mut s = String::new();
        for _ in 0..n {
            s.push(self.ch(ws));
        }
        s
    }
    pub fn ch(&mut self, ws: bool) -> char {
        loop {
            let c = match self.below(12) {
                0 => *self.pick(&['&', '<', '>', '"', '\'']),
                1 => *self.pick(&[';', '=', '/', '#', 'x', ']', '[', '!', '-', '?', '%', '{', '}', '\\']),
                2 => *self.pick(&[' ', ' ', '\u{a0}', '\u{85}', '\u{2028}', '\u{feff}', '\u{7f}', '\u{80}', '\u{9f}', '\u{fffd}', '\u{e000}', '\u{d7ff}', '\u{10000}', '\u{10ffff}']),
                3 => char::from_u32(self.below(0x800) as u32).unwrap_or('a'),
                4 => char::from_u32(self.below(0x11_0000) as u32).unwrap_or('b'),
                5 => char::from_u32(0x1F600 + self.below(0x40) as u32).unwrap_or('c'),
                6 => *self.pick(&['é', 'ß', 'Ω', '日', '本', 'ё', 'א', 'क']),
                7 => {
                    if ws { *self.pick(&['\n', '\t', '\r']) } else { '_' }
                }
                _ => (b'a' + self.below(26) as u8) as char,
            };
            let u = c as u32;
            if u < 0x20 && !(ws && matches!(c, '\t' | '\n' | '\r')) {
                continue;
            }
            if u & 0xFFFE == 0xFFFE {
                continue;
            }
            return c;
        }
    }
    pub fn key(&mut self) -> String {
        const KS: &[&str] = &["area", "highway", "name", "a", "b", "c", "k", "", "source", "building", "note:with:colons"];
        if self.chance(3, 4) { self.pick(KS).to_string() } else { self.text(false) }
    }
}

pub const EPOCH_MIN: i64 = -62_167_219_200; // 0000-01-01T00:00:00Z
pub const EPOCH_MAX: i64 = 253_402_300_799; // 9999-12-31T23:59:59Z

/// independent proleptic Gregorian calendar
pub fn iso(epoch: i64) -> String {
    let days = epoch.div_euclid(86400);
    let secs = epoch.rem_euclid(86400);
    let mut y = 1970i64;
    let mut d = days;
    // go by 400-year cycles first
    let cyc = d.div_euclid(146_097);
    y += cyc * 400;
    d -= cyc * 146_097;
    let leap = |y: i64| (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
    loop {
        let n = if leap(y) { 366 } else { 365 };
        if d < n { break; }
        d -= n;
        y += 1;
    }
    let ml = [31, if leap(y) { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31];
    let mut m = 0;
    while d >= ml[m] {
        d -= ml[m];
        m += 1;
    }
    format!("{:04}-{:02}-{:02}T{:02}:{:02}:{:02}Z", y, m + 1, d + 1, secs / 3600, secs / 60 % 60, secs % 60)
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ts {
    Iso(String),
    Ep(i64),
}
pub fn ts_of(t: &TimestampFormat) -> Ts {
    match t {
        TimestampFormat::ISOString(s) => Ts::Iso(s.clone()),
        TimestampFormat::EpochNumber(n) => Ts::Ep(*n),
    }
}
pub fn ts_to(t: &Ts) -> TimestampFormat {
    match t {
        Ts::Iso(s) => TimestampFormat::ISOString(s.clone()),
        Ts::Ep(n) => TimestampFormat::EpochNumber(*n),
    }
}

pub type Mem = (OSMObjectType, i64, String);

/// Plain model of an OSM object, filled only through public getters.
#[derive(Clone, Debug, PartialEq)]
pub struct M {
    pub kind: OSMObjectType,
    pub id: i64,
    pub version: Option<u32>,
    pub deleted: bool,
    pub changeset: Option<u32>,
    pub ts: Option<Ts>,
    pub uid: Option<u32>,
    pub user: Option<String>,
    pub tags: Vec<(String, String)>,
    pub ll: Option<(i32, i32)>,
    pub nodes: Vec<i64>,
    pub members: Vec<Mem>,
}

pub fn snap_base<O: OSMObjBase>(o: &O) -> M {
    M {
        kind: o.object_type(),
        id: o.id(),
        version: o.version(),
        deleted: o.deleted(),
        changeset: o.changeset_id(),
        ts: o.timestamp().as_ref().map(ts_of),
        uid: o.uid(),
        user: o.user().map(|s| s.to_string()),
        tags: o.tags().map(|(k, v)| (k.to_string(), v.to_string())).collect(),
        ll: None,
        nodes: vec![],
        members: vec![],
    }
}
pub fn snap_node<O: Node>(o: &O) -> M {
    let mut m = snap_base(o);
    m.ll = o.lat_lon().map(|(a, b)| (a.inner(), b.inner()));
    m
}
pub fn snap_way<O: Way>(o: &O) -> M {
    let mut m = snap_base(o);
    m.nodes = o.nodes().to_vec();
    m
}
pub fn snap_rel<O: Relation>(o: &O) -> M {
    let mut m = snap_base(o);
    m.members = o.members().map(|(t, i, r)| (t, i, r.to_string())).collect();
    m
}
pub fn snap<O: OSMObj>(o: &O) -> M {
    if let Some(n) = o.as_node() {
        snap_node(n)
    } else if let Some(w) = o.as_way() {
        snap_way(w)
    } else if let Some(r) = o.as_relation() {
        snap_rel(r)
    } else {
        snap_base(o)
    }
}

pub fn diff(exp: &M, got: &M) -> Option<(String, String)> {
    macro_rules! f {
        ($($n:ident),*) => { $( if exp.$n != got.$n { return Some((stringify!($n).to_string(), format!("{}: expected {:?} got {:?}", stringify!($n), exp.$n, got.$n))); } )* };
    }
    f!(kind, id, version, deleted, changeset, ts, uid, user, tags, ll, nodes, members);
    None
}

pub fn gen_model(r: &mut Rng, kind: OSMObjectType, ws: bool) -> M {
    let mut tags: Vec<(String, String)> = Vec::new();
    for _ in 0..r.len() {
        let k = if r.flip() { r.key() } else { r.text(ws) };
        if tags.iter().any(|(a, _)| *a == k) {
            continue;
        }
        tags.push((k, r.text(ws)));
    }
    let ty = [OSMObjectType::Node, OSMObjectType::Way, OSMObjectType::Relation];
    M {
        kind,
        id: r.id(),
        version: if r.chance(4, 5) { Some(r.u32v()) } else { None },
        deleted: r.chance(1, 3),
        changeset: if r.chance(2, 3) { Some(r.u32v()) } else { None },
        ts: if r.chance(2, 3) { let e = r.epoch(); Some(if r.flip() { Ts::Ep(e) } else { Ts::Iso(iso(e)) }) } else { None },
        uid: if r.chance(2, 3) { Some(r.u32v()) } else { None },
        user: if r.chance(2, 3) { Some(r.text(ws)) } else { None },
        tags,
        ll: if kind == OSMObjectType::Node && r.chance(3, 4) { Some((r.inner(900_000_000), r.inner(1_800_000_000))) } else { None },
        nodes: if kind == OSMObjectType::Way { (0..r.len()).map(|_| r.id()).collect() } else { vec![] },
        members: if kind == OSMObjectType::Relation { (0..r.len()).map(|_| (*r.pick(&ty), r.id(), if r.chance(1, 4) { String::new() } else { r.text(ws) })).collect() } else { vec![] },
    }
}
pub fn any_kind(r: &mut Rng) -> OSMObjectType {
    *r.pick(&[OSMObjectType::Node, OSMObjectType::Way, OSMObjectType::Relation])
}

pub fn fill_base<O: OSMObjBase>(o: &mut O, m: &M) {
    o.set_version(m.version);
    o.set_deleted(m.deleted);
    o.set_changeset_id(m.changeset);
    o.set_timestamp(m.ts.as_ref().map(ts_to));
    o.set_uid(m.uid);
    o.set_user(m.user.as_deref());
    for (k, v) in &m.tags {
        o.set_tag(k, v.as_str());
    }
}
pub fn string_obj(m: &M) -> osmio::obj_types::StringOSMObj {
    use osmio::obj_types::*;
    match m.kind {
        OSMObjectType::Node => {
            let mut o = StringNodeBuilder::default()._id(m.id).build().unwrap();
            fill_base(&mut o, m);
            o.set_lat_lon_direct(m.ll.map(|(a, b)| (Lat::from_inner(a), Lon::from_inner(b))));
            StringOSMObj::Node(o)
        }
        OSMObjectType::Way => {
            let mut o = StringWayBuilder::default()._id(m.id).build().unwrap();
            fill_base(&mut o, m);
            o.set_nodes(m.nodes.iter().copied());
            StringOSMObj::Way(o)
        }
        OSMObjectType::Relation => {
            let mut o = StringRelationBuilder::default()._id(m.id).build().unwrap();
            fill_base(&mut o, m);
            o.set_members(m.members.iter().cloned());
            StringOSMObj::Relation(o)
        }
    }
}

/// Outcome of one case: stable signature + human detail.
pub type Res = Result<(), (String, String)>;
pub fn fail<T>(sig: &str, detail: String) -> Result<T, (String, String)> {
    let mut d = detail;
    if d.len() > 3000 {
        let mut i = 3000;
        while !d.is_char_boundary(i) { i -= 1; }
        d.truncate(i);
        d.push_str("...");
    }
    Err((sig.to_string(), d))
}
