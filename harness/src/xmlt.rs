//! Oracles for the XML and OSC readers and writers (P06-P10).
use crate::util::*;
use osmio::osc::{OSCReader, OSCWriter};
use osmio::xml::{XMLReader, XMLWriter};
use osmio::{OSMObj, OSMObjectType, OSMReader, OSMWriteError, OSMWriter};
use std::cell::RefCell;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

pub fn kname(k: OSMObjectType) -> &'static str {
    match k {
        OSMObjectType::Node => "node",
        OSMObjectType::Way => "way",
        OSMObjectType::Relation => "relation",
    }
}

/// shared output with an optional byte budget and write granularity
#[derive(Clone)]
pub struct Sink(pub Rc<RefCell<SinkI>>);
pub struct SinkI {
    pub out: Vec<u8>,
    pub budget: Option<usize>,
    pub step: usize,
    pub failed: usize,
    pub once: bool,
}
impl Sink {
    pub fn new(budget: Option<usize>, step: usize) -> Sink {
        Sink(Rc::new(RefCell::new(SinkI { out: vec![], budget, step, failed: 0, once: false })))
    }
    pub fn bytes(&self) -> Vec<u8> {
        self.0.borrow().out.clone()
    }
}
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let mut s = self.0.borrow_mut();
        let n = b.len().min(s.step);
        if let Some(bud) = s.budget {
            if s.out.len() + n > bud && !(s.once && s.failed > 0) {
                s.failed += 1;
                return Err(std::io::Error::other("injected"));
            }
        }
        s.out.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

pub fn write_xml<O: OSMObj>(objs: &[O]) -> Vec<u8> {
    let s = Sink::new(None, 1 << 20);
    {
        let mut w = XMLWriter::new(s.clone());
        for o in objs {
            w.write_obj(o).unwrap();
        }
        // closed by drop
    }
    s.bytes()
}
pub fn write_osc<O: OSMObj>(objs: &[O]) -> Vec<u8> {
    let s = Sink::new(None, 1 << 20);
    {
        let mut w = OSCWriter::new(s.clone());
        for o in objs {
            w.write_obj(o).unwrap();
        }
        w.close().unwrap();
    }
    s.bytes()
}

/// strict unescape of the five entities; None when a raw markup character or an
/// unknown entity appears
fn unescape(s: &str) -> Option<String> {
    let mut out = String::new();
    let mut it = s.char_indices();
    while let Some((i, c)) = it.next() {
        match c {
            '<' | '>' | '"' | '\'' | '\t' | '\n' | '\r' => return None,
            '&' => {
                let rest = &s[i..];
                let end = rest.find(';')?;
                let e = &rest[..=end];
                out.push(match e {
                    "&amp;" => '&',
                    "&lt;" => '<',
                    "&gt;" => '>',
                    "&quot;" => '"',
                    "&apos;" => '\'',
                    "&#9;" => '\t',
                    "&#10;" => '\n',
                    "&#13;" => '\r',
                    _ => return None,
                });
                for _ in 0..e.chars().count() - 1 {
                    it.next();
                }
            }
            c => out.push(c),
        }
    }
    Some(out)
}

fn esc_via(s: &str, osc: bool, place: u64) -> Result<String, (String, String)> {
    let mut m = M { kind: OSMObjectType::Relation, id: 1, version: Some(1), deleted: false, changeset: None, ts: None, uid: None, user: None, tags: vec![], ll: None, nodes: vec![], members: vec![] };
    const A: &str = "QQstartQQ";
    const B: &str = "QQendQQ";
    let t = format!("{A}{s}{B}");
    match place {
        0 => m.user = Some(t),
        1 => m.tags.push((t, "v".into())),
        2 => m.tags.push(("k".into(), t)),
        _ => m.members.push((OSMObjectType::Node, 1, t)),
    }
    let o = [string_obj(&m)];
    let doc = if osc { write_osc(&o) } else { write_xml(&o) };
    let doc = match String::from_utf8(doc) {
        Ok(d) => d,
        Err(_) => return fail("P06-utf8", format!("{s:?}")),
    };
    let a = doc.find(A).map(|i| i + A.len());
    let b = doc.rfind(B);
    match (a, b) {
        (Some(a), Some(b)) => Ok(doc[a..b].to_string()),
        _ => fail("P06-lost", format!("{s:?} in {doc}")),
    }
}

pub fn p06(r: &mut Rng, c: u64) -> Res {
    let osc = r.flip();
    let place = r.below(4);
    let s: String = if c < 0x11_0000 / 2048 {
        // every Unicode scalar value once, 2048 at a time
        (c as u32 * 2048..(c as u32 + 1) * 2048).filter_map(char::from_u32).collect()
    } else {
        r.text(true)
    };
    let e = esc_via(&s, osc, place)?;
    match unescape(&e) {
        None => return fail("P06-incomplete", format!("text {s:?} escaped as {e:?}")),
        Some(u) if u != s => return fail("P06-not-reversible", format!("text {s:?} escaped as {e:?} means {u:?}")),
        _ => {}
    }
    // characterwise: escaping is the concatenation of the characters' escapes
    let mut exp = String::new();
    for ch in s.chars() {
        match ch {
            '&' => exp.push_str("&amp;"),
            '<' => exp.push_str("&lt;"),
            '>' => exp.push_str("&gt;"),
            '"' => exp.push_str("&quot;"),
            '\'' => exp.push_str("&apos;"),
            '\t' => exp.push_str("&#9;"),
            '\n' => exp.push_str("&#10;"),
            '\r' => exp.push_str("&#13;"),
            c => exp.push(c),
        }
    }
    if exp != e {
        return fail("P06-not-local", format!("text {s:?} escaped as {e:?}"));
    }
    Ok(())
}

fn read_xml(doc: &[u8]) -> Vec<M> {
    XMLReader::new(doc).objects().map(|o| snap(&o)).collect()
}
fn read_osc(doc: &[u8]) -> Vec<M> {
    OSCReader::new(doc).objects().map(|o| snap(&o)).collect()
}
/// what reading back must give: timestamps come back as text
fn norm(m: &M) -> M {
    let mut m = m.clone();
    if let Some(Ts::Ep(e)) = m.ts {
        m.ts = Some(Ts::Iso(iso(e)));
    }
    m
}
fn has_ws(m: &M) -> bool {
    let w = |s: &str| s.contains(['\n', '\t', '\r']);
    m.user.as_deref().is_some_and(w) || m.tags.iter().any(|(k, v)| w(k) || w(v)) || m.members.iter().any(|x| w(&x.2))
}
fn compare(tag: &str, exp: &[M], got: &[M], doc: &[u8]) -> Res {
    for (i, (e, g)) in exp.iter().zip(got).enumerate() {
        if let Some((f, d)) = diff(&norm(e), g) {
            let ws = if has_ws(e) { "-whitespace" } else { "" };
            return fail(&format!("{tag}-{f}{ws}"), format!("object {i}: {d} || {}", String::from_utf8_lossy(doc)));
        }
    }
    if exp.len() != got.len() {
        return fail(&format!("{tag}-count"), format!("wrote {} read {} || {}", exp.len(), got.len(), String::from_utf8_lossy(doc)));
    }
    Ok(())
}
fn roundtrip(tag: &str, osc: bool, r: &mut Rng) -> Res {
    let ws = r.chance(1, 4);
    let mut ms: Vec<M> = (0..r.len().min(12))
        .map(|_| {
            let k = any_kind(r);
            let mut m = gen_model(r, k, ws);
            if r.chance(1, 10) {
                m.ts = Some(Ts::Iso(r.text(ws)));
            }
            m
        })
        .collect();
    if r.chance(1, 60) {
        // more children than an OSM way may have
        if let Some(m) = ms.iter_mut().find(|m| !m.nodes.is_empty() || !m.members.is_empty()) {
            let n = 2001 + r.us(1000);
            m.nodes = m.nodes.iter().cycle().take(n).cloned().collect();
            m.members = m.members.iter().cycle().take(n).cloned().collect();
        }
    }
    let s: Vec<_> = ms.iter().map(string_obj).collect();
    let doc = if osc { write_osc(&s) } else { write_xml(&s) };
    let got = if osc { read_osc(&doc) } else { read_xml(&doc) };
    compare(tag, &ms, &got, &doc)?;
    // equality of the objects themselves
    let back: Vec<_> = if osc { OSCReader::new(&doc[..]).objects().collect() } else { XMLReader::new(&doc[..]).objects().collect::<Vec<_>>() };
    for (a, b) in s.iter().zip(&back) {
        if a != b {
            return fail(&format!("{tag}-eq"), format!("{a:?} != {b:?}"));
        }
    }
    if osc {
        let t = String::from_utf8_lossy(&doc);
        // text content is escaped, so every '<' below is markup
        let cnt = |p: &str| t.matches(p).count();
        if cnt("<modify>") != 1 || cnt("</modify>") != 1 || cnt("<osmChange ") != 1 || cnt("</osmChange>") != 1 || cnt("<create") + cnt("<delete") != 0 {
            return fail("P09-framing", t.to_string());
        }
        let (a, b) = (t.find("<modify>").unwrap(), t.find("</modify>").unwrap());
        for k in ["<node", "<way", "<relation", "</node>", "</way>", "</relation>"] {
            for (i, _) in t.match_indices(k) {
                if i < a || i > b {
                    return fail("P09-outside-modify", t.to_string());
                }
            }
        }
    }
    #[cfg(osmio_verif)]
    {
        let rc: Vec<_> = ms.iter().map(crate::objs::rc_obj).collect();
        let doc2 = if osc { write_osc(&rc) } else { write_xml(&rc) };
        if doc2 != doc { return fail(&format!("{tag}-rc"), String::from_utf8_lossy(&doc2).to_string()); }
        let arc: Vec<_> = ms.iter().map(crate::objs::arc_obj).collect();
        let doc3 = if osc { write_osc(&arc) } else { write_xml(&arc) };
        if doc3 != doc { return fail(&format!("{tag}-arc"), String::from_utf8_lossy(&doc3).to_string()); }
    }
    Ok(())
}
pub fn p07(r: &mut Rng, _c: u64) -> Res {
    if r.chance(1, 4) {
        // headers do not disturb the objects
        let m = { let k = any_kind(r); gen_model(r, k, false) };
        let s = Sink::new(None, 1 << 20);
        {
            let mut w = XMLWriter::new(s.clone());
            for i in 0..r.us(4) {
                w.set_header((&format!("h{i}"), &r.text(false))).unwrap();
            }
            w.write_obj(&string_obj(&m)).unwrap();
        }
        let doc = s.bytes();
        return compare("P07-header", &[m], &read_xml(&doc), &doc);
    }
    roundtrip("P07", false, r)
}

// ---------- document builder ----------
fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '&' => o.push_str("&amp;"),
            '<' => o.push_str("&lt;"),
            '>' => o.push_str("&gt;"),
            '"' => o.push_str("&quot;"),
            '\'' => o.push_str("&#39;"),
            '\n' => o.push_str("&#10;"),
            '\t' => o.push_str("&#9;"),
            '\r' => o.push_str("&#13;"),
            c => o.push(c),
        }
    }
    o
}
fn ws(r: &mut Rng) -> &'static str {
    *r.pick(&["", " ", "\n", "\n\t", "  "])
}
fn junk(r: &mut Rng, inside: bool) -> String {
    match r.below(if inside { 6 } else { 9 }) {
        0 => "<!-- node way </osm> -->".into(),
        1 => "<foo bar=\"1\"/>".into(),
        2 => "<x:foo xmlns:x=\"urn:x\" k=\"k\" v=\"v\"> text &amp; </x:foo>".into(),
        3 => "some text".into(),
        4 => "<?pi data?>".into(),
        5 => "<![CDATA[ <node id=\"5\"/> ]]>".into(),
        6 => "<bounds minlat=\"1\" minlon=\"2\" maxlat=\"3\" maxlon=\"4\"/>".into(),
        7 => "<note>The data</note>".into(),
        _ => "<changeset id=\"3\"><tag k=\"stray\" v=\"stray\"/></changeset>".into(),
    }
}
fn elem(r: &mut Rng, name: &str, mut attrs: Vec<(String, String)>) -> (String, bool) {
    r.shuffle(&mut attrs);
    let mut s = format!("<{name}");
    for (k, v) in attrs {
        let q = if r.flip() { '"' } else { '\'' };
        s.push_str(&format!("{}{}{}={}{}{}{}", [" ", "\n", "  "][r.us(3)], k, ["", " "][r.us(2)], ["", " "][r.us(2)], q, esc(&v), q));
    }
    let empty = r.flip();
    (s, empty)
}
fn leaf(r: &mut Rng, name: &str, mut attrs: Vec<(String, String)>) -> String {
    if r.chance(1, 6) {
        attrs.push(("zz".into(), "1".into()));
    }
    let (mut s, e) = elem(r, name, attrs);
    if e {
        s.push_str([" />", "/>"][r.us(2)]);
    } else {
        s.push_str(&format!(">{}</{name}>", ws(r)));
    }
    s
}
/// a random element and the object it means
fn gen_elem(r: &mut Rng) -> (String, M) {
    let k = any_kind(r);
    let mut m = gen_model(r, k, true);
    let mut a: Vec<(String, String)> = vec![("id".into(), m.id.to_string())];
    let mut opt = |r: &mut Rng, n: &str, v: Option<String>, bad: &[&str]| -> bool {
        // returns whether the value is really there
        match v {
            Some(v) if r.chance(6, 7) => {
                a.push((n.into(), v));
                true
            }
            _ => {
                if !bad.is_empty() && r.chance(1, 3) {
                    a.push((n.into(), r.pick(bad).to_string()));
                }
                false
            }
        }
    };
    const BADU: &[&str] = &["", "abc", "-1", "4294967296", "1.5", " 1", "1e3", "99999999999999999999", "0x10"];
    if !opt(r, "version", m.version.map(|v| v.to_string()), BADU) { m.version = None }
    if !opt(r, "changeset", m.changeset.map(|v| v.to_string()), BADU) { m.changeset = None }
    if !opt(r, "uid", m.uid.map(|v| v.to_string()), BADU) { m.uid = None }
    if !opt(r, "user", m.user.clone(), &[]) { m.user = None }
    let ts = m.ts.as_ref().map(|t| match t { Ts::Iso(s) => s.clone(), Ts::Ep(e) => iso(*e) });
    if !opt(r, "timestamp", ts.clone(), &[]) { m.ts = None } else { m.ts = ts.map(Ts::Iso) }
    m.deleted = match r.below(6) {
        0 => { opt(r, "visible", None, &["", "False", "0", "yes", "TRUE", "true "]); false }
        1..=2 => { a.push(("visible".into(), "false".into())); true }
        3..=4 => { a.push(("visible".into(), "true".into())); false }
        _ => false,
    };
    if k == OSMObjectType::Node {
        const BADF: &[&str] = &["", "abc", "600", "-214.7483649", "1,5", "--1", "1e99", "inf"];
        let d = |i: i32| {
            // decimal text computed without floating point
            let n = (i as i64).abs();
            format!("{}{}.{:07}", if i < 0 { "-" } else { "" }, n / 10_000_000, n % 10_000_000)
        };
        let ll = m.ll;
        let x = { let mut o = |n: &str, v: Option<String>, r: &mut Rng| -> bool { match v { Some(v) if r.chance(9, 10) => { a.push((n.into(), v)); true } _ => { if r.chance(1, 2) { a.push((n.into(), r.pick(BADF).to_string())); } false } } };
            let p = o("lat", ll.map(|l| d(l.0)), r);
            let q = o("lon", ll.map(|l| d(l.1)), r);
            p && q };
        if !x { m.ll = None }
    } else if r.chance(1, 8) {
        a.push(("lat".into(), "1".into()));
    }
    if r.chance(1, 4) { let t = r.text(true); a.push(("foo".into(), t)) }
    if r.chance(1, 6) { a.push(("k".into(), "id".into())) }
    if r.chance(1, 8) { a.push(("ref".into(), "77".into())) }
    // names are case sensitive
    for n in ["ID", "Uid", "User", "VISIBLE", "Version", "LAT", "Lon", "Timestamp", "changeSet"] {
        if r.chance(1, 30) { a.push((n.into(), r.pick(&["1", "2", "false", "x"]).to_string())) }
    }
    if r.chance(1, 8) { a.push(("x:bar".into(), "id".into())); a.push(("xmlns:x".into(), "urn:q".into())) }
    let mut kids: Vec<String> = vec![];
    // children of the kinds an element does not use are ignored
    for t in &m.tags { kids.push(leaf(r, "tag", vec![("k".into(), t.0.clone()), ("v".into(), t.1.clone())])) }
    let nt = kids.len();
    for n in &m.nodes { kids.push(leaf(r, "nd", vec![("ref".into(), n.to_string())])) }
    let nn = kids.len();
    for x in m.members.iter_mut() {
        let mut at = vec![("type".to_string(), kname(x.0).to_string()), ("ref".into(), x.1.to_string())];
        if !(x.2.is_empty() && r.flip()) { at.push(("role".into(), x.2.clone())) }
        kids.push(leaf(r, "member", at));
    }
    // interleave the three kinds of children, keeping order inside each kind
    let mut a1: std::collections::VecDeque<String> = kids[..nt].to_vec().into();
    let mut a2: std::collections::VecDeque<String> = kids[nt..nn].to_vec().into();
    let mut a3: std::collections::VecDeque<String> = kids[nn..].to_vec().into();
    let mut body = String::new();
    while a1.len() + a2.len() + a3.len() > 0 {
        let q = match r.below(3) { 0 => &mut a1, 1 => &mut a2, _ => &mut a3 };
        if let Some(x) = q.pop_front() {
            body.push_str(&x);
            body.push_str(ws(r));
            if r.chance(1, 6) { body.push_str(&junk(r, true)) }
        }
    }
    if r.chance(1, 8) { body.push_str(&junk(r, true)) }
    let (mut s, e) = elem(r, kname(k), a);
    if body.is_empty() && e {
        s.push_str("/>");
    } else {
        s.push_str(&format!(">{}{body}</{}>", ws(r), kname(k)));
    }
    (s, m)
}
fn gen_doc(r: &mut Rng, osc: bool) -> (String, Vec<M>) {
    let mut s = String::new();
    if r.flip() { s.push_str("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n") }
    s.push_str(if osc { "<osmChange version=\"0.6\">" } else { "<osm version='0.6' generator=\"x\">" });
    let mut ms = vec![];
    let sections = if osc { r.us(5) } else { 1 };
    for _ in 0..sections {
        let sec = *r.pick(&["create", "modify", "delete"]);
        if osc { s.push_str(&format!("<{sec}>")) }
        for _ in 0..r.us(6) {
            if r.chance(1, 4) { s.push_str(&junk(r, false)) }
            let (e, m) = gen_elem(r);
            s.push_str(&e);
            s.push_str(ws(r));
            ms.push((sec, m));
        }
        if osc { s.push_str(&format!("</{sec}>")) }
    }
    s.push_str(if osc { "</osmChange>" } else { "</osm>" });
    (s, ms.into_iter().map(|x| x.1).collect())
}
pub fn p08(r: &mut Rng, _c: u64) -> Res {
    let (doc, ms) = gen_doc(r, false);
    if r.chance(1, 8) {
        let bz = r.chance(2, 3);
        let p = crate::chg::scratch("osm");
        std::fs::write(&p, if bz { crate::chg::bz(&doc, r) } else { doc.clone().into_bytes() }).unwrap();
        macro_rules! from { ($e:expr) => { match $e { Ok(mut rd) => Ok(rd.objects().map(|o| snap(&o)).collect::<Vec<M>>()), Err(e) => Err(format!("{e:?}")) } }; }
        let got = if !bz { from!(osmio::xml::from_filename_uncompressed(&p)) } else if r.flip() { from!(osmio::xml::from_filename_bz2(&p)) } else { from!(osmio::read_xml(&p)) };
        let _ = std::fs::remove_file(&p);
        return match got { Ok(g) => compare("P08-file", &ms, &g, doc.as_bytes()), Err(e) => fail("P08-open", e) };
    }
    let mut rd = XMLReader::new(crate::pbf::Chunky(std::io::Cursor::new(doc.clone().into_bytes()), *r.pick(&[1, 7, 4096])));
    let got: Vec<M> = rd.objects().map(|o| snap(&o)).collect();
    compare("P08", &ms, &got, doc.as_bytes())
}
pub fn p09(r: &mut Rng, _c: u64) -> Res {
    if r.chance(1, 3) {
        let (doc, ms) = gen_doc(r, true);
        let got = read_osc(doc.as_bytes());
        return compare("P09-read", &ms, &got, doc.as_bytes());
    }
    roundtrip("P09", true, r)
}

// ---------- protocol ----------
#[derive(Debug, Clone)]
enum Op {
    Header(String, String),
    Obj(M),
    Close,
    IsOpen,
}
fn header_xml(doc: &str, hs: &[(String, String)]) -> Option<usize> {
    // length of the header if `doc` starts with a correct one
    let a = format!("<?xml version=\"1.0\" encoding=\"utf-8\"?>\n<osm version=\"0.6\" generator=\"osmio/{}\"", osmio::version());
    let rest = doc.strip_prefix(&a)?;
    let end = rest.find('>')?;
    let mut got: Vec<String> = vec![];
    let mut t = &rest[..end];
    while !t.is_empty() {
        let x = t.strip_prefix(' ')?;
        let q = x.find('"')?;
        let e = q + 1 + x[q + 1..].find('"')?;
        got.push(x[..=e].to_string());
        t = &x[e + 1..];
    }
    let mut last: Vec<(String, String)> = vec![];
    for (k, v) in hs {
        if let Some(x) = last.iter_mut().find(|x| x.0 == *k) { x.1 = v.clone() } else { last.push((k.clone(), v.clone())) }
    }
    let mut exp: Vec<String> = last.iter().map(|(k, v)| format!("{k}=\"{}\"", v.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;").replace('"', "&quot;").replace('\'', "&apos;").replace('\t', "&#9;").replace('\n', "&#10;").replace('\r', "&#13;"))).collect();
    got.sort();
    exp.sort();
    if got != exp { return None; }
    Some(a.len() + end + 1)
}
pub fn p10(r: &mut Rng, _c: u64) -> Res {
    let osc = r.flip();
    let mut ops = vec![];
    for _ in 0..r.us(9) {
        ops.push(match r.below(8) {
            0..=1 if !osc => Op::Header(r.pick(&["a", "b", "copyright"]).to_string(), r.text(false)),
            2..=4 => { let k = any_kind(r); Op::Obj(gen_model(r, k, false)) }
            5 | 6 if r.chance(1, 2) => Op::Close,
            _ => Op::IsOpen,
        });
    }
    let tag = if osc { "P10-osc" } else { "P10-xml" };
    let mode = r.below(4);
    let budget = if mode < 2 { None } else { let m = if r.flip() { 120 } else { 2500 }; Some(r.us(m)) };
    let step = *r.pick(&[1usize, 5, 1 << 20]);
    let sink = Sink::new(budget, step);
    sink.0.borrow_mut().once = mode == 3;
    let d = |x: String| format!("{x} || budget={budget:?} ops={ops:?} out={}", String::from_utf8_lossy(&sink.bytes()));
    let mut headers: Vec<(String, String)> = vec![];
    let mut closed = false;
    let mut started = false;
    let mut failed = false; // output failed at some point: contents are no longer specified
    let mut closes = 0;
    enum Wr { X(XMLWriter<Sink>), C(OSCWriter<Sink>) }
    let mut w = if osc { Wr::C(OSCWriter::new(sink.clone())) } else { Wr::X(XMLWriter::new(sink.clone())) };
    macro_rules! on { ($x:ident, $e:expr) => { match &mut w { Wr::X($x) => $e, Wr::C($x) => $e } }; }
    let mut frags: Vec<Vec<u8>> = vec![];
    let mut body_start = 0usize;
    for op in &ops {
        let before = sink.bytes();
        let fb = sink.0.borrow().failed;
        match op {
            Op::IsOpen => {
                let o = on!(x, x.is_open());
                if o == closed && !failed { return fail(&format!("{tag}-is-open"), d(format!("is_open {o} closed {closed}"))); }
                if sink.bytes() != before { return fail(&format!("{tag}-is-open-writes"), d(String::new())); }
            }
            Op::Header(k, v) => {
                let res = if let Wr::X(x) = &mut w { x.set_header((k, v)) } else { Ok(()) };
                if sink.bytes() != before { return fail(&format!("{tag}-header-writes"), d(String::new())); }
                if failed { continue; }
                let ok = match (&res, closed, started) {
                    (Err(OSMWriteError::AlreadyClosed), true, _) => true,
                    (Err(OSMWriteError::AlreadyStarted), false, true) => true,
                    (Ok(()), false, false) => { headers.push((k.clone(), v.clone())); true }
                    _ => false,
                };
                if !ok { return fail(&format!("{tag}-set-header"), d(format!("{res:?} closed {closed} started {started}"))); }
            }
            Op::Obj(m) => {
                let o = string_obj(m);
                let res = on!(x, x.write_obj(&o));
                let newfail = sink.0.borrow().failed > fb;
                if newfail && res.is_ok() { return fail(&format!("{tag}-swallowed-error"), d("write_obj".into())); }
                if newfail { failed = true; continue; }
                if failed { continue; }
                if closed {
                    if !matches!(res, Err(OSMWriteError::AlreadyClosed)) { return fail(&format!("{tag}-write-after-close"), d(format!("{res:?}"))); }
                    if sink.bytes() != before { return fail(&format!("{tag}-write-after-close-writes"), d(String::new())); }
                } else {
                    if let Err(e) = res { return fail(&format!("{tag}-spurious-error"), d(format!("{e:?}"))); }
                    if !started { body_start = before.len(); started = true; }
                    frags.push(m.id.to_string().into_bytes());
                }
            }
            Op::Close => {
                let res = on!(x, x.close());
                let newfail = sink.0.borrow().failed > fb;
                if newfail && res.is_ok() { return fail(&format!("{tag}-swallowed-error"), d("close".into())); }
                if newfail { failed = true; continue; }
                if failed { continue; }
                if closed && sink.bytes() != before {
                    // listed finding: only when it is exactly one more closing tag
                    let extra = &sink.bytes()[before.len()..];
                    let sig = if !osc && extra == b"\n</osm>" { "P10-xml-second-close".to_string() } else { format!("{tag}-write-by-second-close") };
                    if sig != "P10-xml-second-close" { return fail(&sig, d(String::new())); }
                }
                if let (Err(e), false) = (&res, closed) { return fail(&format!("{tag}-spurious-error"), d(format!("{e:?}"))); }
                if !closed { started = true; closed = true; }
                closes += 1;
            }
        }
    }
    let _ = (body_start, frags);
    let fb = sink.0.borrow().failed;
    let res = catch_unwind(AssertUnwindSafe(|| drop(w)));
    let newfail = sink.0.borrow().failed > fb;
    if newfail {
        // a destructor can only report by panicking; either is accepted
        return Ok(());
    }
    if failed { return Ok(()); }
    if res.is_err() { return fail(&format!("{tag}-drop-panic"), d(String::new())); }
    // whole document: header once, objects in between, closing tags once at the end
    let doc = String::from_utf8_lossy(&sink.bytes()).to_string();
    let mut doc = doc.as_str();
    let close_tag = if osc { "\n</modify>\n</osmChange>" } else { "\n</osm>" };
    let mut second = false;
    if !osc {
        let n = doc.matches(close_tag).count();
        let want = closes.max(0) + 1; // drop closes again
        if n > 1 && n == if closes == 0 { 1 } else { want } {
            second = true;
            for _ in 1..n { doc = doc.strip_suffix(close_tag).unwrap_or(doc); }
        }
    }
    let hl = if osc {
        let h = format!("<?xml version=\"1.0\" encoding=\"utf-8\"?>\n<osmChange version=\"0.6\" generator=\"osmio/{}\">\n<modify>", osmio::version());
        if doc.starts_with(&h) { Some(h.len()) } else { None }
    } else { header_xml(doc, &headers) };
    let Some(hl) = hl else { return fail(&format!("{tag}-header"), d(format!("headers {headers:?}"))); };
    let Some(body) = doc[hl..].strip_suffix(close_tag) else { return fail(&format!("{tag}-trailer"), d(String::new())); };
    if body.contains("<?xml") || body.contains("<osm") || body.contains("</osm") || body.contains("modify>") {
        return fail(&format!("{tag}-framing-repeated"), d(String::new()));
    }
    if second { return fail("P10-xml-second-close", d(String::new())); }
    if !osc && r.chance(1, 4) {
        let ms: Vec<M> = (0..r.us(4)).map(|_| { let k = any_kind(r); gen_model(r, k, false) }).collect();
        let s2 = Sink::new(None, 1 << 20);
        let w = <XMLWriter<Sink> as OSMWriter<Sink>>::from_iter(s2.clone(), ms.iter().map(string_obj));
        if w.is_open() { return fail("P10-xml-from-iter-open", String::new()); }
        let doc = s2.bytes();
        std::mem::forget(w);
        if !doc.is_empty() && r.flip() {
            // an output that fails once on the way: from_iter has no result to say so, it must not come back as if all was well
            let s3 = Sink::new(Some(r.us(doc.len())), *r.pick(&[1usize, 7, 1 << 20]));
            s3.0.borrow_mut().once = true;
            let s4 = s3.clone();
            let it: Vec<_> = ms.iter().map(string_obj).collect();
            let x = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || { let w = <XMLWriter<Sink> as OSMWriter<Sink>>::from_iter(s4, it.into_iter()); std::mem::forget(w); }));
            if x.is_ok() && s3.0.borrow().failed > 0 { return fail("P10-xml-from-iter-swallowed-error", String::from_utf8_lossy(&s3.bytes()).to_string()); }
        }
        return compare("P10-xml-from-iter", &ms, &read_xml(&doc), &doc);
    }
    if osc && r.chance(1, 4) {
        let ms: Vec<M> = (0..r.us(4)).map(|_| { let k = any_kind(r); gen_model(r, k, false) }).collect();
        let s2 = Sink::new(None, 1 << 20);
        let w = <OSCWriter<Sink> as OSMWriter<Sink>>::from_iter(s2.clone(), ms.iter().map(string_obj));
        if w.is_open() { return fail("P10-osc-from-iter-open", String::new()); }
        drop(w);
        let doc = s2.bytes();
        if !doc.is_empty() && r.flip() {
            // an output that fails once on the way: from_iter has no result to say so, it must not come back as if all was well
            let s3 = Sink::new(Some(r.us(doc.len())), *r.pick(&[1usize, 7, 1 << 20]));
            s3.0.borrow_mut().once = true;
            let s4 = s3.clone();
            let it: Vec<_> = ms.iter().map(string_obj).collect();
            let x = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || { let w = <OSCWriter<Sink> as OSMWriter<Sink>>::from_iter(s4, it.into_iter()); std::mem::forget(w); }));
            if x.is_ok() && s3.0.borrow().failed > 0 { return fail("P10-osc-from-iter-swallowed-error", String::from_utf8_lossy(&s3.bytes()).to_string()); }
        }
        return compare("P10-osc-from-iter", &ms, &read_osc(&doc), &doc);
    }
    Ok(())
}
