//! Oracles for the changeset readers (P19, P20).
use crate::util::*;
use osmio::changesets::{ChangesetReader, ChangesetTagReader};
use osmio::TimestampFormat;
use std::collections::HashMap;
use std::io::Write;

#[derive(Clone, Debug)]
struct C {
    id: u64,
    created: String,
    closed: Option<String>,
    open: bool,
    uid: Option<i64>,
    user: Option<String>,
    num_changes: u64,
    comments: u64,
    tags: Vec<(String, String)>,
    body: bool,
}
fn gen(r: &mut Rng, big: bool) -> C {
    let mut tags: Vec<(String, String)> = vec![];
    for _ in 0..r.len().min(12) {
        let k = r.key();
        if tags.iter().all(|t| t.0 != k) { tags.push((k, r.text(true))) }
    }
    if big && !tags.is_empty() && r.chance(1, 6) {
        // a key given twice: the list of tags has both
        let t = (r.pick(&tags).0.clone(), r.text(true));
        let i = r.us(tags.len() + 1);
        tags.insert(i, t);
    }
    let body = r.chance(3, 4);
    if !body { tags.clear() }
    C {
        id: if big && r.chance(1, 6) { u32::MAX as u64 + 1 + r.below(1 << 40) } else { r.u32v() as u64 },
        created: iso(r.epoch()),
        closed: if r.chance(1, 12) { Some(String::new()) } else if r.flip() { Some(iso(r.epoch())) } else { None },
        open: r.flip(),
        uid: if r.chance(2, 3) { Some(r.id()) } else { None },
        user: if r.chance(2, 3) { Some(r.text(true)) } else { None },
        num_changes: r.u32v() as u64 * if r.chance(1, 8) { 1 << 20 } else { 1 },
        comments: r.u32v() as u64,
        tags,
        body,
    }
}
fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '&' => o.push_str("&amp;"),
            '<' => o.push_str("&lt;"),
            '>' => o.push_str("&gt;"),
            '"' => o.push_str("&quot;"),
            '\'' => o.push_str("&apos;"),
            '\n' => o.push_str("&#10;"),
            '\t' => o.push_str("&#x9;"),
            '\r' => o.push_str("&#13;"),
            c => o.push(c),
        }
    }
    o
}
fn attrs(r: &mut Rng, mut a: Vec<(&str, String)>) -> String {
    r.shuffle(&mut a);
    a.iter().map(|(k, v)| { let q = if r.flip() { '"' } else { '\'' }; format!(" {k}={q}{}{q}", esc(v)) }).collect()
}
fn junk(r: &mut Rng) -> &'static str {
    *r.pick(&["", "", "", " ", "\n\t", "<!-- tag changeset -->", "text", "<other a=\"1\"/>", "<other k='k' v='v'>x</other>", "<![CDATA[<tag k='a' v='b'/>]]>", "<?pi?>"])
}
fn elem(c: &C, r: &mut Rng) -> String {
    let mut a = vec![
        ("id", c.id.to_string()),
        ("created_at", c.created.clone()),
        ("open", c.open.to_string()),
        ("num_changes", c.num_changes.to_string()),
        ("comments_count", c.comments.to_string()),
    ];
    if let Some(x) = &c.closed { a.push(("closed_at", x.clone())) }
    if let Some(x) = &c.uid { a.push(("uid", x.to_string())) }
    if let Some(x) = &c.user { a.push(("user", x.clone())) }
    if r.flip() {
        for k in ["min_lat", "max_lat", "min_lon", "max_lon"] { a.push((k, "1.5".into())) }
    }
    if r.chance(1, 5) { a.push(("k", "v".into())) }
    if r.chance(1, 5) { a.push(("idx", "9".into())) }
    let mut s = format!("<changeset{}", attrs(r, a));
    if !c.body {
        s.push_str("/>");
        return s;
    }
    s.push('>');
    let d = "<discussion><comment uid=\"1\" user=\"x\" date=\"2020-01-01T00:00:00Z\"><text>hi &amp; bye</text></comment><comment id=\"5\" k=\"1\" v=\"2\"><text/></comment></discussion>";
    // anywhere between the tags
    let at = if r.chance(1, 4) { Some(r.us(c.tags.len() + 1)) } else { None };
    for (i, (k, v)) in c.tags.iter().enumerate() {
        if at == Some(i) { s.push_str(d) }
        s.push_str(junk(r));
        let mut a = vec![("k", k.clone()), ("v", v.clone())];
        if r.chance(1, 6) { a.push(("id", "5".into())) }
        let t = attrs(r, a);
        if r.flip() { s.push_str(&format!("<tag{t}/>")) } else { s.push_str(&format!("<tag{t}>{}</tag>", if r.flip() { "" } else { "\n" })) }
    }
    if at == Some(c.tags.len()) { s.push_str(d) }
    s.push_str(junk(r));
    s.push_str("</changeset>");
    s
}
fn doc(cs: &[C], r: &mut Rng) -> String {
    let mut s = String::from("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<osm license=\"x\" version=\"0.6\">\n");
    if r.flip() { s.push_str("<bound box=\"-90,-180,90,180\" origin=\"x\"/>") }
    for c in cs {
        s.push_str(&elem(c, r));
        s.push_str(junk(r));
    }
    s.push_str("</osm>\n");
    s
}
pub fn p19(r: &mut Rng, _c: u64) -> Res {
    let cs: Vec<C> = (0..r.us(7)).map(|_| gen(r, false)).collect();
    let d = doc(&cs, r);
    let mut rd = ChangesetReader::from_reader(crate::pbf::Chunky(std::io::Cursor::new(d.clone().into_bytes()), *r.pick(&[1, 50, 1 << 16])));
    let mut other: Box<dyn Iterator<Item = Result<osmio::changesets::Changeset, String>>> = if r.flip() {
        Box::new(ChangesetReader::from_bz2_reader(std::io::Cursor::new(bz(&d, r))).map(|x| x.map_err(|e| format!("{e:?}"))))
    } else {
        let p = scratch("bz2");
        std::fs::write(&p, bz(&d, r)).unwrap();
        let rd = ChangesetReader::from_filename(&p);
        let _ = std::fs::remove_file(&p);
        match rd { Ok(rd) => Box::new(rd.map(|x| x.map_err(|e| format!("{e:?}")))), Err(e) => return fail("P19-open", format!("{e:?}")) }
    };
    for (i, c) in cs.iter().enumerate() {
        match other.next() {
            Some(Ok(g)) if g.id as u64 == c.id && g.num_tags() == c.tags.len() => {}
            x => return fail("P19-bz2", format!("changeset {i} of {}: {x:?} || {d}", cs.len())),
        }
        let mut g = match rd.next() {
            Some(Ok(g)) => g,
            x => return fail("P19-missing", format!("changeset {i} of {}: {x:?} || {d}", cs.len())),
        };
        let ts = |t: &TimestampFormat| ts_of(t);
        macro_rules! ck { ($f:expr, $e:expr, $g:expr) => { if $e != $g { return fail(concat!("P19-", $f), format!("changeset {i}: expected {:?} got {:?} || {d}", $e, $g)); } }; }
        ck!("id", c.id, g.id as u64);
        ck!("created", Ts::Iso(c.created.clone()), ts(&g.created));
        ck!("closed", c.closed.clone().map(Ts::Iso), g.closed.as_ref().map(ts));
        ck!("open", c.open, g.open);
        ck!("uid", c.uid, g.uid);
        ck!("user", c.user, g.user);
        ck!("num-changes", c.num_changes, g.num_changes);
        ck!("comments", c.comments, g.comments_count);
        let e: HashMap<String, String> = c.tags.iter().cloned().collect();
        ck!("tags", e, g.tags);
        ck!("num-tags", c.tags.len(), g.num_tags());
        ck!("tagged", !c.tags.is_empty(), g.tagged());
        ck!("untagged", c.tags.is_empty(), g.untagged());
        for (k, v) in &c.tags {
            ck!("tag", Some(v.as_str()), g.tag(k));
            ck!("has-tag", true, g.has_tag(k));
        }
        ck!("tag", None::<&str>, g.tag("absent-key-zz"));
        g.tags_mut().insert("absent-key-zz".into(), "1".into());
        ck!("tags-mut", Some("1"), g.tag("absent-key-zz"));
        ck!("num-tags", c.tags.len() + 1, g.num_tags());
        let n = g.into_tags().len();
        ck!("into-tags", c.tags.len() + 1, n);
    }
    for _ in 0..2 {
        if let Some(x) = rd.next() { return fail("P19-extra", format!("{x:?} || {d}")); }
    }
    // truncation: error or end, and the complete ones before the cut stay right
    let mut cut = r.us(d.len() + 1);
    while !d.is_char_boundary(cut) { cut -= 1; }
    let t = &d[..cut];
    let mut n = 0usize;
    let mut rd = ChangesetReader::from_reader(t.as_bytes());
    loop {
        match rd.next() {
            None | Some(Err(_)) => break,
            Some(Ok(g)) => {
                if n >= cs.len() || g.id as u64 != cs[n].id { return fail("P19-truncated-wrong", format!("{g:?} || {t}")); }
                let e: HashMap<String, String> = cs[n].tags.iter().cloned().collect();
                if e != g.tags { return fail("P19-truncated-tags", format!("{g:?} || {t}")); }
                n += 1;
            }
        }
    }
    // an attribute that cannot be read makes its element an error, whatever came before it
    if !cs.is_empty() && r.chance(1, 3) {
        let e = elem(&cs[0], r);
        let i = e.find('>').unwrap() - if cs[0].body { 0 } else { 1 };
        if !e[..i].contains('>') && e[i..].starts_with(if cs[0].body { ">" } else { "/>" }) {
            let bad = *r.pick(&[" zz", " zz=1", " zz=\"1\" zz=\"2\""]);
            let dd = format!("<osm>{}{bad}{}</osm>", &e[..i], &e[i..]);
            let mut rd = ChangesetReader::from_reader(dd.as_bytes());
            match rd.next() {
                Some(Err(_)) => {}
                x => return fail("P19-malformed-attribute-accepted", format!("{x:?} || {dd}")),
            }
        }
    }
    // malformed attributes are errors
    if !cs.is_empty() && r.chance(1, 3) {
        let mut e = elem(&cs[0], r);
        let bad = [("id=", "id=\"x\" q="), ("open=", "open=\"maybe\" q="), ("created_at=", "q=")][r.us(3)];
        e = e.replacen(&format!(" {}", bad.0), &format!(" {}", bad.1), 1);
        if !e.contains("text") && !e.contains(" q=\"") == false {
            let dd = format!("<osm>{e}</osm>");
            let mut rd = ChangesetReader::from_reader(dd.as_bytes());
            match rd.next() {
                Some(Err(_)) => {}
                x => return fail("P19-malformed-accepted", format!("{x:?} || {dd}")),
            }
        }
    }
    Ok(())
}
/// the same document as a bzip2 file of one or two streams
pub fn bz(d: &str, r: &mut Rng) -> Vec<u8> {
    let mut cut = if r.flip() { 0 } else { r.us(d.len() + 1) };
    while !d.is_char_boundary(cut) { cut -= 1; }
    let mut o = vec![];
    for p in [&d[..cut], &d[cut..]] {
        if p.is_empty() { continue }
        let mut e = bzip2::write::BzEncoder::new(Vec::new(), bzip2::Compression::fast());
        e.write_all(p.as_bytes()).unwrap();
        o.extend(e.finish().unwrap());
    }
    o
}
pub fn scratch(ext: &str) -> String {
    let dir = std::env::var("VH_SCRATCH").unwrap_or_else(|_| std::env::temp_dir().to_string_lossy().to_string());
    format!("{dir}/vh-{}.{ext}", std::process::id())
}
pub fn p20(r: &mut Rng, _c: u64) -> Res {
    let cs: Vec<C> = (0..r.us(9)).map(|_| gen(r, true)).collect();
    let d = doc(&cs, r);
    let exp: Vec<(u64, Vec<(String, String)>)> = cs.iter().filter(|c| c.body).map(|c| (c.id, c.tags.clone())).collect();
    let got: Vec<_>;
    {
        let p = scratch("bz2");
        std::fs::write(&p, bz(&d, r)).unwrap();
        let rd = ChangesetTagReader::from_filename(&p).unwrap();
        let g: Result<Vec<_>, _> = rd.collect();
        let _ = std::fs::remove_file(&p);
        got = match g { Ok(g) => g, Err(e) => return fail("P20-error", format!("{e:?} || {d}")) };
    }
    for (i, (e, g)) in exp.iter().zip(&got).enumerate() {
        if e.0 != g.0 { return fail("P20-id", format!("{i}: expected {} got {} || {d}", e.0, g.0)); }
        if e.1 != g.1 { return fail("P20-tags", format!("{i}: expected {:?} got {:?} || {d}", e.1, g.1)); }
    }
    // a changeset without an id has no id to report
    if !cs.is_empty() && r.chance(1, 3) {
        let dd = format!("<osm>{}<changeset open=\"true\"><tag k=\"a\" v=\"b\"/></changeset>{}</osm>", elem(&cs[0], r), elem(&cs[cs.len() - 1], r));
        let p = scratch("bz2");
        std::fs::write(&p, bz(&dd, r)).unwrap();
        let g: Vec<_> = ChangesetTagReader::from_filename(&p).unwrap().take(3).collect();
        let _ = std::fs::remove_file(&p);
        let n = cs[0].body as usize;
        if g.len() <= n || g[n].is_ok() { return fail("P20-no-id", format!("{g:?} || {dd}")); }
        // whatever is reported after it has its own tags only
        for (id, tags) in g.iter().skip(n + 1).filter_map(|x| x.as_ref().ok()) {
            let c = &cs[cs.len() - 1];
            if *id != c.id || *tags != c.tags { return fail("P20-leak", format!("{g:?} || {dd}")); }
        }
    }
    // a self-closing changeset may also be reported (with no tags) by a reader that chooses to
    if exp.len() != got.len() { return fail("P20-count", format!("expected {} got {} || {d}", exp.len(), got.len())); }
    Ok(())
}
