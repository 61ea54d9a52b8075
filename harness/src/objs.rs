//! Oracles for the object types (P13-P16, P18).
use crate::util::*;
use osmio::obj_types::*;
use osmio::{Lat, Lon, Node, OSMObj, OSMObjBase, OSMObjectType, Relation, TimestampFormat, Way};

#[cfg(osmio_verif)]
pub fn rc_obj(m: &M) -> RcOSMObj {
    match m.kind {
        OSMObjectType::Node => {
            let mut o = osmio::obj_types::verif_hooks::rc_node(m.id);
            fill_base(&mut o, m);
            o.set_lat_lon_direct(m.ll.map(|(a, b)| (Lat::from_inner(a), Lon::from_inner(b))));
            RcOSMObj::Node(o)
        }
        OSMObjectType::Way => {
            let mut o = osmio::obj_types::verif_hooks::rc_way(m.id);
            fill_base(&mut o, m);
            o.set_nodes(m.nodes.iter().copied());
            RcOSMObj::Way(o)
        }
        OSMObjectType::Relation => {
            let mut o = osmio::obj_types::verif_hooks::rc_relation(m.id);
            fill_base(&mut o, m);
            o.set_members(m.members.iter().cloned());
            RcOSMObj::Relation(o)
        }
    }
}
#[cfg(osmio_verif)]
pub fn arc_obj(m: &M) -> ArcOSMObj {
    match m.kind {
        OSMObjectType::Node => {
            let mut o = osmio::obj_types::verif_hooks::arc_node(m.id);
            fill_base(&mut o, m);
            o.set_lat_lon_direct(m.ll.map(|(a, b)| (Lat::from_inner(a), Lon::from_inner(b))));
            ArcOSMObj::Node(o)
        }
        OSMObjectType::Way => {
            let mut o = osmio::obj_types::verif_hooks::arc_way(m.id);
            fill_base(&mut o, m);
            o.set_nodes(m.nodes.iter().copied());
            ArcOSMObj::Way(o)
        }
        OSMObjectType::Relation => {
            let mut o = osmio::obj_types::verif_hooks::arc_relation(m.id);
            fill_base(&mut o, m);
            o.set_members(m.members.iter().cloned());
            ArcOSMObj::Relation(o)
        }
    }
}

fn json_str(s: &str) -> String {
    // minimal JSON string reader is used below instead of a writer
    s.to_string()
}
/// parse a flat JSON object of strings, keeping order; None when not one
fn parse_json(s: &str) -> Option<Vec<(String, String)>> {
    let cs: Vec<char> = s.chars().collect();
    let mut i = 0;
    fn string(cs: &[char], i: &mut usize) -> Option<String> {
        if *cs.get(*i)? != '"' { return None; }
        *i += 1;
        let mut o = String::new();
        loop {
            let c = *cs.get(*i)?;
            *i += 1;
            match c {
                '"' => return Some(o),
                '\\' => {
                    let e = *cs.get(*i)?;
                    *i += 1;
                    o.push(match e {
                        'n' => '\n', 't' => '\t', 'r' => '\r', 'b' => '\u{8}', 'f' => '\u{c}', '"' => '"', '\\' => '\\', '/' => '/',
                        'u' => {
                            let h: String = cs.get(*i..*i + 4)?.iter().collect();
                            *i += 4;
                            let v = u32::from_str_radix(&h, 16).ok()?;
                            if (0xD800..0xDC00).contains(&v) {
                                if cs.get(*i..*i + 2)? != ['\\', 'u'] { return None; }
                                let h2: String = cs.get(*i + 2..*i + 6)?.iter().collect();
                                *i += 6;
                                let w = u32::from_str_radix(&h2, 16).ok()?;
                                char::from_u32(0x10000 + ((v - 0xD800) << 10) + (w - 0xDC00))?
                            } else { char::from_u32(v)? }
                        }
                        _ => return None,
                    });
                }
                c if (c as u32) < 0x20 => return None,
                c => o.push(c),
            }
        }
    }
    let mut out = vec![];
    if *cs.get(i)? != '{' { return None; }
    i += 1;
    if *cs.get(i)? == '}' { return if i + 1 == cs.len() { Some(out) } else { None }; }
    loop {
        let k = string(&cs, &mut i)?;
        if *cs.get(i)? != ':' { return None; }
        i += 1;
        let v = string(&cs, &mut i)?;
        out.push((k, v));
        match *cs.get(i)? {
            ',' => i += 1,
            '}' => return if i + 1 == cs.len() { Some(out) } else { None },
            _ => return None,
        }
    }
}

fn anytext(r: &mut Rng) -> String {
    if r.chance(1, 6) {
        (0..r.us(5)).map(|_| char::from_u32(r.below(0x30) as u32).unwrap()).collect()
    } else {
        r.text(true)
    }
}
fn check_tags<O: OSMObjBase>(tag: &str, o: &O, exp: &[(String, String)]) -> Res {
    let got: Vec<(String, String)> = o.tags().map(|(k, v)| (k.to_string(), v.to_string())).collect();
    if got != exp { return fail(&format!("{tag}-tags"), format!("expected {exp:?} got {got:?}")); }
    if o.tags().len() != exp.len() { return fail(&format!("{tag}-tags-len"), format!("{} for {exp:?}", o.tags().len())); }
    if o.num_tags() != exp.len() { return fail(&format!("{tag}-num-tags"), format!("{} for {exp:?}", o.num_tags())); }
    if o.untagged() != exp.is_empty() || o.tagged() == exp.is_empty() { return fail(&format!("{tag}-tagged"), format!("{exp:?}")); }
    for (k, v) in exp {
        if o.tag(k) != Some(v.as_str()) { return fail(&format!("{tag}-tag"), format!("{k:?}: expected {v:?} got {:?}", o.tag(k))); }
        if !o.has_tag(k) { return fail(&format!("{tag}-has-tag"), format!("{k:?}")); }
        for miss in [format!("{k}x"), format!("x{k}"), k.to_uppercase(), k.chars().skip(1).collect()] {
            if exp.iter().all(|(a, _)| *a != miss) && (o.tag(&miss).is_some() || o.has_tag(&miss)) {
                return fail(&format!("{tag}-tag-absent"), format!("{miss:?} in {exp:?}"));
            }
        }
    }
    let j = o.tags_json_string();
    match parse_json(&json_str(&j)) {
        None => return fail(&format!("{tag}-json"), format!("not a flat JSON object: {j}")),
        Some(mut g) => {
            let mut e = exp.to_vec();
            g.sort();
            e.sort();
            if g != e { return fail(&format!("{tag}-json"), format!("{j} for {exp:?}")); }
        }
    }
    Ok(())
}
fn tag_history<O: OSMObjBase>(tag: &str, mut o: O, snapf: fn(&O) -> M, r: &mut Rng) -> Res {
    let mut exp: Vec<(String, String)> = o.tags().map(|(k, v)| (k.to_string(), v.to_string())).collect();
    let base = { let mut m = snapf(&o); m.tags.clear(); m };
    check_tags(tag, &o, &exp)?;
    let mut pool: Vec<String> = (0..1 + r.us(6)).map(|_| if r.flip() { r.key() } else { anytext(r) }).collect();
    // keys that only look alike
    for _ in 0..r.us(3) {
        let k = r.pick(&pool).clone();
        pool.push(match r.below(4) { 0 => k.to_uppercase(), 1 => format!("{k} "), 2 => format!(" {k}"), _ => k.to_lowercase() });
    }
    let mut log = vec![];
    for _ in 0..r.us(14) {
        let k = if r.chance(9, 10) { r.pick(&pool).clone() } else { anytext(r) };
        if r.chance(2, 3) {
            let v = if r.chance(1, 8) { "no".to_string() } else { anytext(r) };
            log.push(format!("set {k:?}={v:?}"));
            if r.flip() { o.set_tag(&k, v.as_str()) } else { o.set_tag(k.clone(), v.clone()) }
            match exp.iter_mut().find(|t| t.0 == k) {
                Some(t) => t.1 = v,
                None => exp.push((k, v)),
            }
        } else {
            log.push(format!("unset {k:?}"));
            o.unset_tag(&k);
            exp.retain(|t| t.0 != k);
        }
        check_tags(tag, &o, &exp).map_err(|(s, d)| (s, format!("{d} after {log:?}")))?;
        let now = { let mut m = snapf(&o); m.tags.clear(); m };
        if let Some((f, d)) = diff(&base, &now) { return fail(&format!("{tag}-frame-{f}"), format!("{d} after {log:?}")); }
    }
    Ok(())
}

/// run `$f!(tag, object, snap)` on one object of a random one of the twelve types
macro_rules! each_type {
    ($r:expr, $pid:literal, $f:ident, $m:expr) => {{
        let m: M = $m;
        let o = string_obj(&m);
        #[cfg(osmio_verif)]
        let fam = $r.below(3);
        #[cfg(not(osmio_verif))]
        let fam = 0u64;
        let mixed = $r.chance(1, 3);
        match fam {
            0 => each_type!(@fam $r, $pid, $f, "String", o, mixed),
            #[cfg(osmio_verif)]
            1 => each_type!(@fam $r, $pid, $f, "Rc", rc_obj(&m), mixed),
            #[cfg(osmio_verif)]
            _ => each_type!(@fam $r, $pid, $f, "Arc", arc_obj(&m), mixed),
            #[cfg(not(osmio_verif))]
            _ => unreachable!(),
        }
    }};
    (@fam $r:expr, $pid:literal, $f:ident, $n:literal, $o:expr, $mixed:expr) => {{
        let o = $o;
        if $mixed {
            $f!($r, concat!($pid, "-", $n, "OSMObj"), o, snap, mixed)
        } else {
            match m_kind(&o) {
                OSMObjectType::Node => $f!($r, concat!($pid, "-", $n, "Node"), o.into_node().unwrap(), snap_node, node),
                OSMObjectType::Way => $f!($r, concat!($pid, "-", $n, "Way"), o.into_way().unwrap(), snap_way, way),
                OSMObjectType::Relation => $f!($r, concat!($pid, "-", $n, "Relation"), o.into_relation().unwrap(), snap_rel, rel),
            }
        }
    }};
}
fn m_kind<O: OSMObj>(o: &O) -> OSMObjectType {
    if o.as_node().is_some() { OSMObjectType::Node } else if o.as_way().is_some() { OSMObjectType::Way } else { OSMObjectType::Relation }
}

pub fn p13(r: &mut Rng, _c: u64) -> Res {
    macro_rules! f { ($r:expr, $t:expr, $o:expr, $s:ident, $k:ident) => { tag_history($t, $o, $s, $r) }; }
    let k = any_kind(r);
    let m = gen_model(r, k, true);
    each_type!(r, "P13", f, m)
}

/// one random base-field change applied to object and model
fn base_op<O: OSMObjBase>(o: &mut O, e: &mut M, r: &mut Rng) -> String {
    match r.below(9) {
        0 => { let v = r.id(); o.set_id(v); e.id = v; format!("set_id {v}") }
        1 => { let v = r.u32v(); if r.chance(1, 3) { o.set_version(None); e.version = None } else if r.flip() { o.set_version(v); e.version = Some(v) } else { o.set_version(Some(v)); e.version = Some(v) } format!("set_version {:?}", e.version) }
        2 => { let v = r.flip(); o.set_deleted(v); e.deleted = v; format!("set_deleted {v}") }
        3 => { let v = if r.chance(1, 3) { None } else { Some(r.u32v()) }; o.set_changeset_id(v); e.changeset = v; format!("set_changeset_id {v:?}") }
        4 => { let v = if r.chance(1, 3) { None } else if r.flip() { Some(Ts::Ep(r.epoch())) } else { Some(Ts::Iso(anytext(r))) }; o.set_timestamp(v.as_ref().map(ts_to)); e.ts = v.clone(); format!("set_timestamp {v:?}") }
        5 => { let v = if r.chance(1, 3) { None } else { Some(r.u32v()) }; o.set_uid(v); e.uid = v; format!("set_uid {v:?}") }
        6 => { let v = if r.chance(1, 3) { None } else { Some(anytext(r)) }; o.set_user(v.as_deref()); e.user = v.clone(); format!("set_user {v:?}") }
        7 => { o.strip_metadata(); e.uid = None; e.user = None; e.changeset = None; "strip_metadata".into() }
        _ => { let t: TimestampFormat = r.epoch().into(); e.ts = Some(ts_of(&t)); o.set_timestamp(t); "set_timestamp direct".into() }
    }
}
fn node_op<O: Node>(o: &mut O, e: &mut M, r: &mut Rng) -> String {
    match r.below(4) {
        0 => { o.unset_lat_lon(); e.ll = None; "unset_lat_lon".into() }
        1 => { let v = if r.chance(1, 4) { None } else { Some((r.inner(900_000_000), r.inner(1_800_000_000))) }; o.set_lat_lon_direct(v.map(|(a, b)| (Lat::from_inner(a), Lon::from_inner(b)))); e.ll = v; format!("set_lat_lon_direct {v:?}") }
        2 => { let (a, b) = (r.inner(900_000_000), r.inner(1_800_000_000)); o.set_lat_lon((a as f64 / 1e7, b as f64 / 1e7)).unwrap(); e.ll = Some((a, b)); format!("set_lat_lon {a} {b}") }
        _ => {
            let a = r.inner(900_000_000) as f64 / 1e7;
            let bad = *r.pick(&[214.7483648, -214.7483649, 1e9, -1e300, f64::INFINITY]);
            let x = if r.flip() { o.set_lat_lon((a, bad)) } else { o.set_lat_lon((bad, a)) };
            if x.is_ok() { return "BAD set_lat_lon accepted an out-of-range value".into(); }
            "set_lat_lon out of range".into()
        }
    }
}
fn way_op<O: Way>(o: &mut O, e: &mut M, r: &mut Rng) -> String {
    let v: Vec<i64> = (0..r.len()).map(|_| r.id()).collect();
    o.set_nodes(v.clone());
    e.nodes = v.clone();
    format!("set_nodes {v:?}")
}
fn rel_op<O: Relation>(o: &mut O, e: &mut M, r: &mut Rng) -> String {
    let v: Vec<Mem> = (0..r.len()).map(|_| (any_kind(r), r.id(), anytext(r))).collect();
    o.set_members(v.clone());
    e.members = v.clone();
    format!("set_members {v:?}")
}
macro_rules! kind_op {
    (node, $o:expr, $e:expr, $r:expr) => { node_op($o, $e, $r) };
    (way, $o:expr, $e:expr, $r:expr) => { way_op($o, $e, $r) };
    (rel, $o:expr, $e:expr, $r:expr) => { rel_op($o, $e, $r) };
    (mixed, $o:expr, $e:expr, $r:expr) => {{
        let o = $o;
        if let Some(n) = o.as_node_mut() { node_op(n, $e, $r) } else if let Some(w) = o.as_way_mut() { way_op(w, $e, $r) } else if let Some(l) = o.as_relation_mut() { rel_op(l, $e, $r) } else { String::new() }
    }};
}
pub fn p14(r: &mut Rng, _c: u64) -> Res {
    macro_rules! f { ($r:expr, $t:expr, $o:expr, $s:ident, $k:ident) => {{
        let mut o = $o;
        let mut e = $s(&o);
        let mut log = vec![];
        for _ in 0..1 + $r.us(10) {
            let op = if $r.chance(3, 4) { base_op(&mut o, &mut e, $r) } else { kind_op!($k, &mut o, &mut e, $r) };
            log.push(op);
            if log.last().unwrap().starts_with("BAD") { return fail(&format!("{}-set-lat-lon", $t), format!("{log:?}")); }
            let g = $s(&o);
            if let Some((f, d)) = diff(&e, &g) { return fail(&format!("{}-{f}", $t), format!("{d} after {log:?}")); }
            let c = o.clone();
            if $s(&c) != e { return fail(&format!("{}-clone", $t), format!("{log:?}")); }
        }
        Ok(())
    }}; }
    let k = any_kind(r);
    let m = gen_model(r, k, true);
    // the generated object itself was built with the setters
    let o = string_obj(&m);
    if let Some((f, d)) = diff(&m, &snap(&o)) { return fail(&format!("P14-build-{f}"), d); }
    #[cfg(osmio_verif)]
    {
        if let Some((f, d)) = diff(&m, &snap(&rc_obj(&m))) { return fail(&format!("P14-build-rc-{f}"), d); }
        if let Some((f, d)) = diff(&m, &snap(&arc_obj(&m))) { return fail(&format!("P14-build-arc-{f}"), d); }
    }
    each_type!(r, "P14", f, m)
}

fn deleg<O: OSMObj>(tag: &str, o: O, m: &M, r: &mut Rng) -> Res {
    let kinds = [o.as_node().is_some(), o.as_way().is_some(), o.as_relation().is_some()];
    let want = [m.kind == OSMObjectType::Node, m.kind == OSMObjectType::Way, m.kind == OSMObjectType::Relation];
    if kinds != want || [o.is_node(), o.is_way(), o.is_relation()] != want || o.object_type() != m.kind {
        return fail(&format!("{tag}-kind"), format!("{kinds:?} for {:?}", m.kind));
    }
    let inner_snap = snap(&o);
    let outer = { let mut x = snap_base(&o); x.ll = m.ll; x.nodes = m.nodes.clone(); x.members = m.members.clone(); x };
    for (w, s) in [("inner", &inner_snap), ("outer", &outer)] {
        if let Some((f, d)) = diff(m, s) { return fail(&format!("{tag}-{w}-{f}"), d); }
    }
    check_tags(tag, &o, &m.tags)?;
    // same change through the wrapper and on the taken-out object
    let mut a = o.clone();
    let mut b = o.clone();
    if [b.as_node_mut().is_some(), b.as_way_mut().is_some(), b.as_relation_mut().is_some()] != want { return fail(&format!("{tag}-as-mut"), String::new()); }
    let seed = r.next();
    let mut e1 = m.clone();
    let mut e2 = m.clone();
    let n = 1 + r.us(6);
    let mut r1 = Rng::new(seed);
    let mut r2 = Rng::new(seed);
    let mut log = vec![];
    for _ in 0..n {
        fn op<O: OSMObjBase>(o: &mut O, e: &mut M, r: &mut Rng) -> String {
            match r.below(3) {
                0 => { let k = r.key(); let v = anytext(r); o.set_tag(&k, v.as_str()); match e.tags.iter_mut().find(|t| t.0 == k) { Some(t) => t.1 = v, None => e.tags.push((k, v)) } "set_tag".into() }
                1 => { let k = e.tags.first().map(|t| t.0.clone()).unwrap_or("area".into()); o.unset_tag(&k); e.tags.retain(|t| t.0 != k); "unset_tag".into() }
                _ => base_op(o, e, r),
            }
        }
        log.push(op(&mut a, &mut e1, &mut r1));
        match m.kind {
            OSMObjectType::Node => { op(b.as_node_mut().unwrap(), &mut e2, &mut r2); }
            OSMObjectType::Way => { op(b.as_way_mut().unwrap(), &mut e2, &mut r2); }
            OSMObjectType::Relation => { op(b.as_relation_mut().unwrap(), &mut e2, &mut r2); }
        }
        if let Some((f, d)) = diff(&e1, &snap(&a)) { return fail(&format!("{tag}-change-{f}"), format!("{d} after {log:?}")); }
        if let Some((f, d)) = diff(&e2, &snap(&b)) { return fail(&format!("{tag}-held-{f}"), format!("{d} after {log:?}")); }
        if a != b { return fail(&format!("{tag}-eq"), format!("{log:?}")); }
    }
    // taking as a kind
    let got = [o.clone().into_node().map(|x| snap_node(&x)), o.clone().into_way().map(|x| snap_way(&x)), o.clone().into_relation().map(|x| snap_rel(&x))];
    for (i, g) in got.iter().enumerate() {
        if g.is_some() != want[i] { return fail(&format!("{tag}-into"), format!("{i}")); }
        if let Some(g) = g {
            if let Some((f, d)) = diff(m, g) { return fail(&format!("{tag}-into-{f}"), d); }
        }
    }
    Ok(())
}
pub fn p15(r: &mut Rng, _c: u64) -> Res {
    let k = any_kind(r);
    let m = gen_model(r, k, true);
    let s = string_obj(&m);
    // wrapping then taking is the identity
    match &s {
        StringOSMObj::Node(n) => if StringOSMObj::from(n.clone()) != s || StringOSMObj::from(n.clone()).into_node().as_ref() != Some(n) { return fail("P15-String-wrap", String::new()); },
        StringOSMObj::Way(n) => if StringOSMObj::from(n.clone()) != s || StringOSMObj::from(n.clone()).into_way().as_ref() != Some(n) { return fail("P15-String-wrap", String::new()); },
        StringOSMObj::Relation(n) => if StringOSMObj::from(n.clone()) != s || StringOSMObj::from(n.clone()).into_relation().as_ref() != Some(n) { return fail("P15-String-wrap", String::new()); },
    }
    deleg("P15-String", s, &m, r)?;
    #[cfg(osmio_verif)]
    {
        deleg("P15-Rc", rc_obj(&m), &m, r)?;
        deleg("P15-Arc", arc_obj(&m), &m, r)?;
    }
    Ok(())
}
pub fn p16(r: &mut Rng, _c: u64) -> Res {
    let k = any_kind(r);
    let m = gen_model(r, k, true);
    #[cfg(osmio_verif)]
    {
        let ck = |tag: &str, s: &StringOSMObj| -> Res {
            match diff(&m, &snap(s)) { None => Ok(()), Some((f, d)) => fail(&format!("P16-{tag}-{f}"), d) }
        };
        ck("RcOSMObj", &rc_obj(&m).into())?;
        ck("ArcOSMObj", &arc_obj(&m).into())?;
        match (rc_obj(&m), arc_obj(&m)) {
            (RcOSMObj::Node(a), ArcOSMObj::Node(b)) => { ck("RcNode", &StringOSMObj::Node(a.into()))?; ck("ArcNode", &StringOSMObj::Node(b.into()))?; }
            (RcOSMObj::Way(a), ArcOSMObj::Way(b)) => { ck("RcWay", &StringOSMObj::Way(a.into()))?; ck("ArcWay", &StringOSMObj::Way(b.into()))?; }
            (RcOSMObj::Relation(a), ArcOSMObj::Relation(b)) => { ck("RcRelation", &StringOSMObj::Relation(a.into()))?; ck("ArcRelation", &StringOSMObj::Relation(b.into()))?; }
            _ => return fail("P16-kind", String::new()),
        }
    }
    let _ = m;
    Ok(())
}
fn way_view<O: Way>(tag: &str, o: &mut O, r: &mut Rng) -> Res {
    let pre = o.nodes().to_vec();
    let mut v: Vec<i64> = (0..r.len()).map(|_| r.id()).collect();
    if !v.is_empty() && r.flip() { let f = v[0]; v.push(f); }
    if r.chance(1, 8) { v = pre.iter().copied().take(r.us(3)).collect(); }
    if r.flip() { o.set_nodes(v.iter().copied()) } else { o.set_nodes(v.clone()) }
    let d = |x: &str| format!("{x}: previous {pre:?} set {v:?} got {:?}", o.nodes());
    if o.nodes() != &v[..] || o.nids() != &v[..] { return fail(&format!("{tag}-nodes"), d("nodes")); }
    if o.num_nodes() != v.len() { return fail(&format!("{tag}-num-nodes"), d(&format!("num_nodes {}", o.num_nodes()))); }
    for i in 0..v.len() + 2 {
        if o.node(i) != v.get(i).copied() { return fail(&format!("{tag}-node"), d(&format!("node({i}) {:?}", o.node(i)))); }
    }
    if o.node(usize::MAX).is_some() { return fail(&format!("{tag}-node"), d("node(MAX)")); }
    let closed = !v.is_empty() && v[0] == v[v.len() - 1];
    if o.is_closed() != closed { return fail(&format!("{tag}-is-closed"), d("is_closed")); }
    for a in [None, Some("no"), Some("yes"), Some(""), Some("NO"), Some("no ")] {
        match a { None => o.unset_tag("area"), Some(x) => o.set_tag("area", x) }
        if o.is_area() != (closed && a != Some("no")) { return fail(&format!("{tag}-is-area"), format!("area={a:?} closed={closed}")); }
    }
    Ok(())
}
fn rel_view<O: Relation>(tag: &str, o: &mut O, r: &mut Rng) -> Res {
    let v: Vec<Mem> = (0..r.len()).map(|_| (any_kind(r), r.id(), anytext(r))).collect();
    if r.flip() { o.set_members(v.clone()) } else { o.set_members(v.iter().map(|x| (x.0, x.1, x.2.as_str()))) }
    let g: Vec<Mem> = o.members().map(|(t, i, x)| (t, i, x.to_string())).collect();
    if g != v { return fail(&format!("{tag}-members"), format!("set {v:?} got {g:?}")); }
    if o.members().len() != v.len() { return fail(&format!("{tag}-members-len"), format!("{}", o.members().len())); }
    Ok(())
}
pub fn p18(r: &mut Rng, c: u64) -> Res {
    let k = if c % 2 == 0 { OSMObjectType::Way } else { OSMObjectType::Relation };
    let m = gen_model(r, k, true);
    fn go<O: OSMObj>(fam: &str, mut o: O, r: &mut Rng) -> Res {
        for _ in 0..1 + r.us(4) {
            if let Some(w) = o.as_way_mut() { way_view(&format!("P18-{fam}Way"), w, r)?; }
            if let Some(w) = o.as_relation_mut() { rel_view(&format!("P18-{fam}Relation"), w, r)?; }
        }
        Ok(())
    }
    go("String", string_obj(&m), r)?;
    #[cfg(osmio_verif)]
    {
        go("Rc", rc_obj(&m), r)?;
        go("Arc", arc_obj(&m), r)?;
    }
    Ok(())
}
