//! C04, C13, C14, C26, C28: relations between differently stored spellings of
//! one document. Each compares two readings, so that it only speaks about its
//! own property.
use super::content::{base_cfg, sample};
use crate::r#gen::*;
use crate::pp::*;
use crate::run::*;
use crate::tape::Tape;
use crate::v::*;
use crate::wire::*;

fn all_kinds_cfg(t: &mut Tape) -> GenCfg {
    let mut c = base_cfg(t);
    c.w_elem = t.pick(&[[10, 2, 2, 1, 1, 1], [4, 4, 2, 2, 2, 1]]);
    c.tags = t.pick(&[3, 8]);
    c.embedded = t.pick(&[2, 6]);
    c
}
fn plain(f: &FileModel) -> Vec<u8> {
    encode(f, &mut Tape::empty(), WireCfg::PLAIN).bytes
}
/// The variants must be read like the reference.
fn same(want: &P<V>, got: &P<V>, sig: &str, a: &[u8], b: &[u8]) -> Option<Fail> {
    let f = |m: String| Some(Fail::new(sig, m).file("reference.one", a).file("variant.one", b));
    match (want, got) {
        (P::Ok(x), P::Ok(y)) => diff(x, y).into_iter().next().map(|d| f(format!("{}: {}", d.path, d.what)).unwrap()),
        (P::Ok(_), p) => f(format!("the reference is read, the variant is not: {}", p.bad().unwrap())),
        (p, P::Ok(_)) => f(format!("the variant is read, the reference is not: {}", p.bad().unwrap())),
        _ => None,
    }
}

// ---- C04 -----------------------------------------------------------------------
pub fn some_wire(t: &mut Tape) -> WireCfg {
    let mut c = WireCfg::ALL;
    if t.chance(2, 3) {
        // single freedoms, so that a failure names its cause
        let on = t.below(1 << 14);
        let b = |i: u32| on >> i & 1 == 1;
        c = WireCfg {
            widths: b(0),
            shuffle_props: b(1),
            extra_props: false,
            shuffle_elements: b(2),
            renumber: b(3),
            dup_local_ids: b(4),
            extra_elements: b(5),
            meta_blocks: b(6),
            fragments: b(7),
            packaging: b(8),
            mapping_forms: b(9),
            regroup: b(10),
            trailing: b(11),
            wide_serials: b(12),
            chaos: false,
            ambiguous: false,
        };
    }
    c.extra_props = false;
    c
}
fn stat_of(st: &WireStats, v: &V, mut key: u64) -> Stat {
    key ^= fnv(format!("{st:?}").as_bytes());
    let mut s = Stat::new(key, format!("{} elements, {:?} of {}", st.elements, st, sample(v)));
    let mut c = |n: &str, b: bool| {
        if b {
            s.classes.push(n.into())
        }
    };
    c("wide integers", st.wide_ints > 0);
    c("extended id forms", st.ex_forms[1..4].iter().any(|x| *x > 0));
    c("32-bit headers", st.hdr32 > 0);
    c("serial numbers", st.serials > 0);
    c("metadata blocks", st.meta_blocks > 0);
    c("fragments", st.fragments > 0);
    c("revision store packaging", st.non_legacy);
    c("shuffled properties", st.shuffled);
    c("extra elements", st.extra_elements > 0);
    c("repeated local ids", st.dup_ids > 0);
    c("other mapping forms", st.alt_mapping > 0);
    c(">= 8 groups", st.groups >= 8);
    s
}
fn c04(cx: &mut Cx) -> R {
    let mut cfg = all_kinds_cfg(&mut cx.x);
    cfg.big_blobs = cx.x.chance(1, 16);
    let wc = some_wire(&mut cx.x);
    let doc = gen_section(&mut cx.m, &cfg, &mut []);
    let a = plain(&doc.file);
    let e = encode(&doc.file, &mut cx.w, wc);
    let (x, y) = (buffer_v(&a, "a.one"), buffer_v(&e.bytes, "a.one"));
    if let Some(f) = same(&x, &y, "encoding", &a, &e.bytes) {
        return Err(f);
    }
    let Some(v) = x.ok() else { return Ok(Stat::trivial()) };
    if v.count("page") == 0 {
        return Ok(Stat::trivial());
    }
    Ok(stat_of(&e.stats, &v, v.hash()))
}
pub fn gen_toc(t: &mut Tape, names: &[&str]) -> TocNode {
    let n = t.n(names.len() + 1);
    let mut kids = vec![];
    for _ in 0..n {
        let name = names[t.n(names.len())];
        let leaf = TocNode { name: Some(name.into()), order: Some(t.u32b()), color: None, kids: vec![] };
        kids.push(if t.chance(1, 5) { TocNode { name: None, order: None, color: None, kids: vec![leaf] } } else { leaf });
    }
    TocNode { name: None, order: None, color: t.flip().then(|| t.raw()), kids }
}
fn c04_toc(cx: &mut Cx) -> R {
    let cfg = GenCfg::base();
    let d = cx.fresh_dir();
    let names = ["a.one", "b.one", "c.one"];
    for (i, n) in names.iter().enumerate() {
        let mut t = Tape::new(vec![i as u32 * 77_777_777; 40]);
        let doc = gen_section(&mut t, &cfg, &mut []);
        std::fs::write(d.join(n), plain(&doc.file)).expect("write");
    }
    let node = gen_toc(&mut cx.m, &names);
    let f = toc_file(&mut cx.m, &node, &cfg);
    let wc = some_wire(&mut cx.x);
    let a = plain(&f);
    let e = encode(&f, &mut cx.w, wc);
    let p = d.join("t.onetoc2");
    std::fs::write(&p, &a).expect("write");
    let x = notebook_v(&p);
    std::fs::write(&p, &e.bytes).expect("write");
    let y = notebook_v(&p);
    if let Some(f) = same(&x, &y, "encoding of a table of contents", &a, &e.bytes) {
        return Err(f);
    }
    let Some(v) = x.ok() else { return Ok(Stat::trivial()) };
    if v.get("entries").list().is_empty() {
        return Ok(Stat::trivial());
    }
    Ok(stat_of(&e.stats, &v, v.hash()).class("table of contents"))
}

// ---- C13 -----------------------------------------------------------------------
fn stale(t: &mut Tape, o: &Obj, ids: &[Ex]) -> Obj {
    let mut o = o.clone();
    match t.n(4) {
        // an older state of the same object
        0 | 1 => {
            for (_, v) in o.props.iter_mut() {
                if t.flip() {
                    *v = match v.clone() {
                        PV::Bool(b) => PV::Bool(!b),
                        PV::U8(x) => PV::U8(x ^ 1),
                        PV::U16(x) => PV::U16(x ^ 3),
                        PV::U32(x) => PV::U32(x.wrapping_add(1)),
                        PV::U64(x) => PV::U64(x.wrapping_add(1)),
                        PV::Vec(_) => PV::Vec(vec![0x41, 0]),
                        PV::Obj(_) => PV::Obj(t.pick(ids)),
                        PV::Objs(mut l) => {
                            if t.flip() { l.pop(); } else { l.push(t.pick(ids)) }
                            PV::Objs(l)
                        }
                        v => v,
                    };
                }
            }
        }
        2 => o.props.clear(),
        _ => {
            o.jcid = t.pick(&[jc::STYLE, jc::PAGE, jc::RICHTEXT, jc::AUTHOR, jc::TABLE, jc::SECTION]);
            o.props = junk_set(t, 1, ids, &[]);
            o.blob = None;
        }
    }
    o
}
/// Spreads the final state of a space over a chain of revisions.
fn split(t: &mut Tape, s: &Space, n: usize, st: &mut [u32; 5]) -> Space {
    let objs: Vec<Obj> = s.objs().cloned().collect();
    let ids: Vec<Ex> = objs.iter().map(|o| o.id).collect();
    let roots: Vec<(u32, Ex)> = s.revs.iter().flat_map(|r| r.roots.clone()).collect();
    let mut revs: Vec<(Vec<(u32, Ex)>, Vec<Obj>)> = vec![(vec![], vec![]); n];
    let mut last: std::collections::HashMap<Ex, usize> = Default::default();
    for o in &objs {
        let at = n - 1 - t.n(n);
        last.insert(o.id, at);
        for r in 0..at {
            if t.chance(1, 3) && revs[r].1.len() < 400 {
                let x = stale(t, o, &ids);
                revs[r].1.push(x);
                st[0] += 1;
            }
        }
        revs[at].1.push(o.clone());
        if at + 1 < n {
            st[1] += 1;
        }
    }
    for (role, id) in roots {
        let at = n - 1 - t.n(n);
        for r in 0..at {
            if t.flip() {
                revs[r].0.push((role, t.pick(&ids)));
                st[2] += 1;
            }
        }
        revs[at].0.push((role, id));
        if at + 1 < n {
            st[3] += 1;
        }
    }
    // objects nobody refers to
    for r in revs.iter_mut() {
        if t.chance(1, 6) {
            let mut o = stale(t, &t.clone().pick(&objs), &ids);
            o.id = Ex { g: t.guid(), v: 9999 };
            r.1.push(o);
        }
    }
    let mut revs: Vec<Rev> = revs
        .into_iter()
        .map(|(roots, objs)| {
            let k = 1 + t.n(3);
            let mut groups = vec![vec![]; k];
            for o in objs {
                let g = t.n(k);
                groups[g].push(o);
            }
            groups.retain(|g| !g.is_empty());
            Rev { roots, groups, again: vec![] }
        })
        .collect();
    // a newer revision lists a group of an older one as well
    for r in 1..revs.len().min(40) {
        if !t.chance(1, 4) {
            continue;
        }
        let b = r - 1 - t.n(r.min(3));
        for g in 0..revs[b].groups.len() {
            let ok = revs[b].groups[g].iter().all(|o| match last.get(&o.id) {
                Some(at) => *at > r || *at == b,
                None => true,
            });
            if ok && t.flip() {
                revs[r].again.push((b, g));
                st[4] += 1;
            }
        }
    }
    Space { cell: s.cell, revs }
}
fn c13(cx: &mut Cx) -> R {
    let mut cfg = all_kinds_cfg(&mut cx.x);
    let n = match cx.x.n(6) {
        0 | 1 => 2,
        2 => 3,
        3 => 2 + cx.x.n(4),
        4 => 2 + cx.x.n(12),
        _ => 10 + cx.x.n(60),
    };
    if n > 20 {
        cfg.budget = 10;
    }
    let doc = gen_section(&mut cx.m, &cfg, &mut []);
    let mut f = doc.file.clone();
    let mut st = [0; 5];
    let which = cx.x.n(3);
    if which != 1 {
        f.root = split(&mut cx.w, &f.root, n, &mut st);
    }
    if which != 2 {
        for s in f.spaces.iter_mut() {
            *s = split(&mut cx.w, s, n, &mut st);
        }
    }
    let wc = if cx.x.flip() { WireCfg::PLAIN } else { WireCfg::MILD };
    let a = plain(&doc.file);
    let e = encode(&f, &mut cx.w, wc);
    let (x, y) = (buffer_v(&a, "a.one"), buffer_v(&e.bytes, "a.one"));
    if let Some(f) = same(&x, &y, "revisions", &a, &e.bytes) {
        return Err(f);
    }
    let Some(v) = x.ok() else { return Ok(Stat::trivial()) };
    if v.count("page") == 0 || st.iter().all(|x| *x == 0) {
        return Ok(Stat::trivial());
    }
    let mut s = Stat::new(v.hash() ^ fnv(format!("{n} {st:?}").as_bytes()), format!("{n} revisions; overwritten objects, inherited objects, overwritten roots, inherited roots: {st:?}; {}", sample(&v)));
    for (c, b) in [
        ("overwritten objects", st[0] > 0),
        ("inherited objects", st[1] > 0),
        ("overwritten roots", st[2] > 0),
        ("inherited roots", st[3] > 0),
        ("groups listed again", st[4] > 0),
        (">= 5 revisions", n >= 5),
        (">= 20 revisions", n >= 20),
    ] {
        if b {
            s = s.class(c);
        }
    }
    Ok(s)
}

// ---- C14 -----------------------------------------------------------------------
/// Is this difference about which objects are where?
fn structural(d: &Diff) -> bool {
    d.what.contains(" items, got ") || d.kinds.iter().any(|k| !k.is_empty())
}
fn c14(cx: &mut Cx) -> R {
    let mut cfg = all_kinds_cfg(&mut cx.x);
    cfg.tags = cx.x.pick(&[6, 12]);
    cfg.lists = 5;
    cfg.embedded = 5;
    cfg.noise = cx.x.pick(&[8, 16]);
    let doc = gen_section(&mut cx.m, &cfg, &mut []);
    let want = want_for(&doc, "a.one");
    let a = plain(&doc.file);
    let x = buffer_v(&a, "a.one");
    let mut refs = 0usize;
    let mut mixed = false;
    for s in doc.file.spaces.iter().chain([&doc.file.root]) {
        for o in s.objs() {
            let n = o.props.iter().filter(|p| p.1.has_refs()).count();
            refs += n;
            mixed |= n >= 2;
        }
    }
    let mut kinds = vec![];
    for _ in 0..2 {
        let mut c = WireCfg::PLAIN;
        let k = cx.x.below(16);
        c.shuffle_props = k & 1 != 0 || k == 0;
        c.extra_props = k & 2 != 0;
        c.renumber = k & 4 != 0;
        c.dup_local_ids = k & 8 != 0;
        let e = encode(&doc.file, &mut cx.w, c);
        let y = buffer_v(&e.bytes, "a.one");
        if let Some(f) = same(&x, &y, "references", &a, &e.bytes) {
            return Err(f);
        }
        for (n, b) in [("property order", e.stats.shuffled), ("extra properties", e.stats.extra_props > 0), ("local ids", c.renumber), ("repeated local ids", e.stats.dup_ids > 0)] {
            if b {
                kinds.push(n);
            }
        }
    }
    match x {
        P::Ok(v) => {
            if let Some(d) = diff(&want, &v).into_iter().find(structural) {
                return Err(Fail::new("reference list", format!("{}: {}", d.path, d.what)).file("case.one", &a));
            }
            if !mixed {
                return Ok(Stat::trivial());
            }
            kinds.sort();
            kinds.dedup();
            let mut s = Stat::new(v.hash(), format!("{refs} reference properties; {}", sample(&v)));
            s.classes = kinds.into_iter().map(|k| k.to_string()).collect();
            Ok(s)
        }
        p if mixed => Err(Fail::new("not read", format!("a well-formed section is not read: {}", p.bad().unwrap())).file("case.one", &a)),
        _ => Ok(Stat::trivial()),
    }
}

// ---- C26 -----------------------------------------------------------------------
fn is_junk(id: u32) -> bool {
    (0x3900..0x3c00).contains(&(id & 0x3ff_ffff)) || (id & 0x3ff_ffff) >= 0x4000
}
fn strip_sets(p: &mut Vec<(u32, PV)>) {
    p.retain(|x| !is_junk(x.0));
    for (_, v) in p.iter_mut() {
        match v {
            PV::Sets(_, s) => s.iter_mut().for_each(strip_sets),
            PV::Set(s) => strip_sets(s),
            _ => {}
        }
    }
}
/// The same file without anything unknown.
fn without_unknown(f: &FileModel) -> (FileModel, u32) {
    let mut f = f.clone();
    let mut n = 0;
    for s in f.spaces.iter_mut() {
        let unknown: std::collections::HashMap<Ex, u32> = s.objs().map(|o| (o.id, o.jcid)).collect();
        for o in s.objs_mut() {
            let page = o.jcid == jc::PAGE;
            strip_sets(&mut o.props);
            for (id, v) in o.props.iter_mut() {
                let content = (page && *id == pid::ELEMENT_CHILDREN) || (o.jcid == jc::ELEMENT && *id == pid::CONTENT_CHILDREN);
                if let (true, PV::Objs(l)) = (content, v) {
                    l.retain(|x| {
                        let keep = matches!(
                            unknown.get(x).copied(),
                            Some(jc::OUTLINE | jc::RICHTEXT | jc::TABLE | jc::IMAGE | jc::FILE | jc::INK) | None
                        );
                        n += !keep as u32;
                        keep
                    });
                }
            }
        }
    }
    f.root.objs_mut().for_each(|o| strip_sets(&mut o.props));
    (f, n)
}
fn strip_v(v: &V) -> V {
    match v {
        V::L(l) => V::L(l.iter().filter(|x| x.str() != Some("Unknown") || false).map(strip_v).collect()),
        V::M(t, m) => V::M(t, m.iter().map(|(k, x)| (*k, if *k == "contents" { strip_v(x) } else { strip_in(x) })).collect()),
        v => v.clone(),
    }
}
/// Lists other than contents keep their items.
fn strip_in(v: &V) -> V {
    match v {
        V::L(l) => V::L(l.iter().map(strip_in).collect()),
        V::M(..) => strip_v(v),
        v => v.clone(),
    }
}
/// Where the unknown items are.
fn unknown_at(v: &V) -> Vec<Vec<usize>> {
    let mut r = vec![];
    v.visit(&mut |n| {
        let l: Vec<usize> = n.get("contents").list().iter().enumerate().filter(|x| x.1.str() == Some("Unknown")).map(|x| x.0).collect();
        if !l.is_empty() {
            r.push(l);
        }
    });
    r
}
fn c26(cx: &mut Cx) -> R {
    let mut cfg = all_kinds_cfg(&mut cx.x);
    cfg.w_page[4] = cx.x.pick(&[4, 0, 12]);
    cfg.w_elem[5] = cx.x.pick(&[4, 0, 12]);
    cfg.noise = cx.x.pick(&[12, 0, 16]);
    let doc = gen_section(&mut cx.m, &cfg, &mut []);
    let (known, unknowns) = without_unknown(&doc.file);
    let mut f = doc.file.clone();
    // objects of unknown kinds that only unknown properties refer to
    let mut extra = 0;
    for s in f.spaces.iter_mut().chain([&mut f.root]) {
        let ids: Vec<Ex> = s.objs().map(|o| o.id).collect();
        if cx.x.flip() && !ids.is_empty() {
            for _ in 0..1 + cx.w.n(3) {
                let id = Ex { g: cx.w.guid(), v: 123_456 };
                let jcid = cx.w.pick(&[0x00060abc, 0x0002_0fff, 0x0012_0123, 0xdead_beef, 0]);
                let o = Obj { id, jcid, props: junk_set(&mut cx.w, 2, &ids, &[]), blob: None, fixed: true, fault: 0 };
                let g = &mut s.revs[0].groups[0];
                let at = cx.w.n(g.len());
                g.insert(at, o);
                let k = cx.w.n(g.len());
                if !g[k].fixed && g[k].props.iter().all(|p| p.0 != 0x3b99) {
                    g[k].props.push((0x3b99, PV::Objs(vec![id])));
                }
                extra += 1;
            }
        }
    }
    let wc = WireCfg { extra_props: cx.x.flip(), shuffle_props: true, ..WireCfg::PLAIN };
    let a = plain(&known);
    let e = encode(&f, &mut cx.w, wc);
    let (x, y) = (buffer_v(&a, "a.one"), buffer_v(&e.bytes, "a.one"));
    let stripped = match &y {
        P::Ok(v) => P::Ok(strip_v(v)),
        p => p.clone(),
    };
    if let Some(f) = same(&x, &stripped, "rest of the document", &a, &e.bytes) {
        return Err(f);
    }
    let (Some(x), Some(y)) = (x.ok(), y.ok()) else { return Ok(Stat::trivial()) };
    let want = want_for(&doc, "a.one");
    if diff(&strip_v(&want), &x).iter().all(|d| !structural(d)) && unknown_at(&want) != unknown_at(&y) {
        return Err(Fail::new("unknown items", format!("unknown items expected at {:?}, got {:?}", unknown_at(&want), unknown_at(&y))).file("case.one", &e.bytes));
    }
    if unknowns == 0 && extra == 0 && e.stats.extra_props == 0 {
        return Ok(Stat::trivial());
    }
    let mut s = Stat::new(y.hash() ^ extra, format!("{unknowns} unknown items, {extra} unknown objects, {} unknown properties: {}", e.stats.extra_props, sample(&y)));
    for (c, b) in [("unknown items", unknowns > 0), ("unknown objects", extra > 0), ("unknown properties", e.stats.extra_props > 0)] {
        if b {
            s = s.class(c);
        }
    }
    Ok(s)
}

// ---- C28 -----------------------------------------------------------------------
fn pages(v: &V) -> Vec<V> {
    v.get("series").list().iter().flat_map(|s| s.get("pages").list().to_vec()).collect()
}
/// Only page `i` is left in the section.
fn only(f: &FileModel, i: usize) -> FileModel {
    let mut f = f.clone();
    let cell = f.spaces[i].cell;
    f.spaces = vec![f.spaces[i].clone()];
    for o in f.root.objs_mut() {
        for (id, v) in o.props.iter_mut() {
            if let (true, PV::Spaces(l)) = (*id == pid::CHILD_SPACES, v) {
                l.retain(|c| *c == cell);
            }
        }
    }
    f
}
fn c28(cx: &mut Cx) -> R {
    let mut cfg = all_kinds_cfg(&mut cx.x);
    cfg.budget = cx.x.pick(&[10, 25]);
    cfg.title = 10;
    let n = 2 + cx.x.n(3);
    let k = cx.x.n(n);
    let mut own: Vec<Tape> = cx.own[..n].to_vec();
    let mut other = own.clone();
    other[k] = cx.own[n].clone();
    let mut m2 = cx.m.clone();
    let a = gen_section(&mut cx.m, &cfg, &mut own);
    let b = gen_section(&mut m2, &cfg, &mut other);
    if a.file.spaces.len() < 2 {
        return Ok(Stat::trivial());
    }
    let wc = if cx.x.flip() { WireCfg::PLAIN } else { WireCfg::MILD };
    let (mut a, mut b) = (a, b);
    let revisions = if cx.x.chance(1, 3) { 2 + cx.x.n(4) } else { 1 };
    if revisions > 1 {
        for f in [&mut a.file, &mut b.file] {
            for s in f.spaces.iter_mut() {
                *s = split(&mut cx.x, s, revisions, &mut [0; 5]);
            }
        }
    }
    if cx.x.flip() && b.file.spaces.len() > 1 {
        // another version of some page, which nothing leads to
        let (from, of) = (cx.x.n(b.file.spaces.len()), cx.x.n(b.file.spaces.len()));
        let mut s = b.file.spaces[from].clone();
        s.cell = b.file.spaces[of].cell;
        s.cell.0.g[5] ^= 0x40;
        b.file.spaces.push(s);
    }
    let mut w2 = cx.w.clone();
    let (ea, eb) = (encode(&a.file, &mut cx.w, wc).bytes, encode(&b.file, &mut w2, wc).bytes);
    let (va, vb) = (buffer_v(&ea, "a.one"), buffer_v(&eb, "a.one"));
    let fail = |sig: &str, m: String, x: &[u8]| Err(Fail::new(sig, m).file("a.one", &ea).file("b.one", x));
    let used = a.file.spaces.len();
    // page k exists in both or in neither
    if let (P::Ok(x), P::Ok(y)) = (&va, &vb) {
        let (px, py) = (pages(x), pages(y));
        if px.len() == py.len() {
            for i in (0..px.len()).filter(|i| *i != k) {
                if let Some(d) = diff(&px[i], &py[i]).first() {
                    return fail("another page changes", format!("changing page {k} changes page {i}: {}: {}", d.path, d.what), &eb);
                }
            }
        }
        let strip = |v: &V| {
            let mut v = v.clone();
            if let V::M(_, m) = &mut v {
                m.retain(|x| x.0 != "series");
            }
            v
        };
        if strip(x) != strip(y) {
            return fail("the section changes", "changing a page changes the section's own attributes".into(), &eb);
        }
    }
    // each page on its own
    let mut alone_ok = true;
    for i in 0..used {
        let one = plain(&only(&a.file, i));
        match (&va, buffer_v(&one, "a.one")) {
            (P::Ok(x), P::Ok(y)) => {
                let (px, py) = (pages(x), pages(&y));
                if px.len() == used && py.len() == 1 {
                    if let Some(d) = diff(&py[0], &px[i]).first() {
                        return fail("page differs among others", format!("page {i} of {used} is reported differently when it is alone: {}: {}", d.path, d.what), &one);
                    }
                }
            }
            (P::Ok(_), p) => return fail("page not read alone", format!("page {i} is read among others, not alone: {}", p.bad().unwrap()), &one),
            (_, p) => alone_ok &= p.is_ok(),
        }
    }
    if let (Some(e), true) = (va.bad(), alone_ok) {
        return fail("pages not read together", format!("every page is read on its own, not together: {e}"), &[]);
    }
    // shared identifiers?
    let mut ids = std::collections::HashMap::new();
    for (i, s) in a.file.spaces.iter().enumerate() {
        for o in s.objs() {
            ids.entry(o.id).or_insert_with(std::collections::BTreeSet::new).insert(i);
        }
    }
    let shared = ids.values().filter(|s| s.len() > 1).count();
    if shared == 0 || !va.is_ok() {
        return Ok(Stat::trivial());
    }
    let v = va.ok().unwrap();
    Ok(Stat::new(v.hash() ^ k as u64, format!("{used} pages sharing {shared} object ids, page {k} changed: {}", sample(&v)))
        .class(format!("{used} pages"))
        .class(if k < used { "page changed" } else { "no page changed" })
        .class(if revisions > 1 { "several revisions" } else { "one revision" }))
}

pub fn checks() -> Vec<Check> {
    let mk = |id, rule, parts| Check {
        id,
        rule,
        parts,
        assumptions: &["the container writer in harness/src/wire.rs only produces spellings the format allows"],
    };
    vec![
        mk(
            "C04",
            "one generated object model written twice: plainly, and with generated encoding choices; the two readings must agree; non-trivial: has a page (or notebook entry)",
            vec![
                part("section", &[3000, 4000, 40], 80000, 1200000, c04),
                part("toc", &[200, 600, 20], 16000, 200000, c04_toc),
            ],
        ),
        mk(
            "C13",
            "one generated object model written as a single revision and as chains of 2 to 70 revisions with stale objects and roots, spread over groups; the readings must agree; non-trivial: something inherited or overwritten, and a page",
            vec![part("revisions", &[2500, 4000, 20], 70000, 900000, c13)],
        ),
        mk(
            "C14",
            "one generated object model written plainly and with other property orders, unrelated properties (of every type, nested, with references) and local id numberings; the readings must agree and have the expected structure; non-trivial: an object with two reference properties",
            vec![part("references", &[3000, 4000, 20], 60000, 800000, c14)],
        ),
        mk(
            "C26",
            "a generated section with unknown items, properties and objects, and the same section without them; the readings must agree apart from unknown items at their positions; non-trivial: something unknown present",
            vec![part("unknown", &[3000, 3000, 40], 80000, 1000000, c26)],
        ),
        mk(
            "C28",
            "sections of 2 to 4 pages that reuse object identifiers; one page's content is regenerated, and each page is also read alone; non-trivial: an identifier used by two pages",
            vec![part("pages", &[400, 2500, 600, 800, 800, 800, 800, 800], 40000, 500000, c28)],
        ),
    ]
}
