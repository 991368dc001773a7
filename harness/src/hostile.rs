//! Adversarial file models: well-formed containers around content that
//! repeats, nests or contains itself.
use crate::r#gen::*;
use crate::tape::Tape;
use crate::wire::*;
use std::collections::BTreeMap;

pub fn ex(v: u32) -> Ex {
    Ex { g: SHARED_BASE, v }
}
/// A minimal object of the given kind with the given children.
pub fn obj(v: u32, jcid: u32, kids: &[u32]) -> Obj {
    let k = |p: u32| (p, PV::Objs(kids.iter().map(|x| ex(*x)).collect()));
    let time = (pid::LAST_MODIFIED, PV::U32(1));
    let level = (pid::CHILD_LEVEL, PV::U8(1));
    let ind = (pid::INDENTS, PV::Vec(vec![0; 4]));
    let props = match jcid {
        jc::PAGE => vec![k(pid::ELEMENT_CHILDREN)],
        jc::OUTLINE => vec![time, k(pid::ELEMENT_CHILDREN), level, ind],
        jc::GROUP => vec![time, k(pid::ELEMENT_CHILDREN), level],
        jc::TABLE => vec![time, k(pid::ELEMENT_CHILDREN), (pid::ROW_COUNT, PV::U32(1)), (pid::COL_COUNT, PV::U32(1))],
        jc::ROW => vec![k(pid::ELEMENT_CHILDREN)],
        jc::CELL => vec![k(pid::ELEMENT_CHILDREN), ind],
        jc::TITLE => vec![time, k(pid::ELEMENT_CHILDREN), (pid::OFFSET_H, PV::U32(0)), (pid::OFFSET_V, PV::U32(0))],
        jc::ELEMENT => vec![
            (pid::CREATION_TIME, PV::U32(1)),
            time,
            level,
            (pid::AUTHOR_ORIGINAL, PV::Obj(ex(1))),
            (pid::AUTHOR_RECENT, PV::Obj(ex(1))),
        ],
        jc::RICHTEXT => vec![time, (pid::PARA_STYLE, PV::Obj(ex(2)))],
        jc::INK => vec![(pid::INK_DATA, PV::Obj(ex(kids.first().copied().unwrap_or(1))))],
        jc::INK_DATA => vec![k(pid::INK_STROKES)],
        jc::STROKE => vec![(pid::INK_PATH, PV::Vec(multibyte(&[1, 2]))), (pid::INK_BIAS, PV::U8(0)), (pid::INK_PROPS, PV::Obj(ex(3)))],
        jc::PEN => {
            let mut d = vec![];
            for g in ["598a6a8f-52c0-4ba0-93af-af357411a561", "b53f9f75-04e0-4498-a7ee-c30dbb5a9011"] {
                d.extend(guid(g));
                d.extend([0; 16]);
            }
            vec![(pid::INK_HEIGHT, PV::U32(0)), (pid::INK_WIDTH, PV::U32(0)), (pid::INK_DIMS, PV::Vec(d))]
        }
        _ => vec![],
    };
    Obj { id: ex(v), jcid, props, blob: None, fixed: false, fault: 0 }
}
pub fn element(v: u32, contents: &[u32], kids: &[u32]) -> Obj {
    let mut o = obj(v, jc::ELEMENT, &[]);
    if !contents.is_empty() {
        o.props.push((pid::CONTENT_CHILDREN, PV::Objs(contents.iter().map(|x| ex(*x)).collect())));
    }
    if !kids.is_empty() {
        o.props.push((pid::ELEMENT_CHILDREN, PV::Objs(kids.iter().map(|x| ex(*x)).collect())));
    }
    o
}

/// One series with one page whose content list is `top` and whose objects
/// (besides author 1, style 2, pen 3) are `objs`.
pub fn one_page(mut objs: Vec<Obj>, top: &[u32]) -> FileModel {
    let mut t = Tape::new(vec![]);
    let mut c = GenCfg::base();
    c.pages = 1;
    let mut own = [Tape::empty()];
    let mut f = gen_section(&mut t, &c, &mut own).file;
    if f.spaces.is_empty() {
        unreachable!("one page expected");
    }
    objs.push(obj(1, jc::AUTHOR, &[]));
    objs.push(obj(2, jc::STYLE, &[]));
    objs.push(obj(3, jc::PEN, &[]));
    let pg = &mut f.spaces[0];
    pg.revs[0].roots.iter_mut().for_each(|r| r.1.v += 900_000);
    let g = &mut pg.revs[0].groups[0];
    for o in g.iter_mut() {
        if o.jcid == jc::PAGE {
            o.props.retain(|(i, _)| *i != pid::ELEMENT_CHILDREN);
            o.props.push((pid::ELEMENT_CHILDREN, PV::Objs(top.iter().map(|x| ex(*x)).collect())));
        }
        // keep clear of our numbers
        let mv = |e: &mut Ex| e.v += 900_000;
        mv(&mut o.id);
        for (i, p) in o.props.iter_mut() {
            if o.jcid == jc::PAGE && *i == pid::ELEMENT_CHILDREN {
                continue;
            }
            match p {
                PV::Obj(e) => mv(e),
                PV::Objs(l) => l.iter_mut().for_each(mv),
                _ => {}
            }
        }
    }
    g.extend(objs);
    f
}

/// Chain of `depth` nested levels, alternating the given level kinds
/// (0 element child, 1 group child, 2 table in element).
pub fn chain(kinds: &[u8], depth: u32, fan: usize, close: bool) -> FileModel {
    let mut objs = vec![];
    let mut n = 10;
    let mut at = n; // id of the current item
    objs.push(obj(5, jc::OUTLINE, &[at]));
    for d in 0..depth {
        let last = d + 1 == depth;
        let mut next = n + 10;
        if last && close {
            next = 10;
        }
        // a group or an element is needed at `at`
        let kids: Vec<u32> = vec![next; if last && !close { 0 } else { fan }];
        match kinds[d as usize % kinds.len()] {
            0 => objs.push(element(at, &[], &kids)),
            1 => objs.push(obj(at, jc::GROUP, &kids)),
            _ => {
                objs.push(element(at, &[at + 1], &[]));
                objs.push(obj(at + 1, jc::TABLE, &[at + 2]));
                objs.push(obj(at + 2, jc::ROW, &[at + 3]));
                // cells hold elements only
                objs.push(obj(at + 3, jc::CELL, &[at + 4]));
                objs.push(element(at + 4, &[], &kids));
            }
        }
        n += 10;
        at = n;
    }
    one_page(objs, &[5])
}

/// A property set nested `depth` times below an unknown property.
pub fn nested_sets(depth: usize, sets: bool) -> FileModel {
    let mut v = PV::U8(1);
    for _ in 0..depth {
        v = if sets { PV::Sets(0x44000811, vec![vec![(0x3b00, v)]]) } else { PV::Set(vec![(0x3b00, v)]) };
    }
    let mut f = one_page(vec![], &[]);
    f.spaces[0].objs_mut().next().unwrap().props.push((0x3b01, v));
    f
}

/// A table of contents whose containers form the given graph.
pub fn toc_graph(kids: &[Vec<u32>]) -> FileModel {
    let objs = kids
        .iter()
        .enumerate()
        .map(|(i, k)| Obj {
            id: ex(10 + i as u32),
            jcid: jc::TOC,
            props: vec![(pid::TOC_CHILDREN, PV::Objs(k.iter().map(|x| ex(10 + x)).collect()))],
            blob: None,
            fixed: false,
            fault: 0,
        })
        .collect();
    let g = SHARED_BASE;
    FileModel {
        schema: guid(TOC_SCHEMA),
        root: Space { cell: (Ex { g, v: 1 }, Ex { g, v: 2 }), revs: vec![Rev { roots: vec![(1, ex(10))], groups: vec![objs], again: vec![] }] },
        spaces: vec![],
        blobs: BTreeMap::new(),
    }
}

/// n references at every level of page series -> pages -> contents -> ...
pub fn fan_out(n: usize, levels: u32) -> FileModel {
    let rep = |x: u32| vec![x; n];
    let objs = match levels {
        0 => vec![obj(5, jc::INK, &[6]), obj(6, jc::INK_DATA, &rep(7)), obj(7, jc::STROKE, &[])],
        1 => vec![obj(5, jc::OUTLINE, &rep(6)), element(6, &rep(7), &[]), obj(7, jc::RICHTEXT, &[])],
        2 => vec![
            obj(5, jc::OUTLINE, &rep(6)),
            element(6, &rep(7), &[]),
            obj(7, jc::TABLE, &rep(8)),
            obj(8, jc::ROW, &rep(9)),
            obj(9, jc::CELL, &rep(10)),
            element(10, &[], &[]),
        ],
        _ => vec![obj(5, jc::OUTLINE, &rep(6)), element(6, &[], &rep(7)), element(7, &[], &rep(8)), element(8, &[], &[])],
    };
    let mut f = one_page(objs, &rep(5));
    let cell = f.spaces[0].cell;
    let mut series = NIL;
    for o in f.root.objs_mut() {
        if o.jcid == jc::SERIES {
            series = o.id;
            for (i, p) in o.props.iter_mut() {
                if *i == pid::CHILD_SPACES {
                    *p = PV::Spaces(vec![cell; n]);
                }
            }
        }
    }
    for o in f.root.objs_mut() {
        if o.jcid == jc::SECTION {
            for (i, p) in o.props.iter_mut() {
                if *i == pid::ELEMENT_CHILDREN {
                    *p = PV::Objs(vec![series; n]);
                }
            }
        }
    }
    f
}

/// A draw from all of the above.
pub fn any(t: &mut Tape) -> (FileModel, &'static str) {
    match t.n(7) {
        0 => {
            let k = 1 + t.n(3);
            let kinds: Vec<u8> = (0..k).map(|_| t.n(3) as u8).collect();
            let d = 1 + t.n(6) as u32;
            (chain(&kinds, d, 1 + t.n(3), true), "cycle")
        }
        1 => {
            let k = 1 + t.n(3);
            let kinds: Vec<u8> = (0..k).map(|_| t.n(3) as u8).collect();
            let d = t.pick(&[1u32, 5, 20, 60, 99, 101, 300, 1200]);
            (chain(&kinds, d, 1, false), "deep")
        }
        2 => {
            let k = 1 + t.n(3);
            let kinds: Vec<u8> = (0..k).map(|_| t.n(3) as u8).collect();
            let d = 1 + t.n(40) as u32;
            (chain(&kinds, d, 2 + t.n(4), false), "shared")
        }
        3 => (nested_sets(t.pick(&[1usize, 8, 31, 33, 100, 1000, 3000]), t.flip()), "sets"),
        4 => {
            let n = 1 + t.n(12);
            let kids = (0..n).map(|_| (0..t.n(4)).map(|_| t.n(n) as u32).collect()).collect::<Vec<_>>();
            (toc_graph(&kids), "toc-graph")
        }
        5 => {
            let n = t.pick(&[2usize, 15, 30, 200]);
            (fan_out(n, t.n(4) as u32), "fan-out")
        }
        _ => {
            let n = t.pick(&[50usize, 400, 4000]);
let kids: Vec<Vec<u32>> = (0..n as u32).map(|i| vec![i + 1]).chain([vec![]]).collect();
            (toc_graph(&kids), "toc-chain")
        }
    }
}

/// Documents that grow in one direction; `k` is the size.
pub const FAMILIES: [&str; 34] = [
    "pages", "series", "paragraphs", "runs", "tags", "properties", "property sets", "rows", "cells", "strokes", "points", "revisions",
    "groups", "spaces", "elements", "blobs", "images of one blob", "toc entries", "text", "blob", "reference list", "unused objects",
    "list markers", "spaces of one revision", "styles", "embedded ink", "table of contents levels", "fan-out", "revision chain shared",
    "wide object", "nested groups", "nil references", "runs with data", "tags beside spaces",
];
pub fn family(i: usize, k: usize) -> FileModel {
    let n = k as u32;
    let ids = |from: u32, n: u32| -> Vec<u32> { (from..from + n).collect() };
    let text = |v: u32, len: usize| {
        let mut o = obj(v, jc::RICHTEXT, &[]);
        o.props.push((pid::TEXT, PV::Vec([0x61, 0].repeat(len))));
        o
    };
    match FAMILIES[i] {
        "pages" => {
            let mut f = one_page(vec![obj(5, jc::OUTLINE, &[])], &[5]);
            let p = f.spaces[0].clone();
            let mut cells = vec![p.cell];
            for j in 1..n {
                let mut q = p.clone();
                q.cell.1.v += j * 7;
                cells.push(q.cell);
                f.spaces.push(q);
            }
            for o in f.root.objs_mut() {
                for (i, p) in o.props.iter_mut() {
                    if *i == pid::CHILD_SPACES {
                        *p = PV::Spaces(cells.clone());
                    }
                }
            }
            f
        }
        "series" => {
            let mut f = one_page(vec![], &[]);
            let g = &mut f.root.revs[0].groups[0];
            let mut s = g.iter().find(|o| o.jcid == jc::SERIES).unwrap().clone();
            s.props.retain(|p| p.0 != pid::CHILD_SPACES);
            let mut all = vec![];
            for j in 0..n {
                s.id = ex(500_000 + j);
                all.push(s.id);
                g.push(s.clone());
            }
            for o in g.iter_mut() {
                if o.jcid == jc::SECTION {
                    for (i, p) in o.props.iter_mut() {
                        if *i == pid::ELEMENT_CHILDREN {
                            *p = PV::Objs(all.clone());
                        }
                    }
                }
            }
            f
        }
        "paragraphs" => {
            let mut o = vec![obj(5, jc::OUTLINE, &ids(100, n))];
            for j in 0..n {
                o.push(element(100 + j, &[100_000 + j], &[]));
                o.push(text(100_000 + j, 5));
            }
            one_page(o, &[5])
        }
        "runs" | "styles" => {
            let mut t = text(6, k);
            let own = FAMILIES[i] == "styles";
            t.props.push((pid::RUN_FORMATTING, PV::Objs((0..n).map(|j| ex(if own { 100 + j } else { 2 })).collect())));
            t.props.push((pid::RUN_INDEX, PV::Vec((1..n).flat_map(|j| j.to_le_bytes()).collect())));
            let mut o = vec![element(5, &[6], &[]), obj(4, jc::OUTLINE, &[5]), t];
            if own {
                o.extend((0..n).map(|j| obj(100 + j, jc::STYLE, &[])));
            }
            one_page(o, &[4])
        }
        "tags" => {
            let mut t = text(6, 3);
            let tag = vec![(pid::TAG_DEF, PV::Obj(ex(7))), (pid::TAG_CREATED, PV::U32(1)), (pid::TAG_STATUS, PV::U16(0))];
            t.props.push((pid::NOTE_TAGS, PV::Sets(0x44000811, vec![tag; k])));
            let mut d = obj(7, jc::TAGDEF, &[]);
            d.props = vec![
                (pid::TAGDEF_LABEL, PV::Vec(vec![0x61, 0, 0, 0])),
                (pid::TAGDEF_STATUS, PV::U32(0)),
                (pid::TAGDEF_SHAPE, PV::U16(0)),
                (pid::TAGDEF_TYPE, PV::U16(0)),
            ];
            one_page(vec![element(5, &[6], &[]), obj(4, jc::OUTLINE, &[5]), t, d], &[4])
        }
        "properties" => {
            let mut f = one_page(vec![], &[]);
            let o = f.spaces[0].objs_mut().find(|o| o.jcid == jc::PAGE).unwrap();
            for j in 0..n.min(60000) {
                o.props.push((0x5000 + j, PV::Obj(ex(1))));
            }
            f
        }
        "wide object" => {
            // many properties before the ones that hold references
            let mut e = element(5, &[6], &[]);
            for j in 0..n.min(60000) {
                e.props.insert(0, (0x5000 + j, PV::Objs(vec![ex(1), ex(2)])));
            }
            one_page(vec![e, obj(4, jc::OUTLINE, &[5]), text(6, 3)], &[4])
        }
        "property sets" => {
            let mut f = one_page(vec![], &[]);
            let o = f.spaces[0].objs_mut().find(|o| o.jcid == jc::PAGE).unwrap();
            o.props.push((0x5000, PV::Sets(0x44005001, vec![vec![(0x5002, PV::Obj(ex(1)))]; k])));
            f
        }
        "rows" | "cells" => {
            let per_row = if FAMILIES[i] == "rows" { 1 } else { n };
            let rows = if FAMILIES[i] == "rows" { n } else { 1 };
            let mut t = obj(6, jc::TABLE, &ids(1000, rows));
            t.props.retain(|p| p.0 != pid::ROW_COUNT && p.0 != pid::COL_COUNT);
            t.props.push((pid::ROW_COUNT, PV::U32(rows)));
            t.props.push((pid::COL_COUNT, PV::U32(per_row)));
            let mut o = vec![element(5, &[6], &[]), obj(4, jc::OUTLINE, &[5]), t];
            for r in 0..rows {
                o.push(obj(1000 + r, jc::ROW, &ids(200_000 + r * per_row, per_row)));
                for c in 0..per_row {
                    o.push(obj(200_000 + r * per_row + c, jc::CELL, &[]));
                }
            }
            one_page(o, &[4])
        }
        "strokes" => {
            let mut o = vec![obj(5, jc::INK, &[6]), obj(6, jc::INK_DATA, &ids(1000, n))];
            o.extend((0..n).map(|j| obj(1000 + j, jc::STROKE, &[])));
            one_page(o, &[5])
        }
        "points" => {
            let mut s = obj(7, jc::STROKE, &[]);
            s.props.retain(|p| p.0 != pid::INK_PATH);
            s.props.push((pid::INK_PATH, PV::Vec(multibyte(&vec![3; 2 * k]))));
            one_page(vec![obj(5, jc::INK, &[6]), obj(6, jc::INK_DATA, &[7]), s], &[5])
        }
        "revisions" => {
            let mut f = one_page(vec![], &[]);
            for j in 0..n {
                let r = Rev { roots: vec![], groups: vec![vec![obj(1000 + j, jc::AUTHOR, &[])]], again: vec![] };
                f.spaces[0].revs.insert(0, r);
            }
            f
        }
        "groups" => {
            let mut f = one_page(vec![], &[]);
            f.spaces[0].revs[0].groups.extend((0..n).map(|j| vec![obj(1000 + j, jc::AUTHOR, &[])]));
            f
        }
        "spaces" => {
            let mut f = one_page(vec![], &[]);
            for j in 0..n {
                f.spaces.push(Space { cell: (ex(5000 + j), ex(900_000 + j)), revs: vec![Rev { roots: vec![], groups: vec![vec![obj(1, jc::AUTHOR, &[])]], again: vec![] }] });
            }
            f
        }
        "elements" | "blobs" => {
            let mut f = one_page(vec![], &[]);
            for j in 0..n {
                f.blobs.insert(Ex { g: [4; 16], v: 1 + j }, vec![7; if FAMILIES[i] == "blobs" { 200 } else { 0 }]);
            }
            f
        }
        "images of one blob" => {
            let b = Ex { g: [4; 16], v: 1 };
            let mut o = vec![];
            for j in 0..n {
                let mut im = obj(1000 + j, jc::IMAGE, &[]);
                im.props.push((pid::LAST_MODIFIED, PV::U32(1)));
                im.props.push((pid::PICTURE, PV::Obj(ex(500_000 + j))));
                let mut p = obj(500_000 + j, jc::PICTURE, &[]);
                p.blob = Some(b);
                o.push(im);
                o.push(p);
            }
            let mut f = one_page(o, &ids(1000, n));
            f.blobs.insert(b, vec![9; 40 * k]);
            f
        }
        "blob" => {
            let mut f = one_page(vec![], &[]);
            f.blobs.insert(Ex { g: [4; 16], v: 1 }, vec![9; 100 * k]);
            f
        }
        "toc entries" => {
            let mut f = toc_graph(&std::iter::once(ids(1, n)).chain((0..n).map(|_| vec![])).collect::<Vec<_>>());
            for (j, o) in f.root.objs_mut().enumerate().skip(1) {
                let name: Vec<u8> = format!("none{j}\0").encode_utf16().flat_map(|c| c.to_le_bytes()).collect();
                o.props.push((pid::TOC_NAME, PV::Vec(name)));
                o.props.push((pid::TOC_ORDER, PV::U32((j as u32).wrapping_mul(77_777))));
            }
            f
        }
        "table of contents levels" => toc_graph(&(0..n).map(|i| vec![i + 1]).chain([vec![]]).collect::<Vec<_>>()),
        "text" => one_page(vec![element(5, &[6], &[]), obj(4, jc::OUTLINE, &[5]), text(6, 20 * k)], &[4]),
        "reference list" => {
            let mut f = one_page(vec![], &[]);
            let o = f.spaces[0].objs_mut().find(|o| o.jcid == jc::PAGE).unwrap();
            o.props.insert(0, (0x5000, PV::Objs(vec![ex(1); k])));
            f
        }
        "nil references" => {
            let mut f = one_page(vec![], &[]);
            let o = f.spaces[0].objs_mut().find(|o| o.jcid == jc::PAGE).unwrap();
            o.props.push((0x5000, PV::Objs(vec![NIL; k])));
            f
        }
        "unused objects" => one_page((0..n).map(|j| obj(1000 + j, jc::AUTHOR, &[])).collect(), &[]),
        "list markers" => {
            let mut e = element(5, &[], &[]);
            e.props.push((pid::LIST_NODES, PV::Objs(ids(1000, n).into_iter().map(ex).collect())));
            let mut o = vec![e, obj(4, jc::OUTLINE, &[5])];
            for j in 0..n {
                let mut l = obj(1000 + j, jc::LIST, &[]);
                l.props = vec![(pid::LAST_MODIFIED, PV::U32(1)), (pid::LIST_FORMAT, PV::Vec(vec![1, 0, 0x61, 0]))];
                o.push(l);
            }
            one_page(o, &[4])
        }
        "spaces of one revision" | "revision chain shared" => {
            // k cells whose pages repeat k objects (by copies; the container
            // writer does not share revisions)
            let m = (k as f64).sqrt() as u32 + 1;
            let mut f = one_page((0..m).map(|j| obj(1000 + j, jc::AUTHOR, &[])).collect(), &[]);
            let p = f.spaces[0].clone();
            for j in 0..m {
                let mut q = p.clone();
                q.cell.1.v += 1 + j;
                f.spaces.push(q);
            }
            f
        }
        "embedded ink" => {
            let mut t = text(6, 3);
            t.props.push((pid::RUN_FORMATTING, PV::Objs(vec![ex(8); k.min(3)])));
            t.props.push((pid::RUN_DATA, PV::Sets(0x44000811, vec![vec![]; k])));
            let mut s = obj(8, jc::STYLE, &[]);
            s.props.push((pid::IS_EMBEDDED, PV::Bool(true)));
            one_page(vec![element(5, &[6], &[]), obj(4, jc::OUTLINE, &[5]), t, s], &[4])
        }
        "runs with data" => {
            // every run has a style and data of its own
            let mut t = text(6, k);
            t.props.push((pid::RUN_FORMATTING, PV::Objs(ids(100, n).into_iter().map(ex).collect())));
            t.props.push((pid::RUN_INDEX, PV::Vec((1..n).flat_map(|j| j.to_le_bytes()).collect())));
            t.props.push((pid::RUN_DATA, PV::Sets(0x44000811, vec![vec![]; k])));
            let mut o = vec![element(5, &[6], &[]), obj(4, jc::OUTLINE, &[5]), t];
            o.extend((0..n).map(|j| obj(100 + j, jc::STYLE, &[])));
            one_page(o, &[4])
        }
        "tags beside spaces" => {
            // many tags on an object that refers to many object spaces
            let mut t = text(6, 3);
            let tag = vec![(pid::TAG_DEF, PV::Obj(ex(7))), (pid::TAG_CREATED, PV::U32(1)), (pid::TAG_STATUS, PV::U16(0))];
            t.props.push((pid::NOTE_TAGS, PV::Sets(0x44000811, vec![tag; k])));
            let mut d = obj(7, jc::TAGDEF, &[]);
            d.props = vec![
                (pid::TAGDEF_LABEL, PV::Vec(vec![0x61, 0, 0, 0])),
                (pid::TAGDEF_STATUS, PV::U32(0)),
                (pid::TAGDEF_SHAPE, PV::U16(0)),
                (pid::TAGDEF_TYPE, PV::U16(0)),
            ];
            let mut f = one_page(vec![element(5, &[6], &[]), obj(4, jc::OUTLINE, &[5]), t, d], &[4]);
            let cell = f.spaces[0].cell;
            let t = f.spaces[0].objs_mut().find(|o| o.jcid == jc::RICHTEXT).unwrap();
            t.props.push((0x5000, PV::Spaces(vec![cell; k])));
            f
        }
        "fan-out" => fan_out(k.min(15), (k % 4) as u32),
        "nested groups" => {
            let d = n.min(90);
            chain(&[1, 0], d, 1, false)
        }
        _ => unreachable!(),
    }
}
