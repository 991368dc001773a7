//! Damaged, crafted and random inputs for the robustness checks.
use crate::checks::content::base_cfg;
use crate::checks::wire::some_wire;
use crate::r#gen::*;
use crate::hostile;
use crate::run::Cx;
use crate::tape::Tape;
use crate::wire::*;
use std::path::{Path, PathBuf};
use std::sync::OnceLock;

pub struct Damaged {
    pub bytes: Vec<u8>,
    pub toc: bool,
    pub kind: String,
    /// Not touched by any damage.
    pub intact: bool,
}

/// Bytes that lie about what follows.
fn wild_bytes(t: &mut Tape) -> Vec<u8> {
    let k = t.n(6);
    match k {
        0 => vec![t.u8b()],
        1 => t.u16b().to_le_bytes().to_vec(),
        2 => t.pick(&[0u32, 1, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0x0100_0000, 0x3fff_ffff]).to_le_bytes().to_vec(),
        3 => t.u32b().to_le_bytes().to_vec(),
        4 => {
            let mut v = vec![0x80];
            v.extend(t.u64b().to_le_bytes());
            v
        }
        _ => {
            let n = 1 + t.n(16);
            t.bytes(n)
        }
    }
}
pub fn mutate_bytes(t: &mut Tape, b: &mut Vec<u8>, times: usize) {
    // half the time near the front or the back, where the structure is dense
    for _ in 0..times {
        if b.is_empty() {
            return;
        }
        let n = b.len();
        let i = match t.n(4) {
            0 => t.n(n.min(400)),
            1 => n - 1 - t.n(n.min(400)),
            _ => t.n(n),
        };
        match t.n(9) {
            0 => b[i] ^= 1 << t.n(8),
            1 => b[i] = t.pick(&[0, 1, 0x7f, 0x80, 0xff, 5, 0x15, 2, 3]),
            2 | 3 => {
                let w = wild_bytes(t);
                for (k, x) in w.iter().enumerate() {
                    if i + k < b.len() {
                        b[i + k] = *x;
                    }
                }
            }
            4 => {
                let e = (i + 1 + t.n(24)).min(n);
                b.drain(i..e);
            }
            5 => {
                let w = wild_bytes(t);
                b.splice(i..i, w);
            }
            6 => {
                // repeat a stretch
                let e = (i + 1 + t.n(200)).min(n);
                let c = b[i..e].to_vec();
                b.splice(i..i, c);
            }
            7 => {
                // copy a stretch elsewhere
                let e = (i + 1 + t.n(40)).min(n);
                let c = b[i..e].to_vec();
                let at = t.n(n);
                for (k, x) in c.iter().enumerate() {
                    if at + k < b.len() {
                        b[at + k] = *x;
                    }
                }
            }
            _ => {
                if t.chance(1, 3) {
                    b.truncate(i)
                } else {
                    b[i] = t.raw() as u8
                }
            }
        }
    }
}

pub const KNOWN: [u32; 30] = [
    jc::SECTION, jc::SERIES, jc::SECTION_META, jc::PAGE_META, jc::PAGE_MANIFEST, jc::PAGE, jc::TITLE, jc::OUTLINE, jc::ELEMENT, jc::GROUP,
    jc::RICHTEXT, jc::STYLE, jc::TAGDEF, jc::TABLE, jc::ROW, jc::CELL, jc::IMAGE, jc::PICTURE, jc::XPS, jc::IFRAME, jc::FILE,
    jc::FILE_CONTAINER, jc::INK, jc::INK_DATA, jc::STROKE, jc::PEN, jc::LIST, jc::AUTHOR, jc::TOC, jc::REVMETA,
];
fn wild_value(t: &mut Tape, v: &PV, ids: &[Ex], cells: &[Cell]) -> PV {
    if t.chance(1, 4) {
        return junk_value(t, 2, ids, cells);
    }
    if t.chance(1, 6) {
        // declares more than there is, or an undefined type
        let code = t.pick(&[7u32, 9, 0xb, 0xd, 0x10, 0x11, 0xe, 0xf, 0, 0x12, 0x1f, 2]);
        let mut b = t.pick(&[0xffff_ffffu32, 0x7fff_ffff, 0x1000_0000, 0x10_0000, 5000, 3, 0]).to_le_bytes().to_vec();
        let n = t.n(40);
        b.extend(t.bytes(n));
        return PV::Raw(code, b);
    }
    match v.clone() {
        PV::Bool(b) => PV::Bool(!b),
        PV::U8(_) => PV::U8(t.raw() as u8),
        PV::U16(_) => PV::U16(t.raw() as u16),
        PV::U32(_) => PV::U32(t.u32b()),
        PV::U64(_) => PV::U64(t.u64b()),
        PV::Vec(mut b) => {
            match t.n(5) {
                0 => {
                    let n = t.n(b.len() + 1);
                    b.truncate(n)
                }
                1 => {
                    let n = t.n(40);
                    b.extend(t.bytes(n))
                }
                2 => {
                    let n = t.n(30);
                    b = t.bytes(n)
                }
                3 => b.iter_mut().for_each(|x| *x |= 0x80),
                _ => mutate_bytes(t, &mut b, 2),
            }
            PV::Vec(b)
        }
        PV::Obj(_) => PV::Obj(t.pick(ids)),
        PV::Objs(mut l) => {
            match t.n(4) {
                0 => l.push(t.pick(ids)),
                1 => {
                    l.pop();
                }
                2 => {
                    let n = t.pick(&[1usize, 3, 17, 60]);
                    let x = t.pick(ids);
                    l.extend(std::iter::repeat_n(x, n));
                }
                _ => l.iter_mut().for_each(|x| {
                    if t.flip() {
                        *x = t.pick(ids)
                    }
                }),
            }
            PV::Objs(l)
        }
        PV::Space(_) if !cells.is_empty() => PV::Space(t.pick(cells)),
        PV::Spaces(mut l) if !cells.is_empty() => {
            let n = t.pick(&[1usize, 3, 17, 60]);
            let x = t.pick(cells);
            l.extend(std::iter::repeat_n(x, n));
            PV::Spaces(l)
        }
        PV::Sets(p, mut s) => {
            match t.n(3) {
                0 => {
                    s.pop();
                }
                1 => s.push(junk_set(t, 2, ids, cells)),
                _ => {
                    if let Some(x) = s.first().cloned() {
                        s.extend(std::iter::repeat_n(x, t.n(20)))
                    }
                }
            }
            PV::Sets(p, s)
        }
        v => v,
    }
}
pub fn mutate_model(t: &mut Tape, f: &mut FileModel, times: usize) {
    let all_ids: Vec<Ex> = f.spaces.iter().chain([&f.root]).flat_map(|s| s.objs().map(|o| o.id)).collect();
    let mut cells: Vec<Cell> = f.spaces.iter().map(|s| s.cell).collect();
    cells.push(f.root.cell);
    for _ in 0..times {
        let k = t.n(f.spaces.len() + 1);
        let blobs: Vec<Ex> = f.blobs.keys().copied().collect();
        let s = if k == f.spaces.len() { &mut f.root } else { &mut f.spaces[k] };
        let ids: Vec<Ex> = if t.chance(7, 8) { s.objs().map(|o| o.id).collect() } else { all_ids.clone() };
        let n = s.objs().count();
        if n == 0 || ids.is_empty() {
            continue;
        }
        match t.n(20) {
            0 => {
                let r = t.n(s.revs.len());
                if let Some(g) = s.revs[r].groups.first_mut() {
                    if !g.is_empty() {
                        let i = t.n(g.len());
                        let mut o = g[i].clone();
                        match t.n(3) {
                            0 => {
                                g.remove(i);
                            }
                            1 => {
                                o.id = t.pick(&ids);
                                g.push(o)
                            }
                            _ => g.push(o),
                        }
                    }
                }
            }
            1 => {
                let r = t.n(s.revs.len());
                let roots = &mut s.revs[r].roots;
                match t.n(3) {
                    0 => {
                        roots.pop();
                    }
                    1 => roots.push((t.pick(&[1, 2, 4, 0, 9]), t.pick(&ids))),
                    _ => roots.iter_mut().for_each(|r| r.1 = t.pick(&ids)),
                }
            }
            2 => {
                // revisions that repeat or reorder
                let r = t.n(s.revs.len());
                let c = s.revs[r].clone();
                let n = t.pick(&[1usize, 2, 8]);
                for _ in 0..n {
                    s.revs.push(c.clone())
                }
            }
            3 => s.cell = t.pick(&cells),
            _ => {
                let i = t.n(n);
                let o = s.objs_mut().nth(i).unwrap();
                match t.n(12) {
                    0 => o.jcid = t.pick(&KNOWN),
                    1 => o.jcid = t.u32b(),
                    2 => o.blob = if blobs.is_empty() { Some(t.pick(&ids)) } else { Some(t.pick(&blobs)) },
                    3 => o.blob = None,
                    4 => {
                        let p = t.pick(&[pid::ELEMENT_CHILDREN, pid::CONTENT_CHILDREN, pid::LIST_NODES, pid::STRUCTURE_CHILDREN, pid::TOC_CHILDREN, pid::PARA_STYLE, pid::RUN_DATA, pid::RUN_DATA_OBJECT, pid::INK_DATA, pid::INK_STROKES]);
                        let n = t.n(4);
                        o.props.retain(|x| x.0 != p);
                        o.props.push((p, PV::Objs((0..n).map(|_| t.pick(&ids)).collect())));
                    }
                    5 => {
                        if !o.props.is_empty() {
                            let i = t.n(o.props.len());
                            o.props.remove(i);
                        }
                    }
                    6 => {
                        if !o.props.is_empty() {
                            let i = t.n(o.props.len());
                            let p = o.props[i].clone();
                            o.props.push(p);
                        }
                    }
                    7 => {
                        let x = t.raw() & 0x3ff_ffff;
                        let v = junk_value(t, 3, &ids, &cells);
                        o.props.push((x, v));
                    }
                    _ => {
                        if !o.props.is_empty() {
                            let i = t.n(o.props.len());
                            o.props[i].1 = wild_value(t, &o.props[i].1.clone(), &ids, &cells);
                        }
                    }
                }
            }
        }
    }
}

/// The sample files of the repository.
pub fn samples() -> &'static [(Vec<u8>, bool)] {
    static S: OnceLock<Vec<(Vec<u8>, bool)>> = OnceLock::new();
    S.get_or_init(|| {
        fn rec(d: &Path, out: &mut Vec<PathBuf>) {
            let mut l: Vec<PathBuf> = d.read_dir().into_iter().flatten().flatten().map(|e| e.path()).collect();
            l.sort();
            for p in l {
                if p.is_dir() { rec(&p, out) } else { out.push(p) }
            }
        }
        let mut l = vec![];
        rec(Path::new("/repo/tests/samples"), &mut l);
        l.into_iter()
            .filter_map(|p| {
                let toc = p.extension()? == "onetoc2";
                let b = std::fs::read(&p).ok()?;
                (b.len() < 300_000).then_some((b, toc))
            })
            .collect()
    })
}

/// A notebook folder that tables of contents are put into.
pub fn notebook_dir(dir: &Path) -> PathBuf {
    let d = dir.join("nb");
    if !d.exists() {
        std::fs::create_dir_all(d.join("g")).expect("scratch");
        let sec = |seed: u32| {
            let mut t = Tape::new(vec![seed; 60]);
            encode(&gen_section(&mut t, &GenCfg::base(), &mut []).file, &mut Tape::empty(), WireCfg::PLAIN).bytes
        };
        std::fs::write(d.join("a.one"), sec(0x3000_0000)).expect("scratch");
        std::fs::write(d.join("b.one"), sec(0x9000_0000)).expect("scratch");
        std::fs::write(d.join("g/a.one"), sec(0x5000_0000)).expect("scratch");
        std::fs::write(d.join("bad.one"), b"no section").expect("scratch");
        let node = TocNode {
            name: None,
            order: None,
            color: None,
            kids: vec![TocNode { name: Some("a.one".into()), order: Some(1), color: None, kids: vec![] }],
        };
        let f = toc_file(&mut Tape::empty(), &node, &GenCfg::base());
        std::fs::write(d.join("g/t.onetoc2"), encode(&f, &mut Tape::empty(), WireCfg::PLAIN).bytes).expect("scratch");
    }
    d
}

fn soup(t: &mut Tape) -> Vec<u8> {
    // a valid start followed by stream objects in no order
    let mut base = encode(&hostile::one_page(vec![], &[]), &mut Tape::empty(), WireCfg::PLAIN).bytes;
    let cut = t.pick(&[0usize, 64, 68, 68 + 4 + 33, 300]);
    base.truncate(cut);
    let mut c = WireCfg::ALL;
    c.chaos = t.flip();
    let n = t.n(60);
    let mut w = W::new(t, c);
    w.o = base;
    for _ in 0..n {
        match w.t.n(8) {
            0 => {
                let k = w.t.pick(&[1u32, 0x15, 0x1d, 0x1e, 0x17]);
                w.end8(k)
            }
            1 => {
                let k = w.t.pick(&[0x79u32, 0x7a]);
                w.end16(k)
            }
            2 => {
                let id = Ex { g: [3; 16], v: w.t.below(6) as u32 };
                let ty = w.t.below(11);
                w.obj(1, true, 16, |w| {
                    w.ex(id);
                    w.serial(None);
                    w.cu(ty)
                })
            }
            3 => {
                let ty = w.t.pick(&[0x1du32, 0x1e, 0x79, 0x15, 0x7a]);
                w.hdr(ty, true, 32, 0)
            }
            _ => {
                let ty = w.t.pick(&[0x0cu32, 7, 0x0b, 0x1a, 0x0a, 0x19, 0x18, 0x16, 0x1c, 5, 2, 0x11, 0x0e, 0x0d, 0x6a, 0x78]);
                let k = w.t.n(5);
                let g = w.t.pick(&[[3u8; 16], [0; 16], guid(SECTION_SCHEMA)]);
                w.obj(ty, false, 0, |w| {
                    for _ in 0..k {
                        match w.t.n(4) {
                            0 => {
                                let v = w.t.below(6) as u32;
                                w.ex(Ex { g, v })
                            }
                            1 => {
                                let v = w.t.u64b() & 0xffff;
                                w.cu(v)
                            }
                            2 => w.u8(0),
                            _ => w.o.extend(g),
                        }
                    }
                })
            }
        }
    }
    w.o
}

/// Any input. `m` shapes the document, `w` its encoding, `x` the damage.
pub fn any(cx: &mut Cx) -> Damaged {
    let kind = cx.x.weighted(&[10, 14, 8, 6, 3, 2, 2]);
    let d = |bytes, toc, kind: &str| Damaged { bytes, toc, kind: kind.into(), intact: false };
    let toc = kind < 4 && cx.x.chance(1, 8);
    let model = |cx: &mut Cx| {
        let mut cfg = base_cfg(&mut cx.x);
        cfg.w_elem = [4, 4, 2, 2, 2, 1];
        cfg.budget = cx.x.pick(&[8, 20, 40]);
        if toc {
            let node = crate::checks::wire::gen_toc(&mut cx.m, &["a.one", "b.one", "g", "bad.one", "none.one", "OneNote_RecycleBin", "../x", "/etc/passwd", ""]);
            toc_file(&mut cx.m, &node, &cfg)
        } else {
            gen_section(&mut cx.m, &cfg, &mut []).file
        }
    };
    match kind {
        0 => {
            let f = model(cx);
            let wc = some_wire(&mut cx.x);
            let mut b = encode(&f, &mut cx.w, wc).bytes;
            let n = cx.x.pick(&[1, 1, 2, 4, 8, 20]);
            mutate_bytes(&mut cx.x, &mut b, n);
            d(b, toc, "damaged bytes")
        }
        1 => {
            let mut f = model(cx);
            let n = cx.x.pick(&[1, 1, 2, 4, 10]);
            mutate_model(&mut cx.x, &mut f, n);
            let mut wc = if cx.x.flip() { WireCfg::PLAIN } else { some_wire(&mut cx.x) };
            wc.chaos = cx.x.chance(1, 5);
            d(encode(&f, &mut cx.w, wc).bytes, toc, "damaged objects")
        }
        2 => {
            let f = model(cx);
            let mut wc = some_wire(&mut cx.x);
            wc.chaos = true;
            d(encode(&f, &mut cx.w, wc).bytes, toc, "damaged container")
        }
        3 => {
            let (f, k) = hostile::any(&mut cx.x);
            let toc = f.schema == guid(TOC_SCHEMA);
            let mut b = encode(&f, &mut cx.w, WireCfg::PLAIN).bytes;
            if cx.x.chance(1, 4) {
                mutate_bytes(&mut cx.x, &mut b, 1);
            }
            d(b, toc, k)
        }
        4 => {
            let s = samples();
            if s.is_empty() {
                return d(vec![], false, "empty");
            }
            let (b, toc) = &s[cx.x.n(s.len())];
            let mut b = b.clone();
            let n = cx.x.pick(&[1, 2, 6, 20]);
            mutate_bytes(&mut cx.x, &mut b, n);
            d(b, *toc, "damaged sample file")
        }
        5 => {
            let b = soup(&mut cx.x);
            d(b, cx.m.chance(1, 8), "records in no order")
        }
        _ => {
            let n = cx.x.pick(&[0usize, 3, 16, 64, 70, 400, 4000]);
            let n = cx.x.n(n + 1);
            let mut b = cx.x.bytes(n);
            if cx.x.flip() {
                let g = guid("7B5C52E4-D88C-4DA7-AEB1-5378D02996D3");
                for i in 0..b.len().min(16) {
                    b[i] = g[i];
                }
            }
            d(b, cx.x.chance(1, 4), "random bytes")
        }
    }
}
