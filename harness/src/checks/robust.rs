//! C01, C02, C17, C18, C20: damaged, crafted, cut and misfiled inputs.
use super::content::base_cfg;
use super::wire::some_wire;
use crate::cov;
use crate::damage::{self, Damaged};
use crate::extract;
use crate::r#gen::*;
use crate::hostile;
use crate::pp::*;
use crate::run::*;
use crate::tape::Tape;
use crate::v::*;
use crate::wire::*;
use onenote_parser::Parser;
use std::path::{Path, PathBuf};

/// Runs `f` on a thread with the standard library's default stack size.
pub fn small_stack<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| std::thread::Builder::new().stack_size(2 << 20).spawn_scoped(s, f).expect("thread").join().expect("thread"))
}
/// Where the input is parsed from.
pub fn place(cx: &Cx, d: &Damaged) -> Option<PathBuf> {
    d.toc.then(|| {
        let p = damage::notebook_dir(&cx.dir).join("t.onetoc2");
        std::fs::write(&p, &d.bytes).expect("scratch");
        p
    })
}
fn short(m: &str) -> String {
    m.chars().filter(|c| !c.is_ascii_digit()).take(60).collect()
}

// ---- C01 -----------------------------------------------------------------------
fn c01(cx: &mut Cx) -> R {
    let d = damage::any(cx);
    let at = place(cx, &d);
    let r: P<(V, usize)> = small_stack(|| {
        guard(|| -> Result<(V, usize), String> {
            match &at {
                Some(p) => {
                    let n = Parser::new().parse_notebook(p).map_err(|e| format!("{e} {e:?}"))?;
                    Ok((extract::notebook(&n), format!("{:?}", n.clone()).len()))
                }
                None => {
                    let s = Parser::new().parse_section_buffer(&d.bytes, Path::new("a.one")).map_err(|e| format!("{e} {e:?}"))?;
                    extract::title_texts(&s);
                    Ok((extract::section(&s), format!("{:?}", s.clone()).len()))
                }
            }
        })
    });
    match r {
        P::Panic(m) => Err(Fail::new(format!("panic: {}", short(&m)), format!("parsing panics: {m} ({})", d.kind)).file(if d.toc { "case.onetoc2" } else { "case.one" }, &d.bytes)),
        P::Ok((v, n)) => Ok(Stat::new(fnv(&d.bytes), format!("{}: {} bytes, read: {} characters of debug output", d.kind, d.bytes.len(), n)).class(d.kind).class("read").class(if d.toc {
            if v.get("entries").list().is_empty() { "notebook without entries" } else { "notebook" }
        } else {
            "section"
        })),
        P::Err(e) => {
            let far = cov::distinct();
            Ok(Stat::new(fnv(&d.bytes), format!("{}: {} bytes, refused: {}", d.kind, d.bytes.len(), e.chars().take(120).collect::<String>()))
                .class(d.kind)
                .class("refused")
                .class(if far > 1000 { "refused late" } else { "refused early" }))
        }
    }
}

// ---- C02 -----------------------------------------------------------------------
/// Work and memory for `n` bytes of input; see DESIGN.md for the calibration.
pub fn work_bound(n: usize) -> u64 {
    let n = n as u64;
    2_000_000 + n * 2000 + n * n / 50
}
pub fn mem_bound(n: usize) -> i64 {
    let n = n as i64;
    (4 << 20) + n * 1000 + n * n / 100
}
/// Bytes allocated altogether: what is copied time and again without staying.
pub fn total_bound(n: usize) -> u64 {
    let n = n as u64;
    8_000_000 + n * 1000 + n * n / 400
}
fn metered(d: &Damaged, at: &Option<PathBuf>, n: usize) -> (bool, u64, i64, u64) {
    small_stack(|| {
        cov::reset(work_bound(n));
        cov::mem_start(mem_bound(n));
        let ok = match at {
            Some(p) => guard(|| Parser::new().parse_notebook(p).map(|_| ())).is_ok(),
            None => guard(|| Parser::new().parse_section_buffer(&d.bytes, Path::new("a.one")).map(|_| ())).is_ok(),
        };
        let (w, m) = (cov::count(), cov::mem_stop());
        cov::reset(FUEL);
        (ok, w, m, cov::mem_total())
    })
}
fn c02(cx: &mut Cx) -> R {
    let d = damage::any(cx);
    let at = place(cx, &d);
    let n = d.bytes.len() + if d.toc { 8000 } else { 0 };
    let (ok, w, m, total) = metered(&d, &at, n);
    if total > total_bound(n) {
        return Err(Fail::new("copies", format!("{n} bytes of input make the parser allocate {total} bytes altogether ({})", d.kind)).file(if d.toc { "case.onetoc2" } else { "case.one" }, &d.bytes));
    }
    Ok(Stat::new(fnv(&d.bytes), format!("{}: {n} bytes, {w} edges, peak {m} bytes", d.kind)).class(d.kind).class(if ok { "read" } else { "refused" }))
}

/// Twice the document costs at most about four times the work and twice the
/// memory (unless it returns the same data again and again).
fn c02_growth(cx: &mut Cx) -> R {
    let i = cx.x.n(hostile::FAMILIES.len());
    let top = cx.x.pick(&[100, 400, 1200]);
    let k = 40 + cx.x.n(top);
    let mut r = vec![];
    for k in [k, 2 * k] {
        let f = hostile::family(i, k);
        let toc = f.schema == guid(TOC_SCHEMA);
        let b = encode(&f, &mut Tape::empty(), WireCfg::PLAIN).bytes;
        let d = Damaged { bytes: b, toc, kind: String::new(), intact: true };
        let at = place(cx, &d);
        let n = d.bytes.len() + if toc { 8000 } else { 0 };
        let (ok, w, m, total) = metered(&d, &at, n);
        r.push((n, w, m, ok, d.bytes, total));
    }
    let (a, b) = (&r[0], &r[1]);
    let name = hostile::FAMILIES[i];
    let by = if name == "images of one blob" { 5 } else { 3 };
    if b.1 > 5 * a.1 + 100_000 || b.2 > by * a.2 + 1_000_000 || b.5 > 5 * a.5 + 2_000_000 || b.5 > total_bound(b.0) {
        return Err(Fail::new(format!("growth: {name}"), format!("from {k} to {} {name}: {} -> {} bytes, {} -> {} edges, peak {} -> {} bytes, allocated {} -> {}", 2 * k, a.0, b.0, a.1, b.1, a.2, b.2, a.5, b.5))
            .file("small.one", &a.4)
            .file("large.one", &b.4));
    }
    Ok(Stat::new(fnv(name.as_bytes()) ^ k as u64, format!("{name}, {k} and {}: {} -> {} bytes, {} -> {} edges, peak {} -> {}", 2 * k, a.0, b.0, a.1, b.1, a.2, b.2)).class(if a.3 && b.3 { "read" } else { "refused" }).class(format!("growth: {name}")))
}

// ---- C17 -----------------------------------------------------------------------
/// Walks the stream objects of a package: where it ends and where its parts
/// begin and end. Knows nothing of what they mean.
pub fn walk(b: &[u8]) -> Option<(usize, Vec<usize>)> {
    let u = |at: usize, n: usize| -> Option<u64> { Some(b.get(at..at.checked_add(n)?)?.iter().rev().fold(0u64, |a, x| a << 8 | *x as u64)) };
    let mut at = 64;
    let mut marks = vec![16, 32, 48, 64];
    let legacy = b.get(32..48)?.iter().any(|x| *x != 0);
    if b.get(48..64)? == guid("109ADD3F-911B-49F5-A5D0-1791EDC8AED8") && !legacy {
        // a revision store header; the package follows its transaction log
        // 4 versions, 2 u64, 2 u32, 2 u64, u32, 4 u8, guid, u32, fcr, fcr
        let log = 64 + 16 + 16 + 8 + 16 + 4 + 4 + 16 + 4 + 12;
        at = (u(log, 8)? + u(log + 8, 4)?) as usize;
        marks.extend([80, log, log + 12, at, at + 16, at + 32, at + 48]);
        at += 64;
    }
    marks.push(at);
    at += 4;
    let compact = |at: usize| -> Option<(u64, usize)> {
        let f = *b.get(at)?;
        let n = if f == 0 { return Some((0, 1)) } else { f.trailing_zeros() as usize + 1 };
        if n == 8 {
            return Some((u(at + 1, 8)?, 9));
        }
        Some((u(at, n)? >> n, n))
    };
    loop {
        marks.push(at);
        let f = *b.get(at)?;
        match f & 3 {
            0 => {
                let v = u(at, 2)?;
                at += 2;
                marks.push(at);
                at += (v >> 9) as usize;
            }
            2 => {
                let v = u(at, 4)?;
                at += 4;
                let mut n = v >> 17;
                if n == 0x7fff {
                    let (x, k) = compact(at)?;
                    at += k;
                    n = x;
                }
                marks.push(at);
                at = at.checked_add(n as usize)?;
            }
            1 => at += 1,
            _ => {
                let v = u(at, 2)?;
                at += 2;
                if v >> 2 == 0x7a {
                    marks.push(at - 1);
                    return (at <= b.len()).then_some((at, marks));
                }
            }
        }
        if at > b.len() {
            return None;
        }
    }
}
fn some_cuts(t: &mut Tape, end: usize, marks: &[usize]) -> Vec<usize> {
    if end <= 260 {
        return (0..end).collect();
    }
    let mut c: Vec<usize> = vec![0, 1, end - 1, end - 2, end - 3];
    for _ in 0..30 {
        c.push(end - 1 - t.n(200.min(end)));
        let m = t.pick(marks);
        c.push((m + 1).saturating_sub(t.n(3)));
    }
    for _ in 0..20 {
        c.push(t.n(200));
        c.push(t.n(end));
    }
    c.retain(|x| *x < end);
    c.sort();
    c.dedup();
    c
}
fn cut_result(cx: &Cx, at: &Option<PathBuf>, b: &[u8], by_path: bool) -> P<V> {
    match at {
        Some(p) => {
            std::fs::write(p, b).expect("scratch");
            notebook_v(p)
        }
        None if by_path => {
            let p = cx.dir.join("cut.one");
            std::fs::write(&p, b).expect("scratch");
            path_v(&p)
        }
        None => buffer_v(b, "a.one"),
    }
}
fn c17(cx: &mut Cx) -> R {
    let toc = cx.x.chance(1, 8);
    let mut cfg = base_cfg(&mut cx.x);
    cfg.w_elem = [4, 4, 2, 2, 2, 1];
    cfg.budget = cx.x.pick(&[4, 12, 40]);
    cfg.big_blobs = cx.x.chance(1, 20);
    let f = if toc {
        let node = super::wire::gen_toc(&mut cx.m, &["a.one", "b.one", "g"]);
        toc_file(&mut cx.m, &node, &cfg)
    } else {
        gen_section(&mut cx.m, &cfg, &mut []).file
    };
    let wc = some_wire(&mut cx.x);
    let e = encode(&f, &mut cx.w, wc);
    let end = e.stats.package_end;
    let (wend, marks) = walk(&e.bytes).expect("the harness's own package");
    assert_eq!(wend, end, "the harness's own walker");
    let at = place(cx, &Damaged { bytes: vec![], toc, kind: String::new(), intact: true });
    if !cut_result(cx, &at, &e.bytes, false).is_ok() {
        return Ok(Stat::trivial());
    }
    let cuts = some_cuts(&mut cx.x, end, &marks);
    for &c in &cuts {
        let by_path = cx.x.chance(1, 30);
        let r = cut_result(cx, &at, &e.bytes[..c], by_path);
        if let P::Ok(v) = r {
            return Err(Fail::new("cut file read", format!("a file of {end} bytes cut to {c} is still read: {}", super::content::sample(&v)))
                .file(if toc { "whole.onetoc2" } else { "whole.one" }, &e.bytes)
                .file(if toc { "cut.onetoc2" } else { "cut.one" }, &e.bytes[..c]));
        }
    }
    let mut s = Stat::new(fnv(&e.bytes[..end]), format!("{} cuts of {end} bytes (revision store: {}), {} elements", cuts.len(), e.stats.non_legacy, e.stats.elements));
    s = s.class(if toc { "table of contents" } else { "section" });
    if e.stats.non_legacy {
        s = s.class("revision store packaging");
    }
    if end > 33000 {
        s = s.class("large");
    }
    if e.stats.fragments > 0 {
        s = s.class("fragments");
    }
    if end < e.bytes.len() {
        s = s.class("trailing bytes");
    }
    Ok(s)
}
/// The sample files of the repository, each cut at many places.
fn c17_samples(cx: &mut Cx) -> R {
    let l = damage::samples();
    if l.is_empty() {
        return Ok(Stat::trivial());
    }
    let (b, toc) = &l[cx.x.n(l.len())];
    let Some((end, marks)) = walk(b) else { return Ok(Stat::trivial()) };
    let at = place(cx, &Damaged { bytes: vec![], toc: *toc, kind: String::new(), intact: true });
    let cuts = some_cuts(&mut cx.x, end, &marks);
    for &c in &cuts {
        let r = cut_result(cx, &at, &b[..c], false);
        if r.is_ok() {
            return Err(Fail::new("cut file read", format!("a sample file of {end} bytes cut to {c} is still read")).file("whole.one", b).file("cut.one", &b[..c]));
        }
    }
    Ok(Stat::new(fnv(&b[..end]) ^ fnv(format!("{cuts:?}").as_bytes()), format!("{} cuts of a sample file with a package of {end} bytes", cuts.len())).class("sample file"))
}

// ---- C20 -----------------------------------------------------------------------
#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Section,
    Toc,
    Other,
}
/// Text and expected meaning of the kind errors.
fn kind_error(e: &str) -> Option<(Kind, String)> {
    if let Some(n) = e.strip_prefix("Not a section file: ") {
        return Some((Kind::Section, n.into()));
    }
    e.strip_prefix("Not a table of contents file: ").map(|n| (Kind::Toc, n.into()))
}
fn c20(cx: &mut Cx) -> R {
    let kind = cx.x.pick(&[Kind::Section, Kind::Toc, Kind::Other]);
    // what the file holds need not fit what it says it is
    let content_toc = if cx.x.chance(1, 4) { cx.x.flip() } else { kind == Kind::Toc };
    let mut cfg = base_cfg(&mut cx.x);
    cfg.budget = 8;
    let mut f = if content_toc {
        let node = super::wire::gen_toc(&mut cx.m, &["none.one"]);
        toc_file(&mut cx.m, &node, &cfg)
    } else {
        gen_section(&mut cx.m, &cfg, &mut []).file
    };
    f.schema = match kind {
        Kind::Section => guid(SECTION_SCHEMA),
        Kind::Toc => guid(TOC_SCHEMA),
        Kind::Other => {
            // a near miss or anything else
            let mut g = if cx.x.flip() { guid(SECTION_SCHEMA) } else { guid(TOC_SCHEMA) };
            match cx.x.n(4) {
                0 => g[cx.x.n(16)] ^= 1 << cx.x.n(8),
                1 => g = [0; 16],
                2 => g = guid("7B5C52E4-D88C-4DA7-AEB1-5378D02996D3"),
                _ => g = cx.x.guid(),
            }
            g
        }
    };
    let fits = (kind == Kind::Section && !content_toc) || (kind == Kind::Toc && content_toc);
    let wc = some_wire(&mut cx.x);
    let mut b = encode(&f, &mut cx.w, wc).bytes;
    // the file type in the header is not what decides
    if cx.x.chance(1, 4) {
        let g = cx.x.guid();
        b[..16].copy_from_slice(&g);
    }
    let name = cx.x.pick(&["a.one", "b.onetoc2", "Ünï.one", "noext", "x.y.one", "sp ace.one"]);
    let foreign = cx.x.chance(1, 5);
    if foreign {
        match cx.x.n(3) {
            0 => b[48 + cx.x.n(16)] ^= 1 << cx.x.n(8),
            1 => {
                let g = cx.x.guid();
                b[48..64].copy_from_slice(&g)
            }
            _ => {
                let g: [u8; 16] = cx.x.pick(&[guid("7B5C52E4-D88C-4DA7-AEB1-5378D02996D3"), guid("43FF2FA1-EFD9-4C76-9EE2-10EA5722765F"), [0; 16], [0xff; 16], *b"PK\x03\x04AAAAAAAAAAAA"]);
                b[48..64].copy_from_slice(&g)
            }
        }
    }
    let d = cx.fresh_dir();
    let p = d.join(name);
    std::fs::write(&p, &b).expect("scratch");
    let entry = cx.x.n(6);
    let full = p.to_string_lossy().to_string();
    // (result, kind that is needed here, the name the error has to give)
    let (r, need, named): (P<()>, Kind, Vec<String>) = match entry {
        0 => (buffer(&b, name, |_| ()), Kind::Section, vec![name.into()]),
        1 => (buffer(&b, &full, |_| ()), Kind::Section, vec![full.clone()]),
        2 => (guard(|| Parser::new().parse_section(&p).map(|_| ())), Kind::Section, vec![full.clone(), name.into()]),
        3 => (guard(|| Parser::new().parse_notebook(&p).map(|_| ())), Kind::Toc, vec![full.clone(), name.into()]),
        4 => {
            // listed by a notebook
            let node = TocNode { name: None, order: None, color: None, kids: vec![TocNode { name: Some(name.into()), order: Some(1), color: None, kids: vec![] }] };
            let t = toc_file(&mut Tape::empty(), &node, &cfg);
            let q = d.join("0.onetoc2");
            std::fs::write(&q, encode(&t, &mut Tape::empty(), WireCfg::PLAIN).bytes).expect("scratch");
            (guard(|| Parser::new().parse_notebook(&q).map(|_| ())), Kind::Section, vec![full.clone(), name.into()])
        }
        _ => {
            // the table of contents of a listed group
            let node = TocNode { name: None, order: None, color: None, kids: vec![TocNode { name: Some("grp".into()), order: Some(1), color: None, kids: vec![] }] };
            let t = toc_file(&mut Tape::empty(), &node, &cfg);
            let q = d.join("0.onetoc2");
            std::fs::write(&q, encode(&t, &mut Tape::empty(), WireCfg::PLAIN).bytes).expect("scratch");
            std::fs::create_dir(d.join("grp")).expect("scratch");
            let g = d.join("grp").join("Open Notebook.onetoc2");
            std::fs::write(&g, &b).expect("scratch");
            (guard(|| Parser::new().parse_notebook(&q).map(|_| ())), Kind::Toc, vec![g.to_string_lossy().to_string(), "Open Notebook.onetoc2".into()])
        }
    };
    let how = ["buffer", "buffer with a path", "section path", "notebook", "notebook entry", "group table of contents"][entry];
    let fail = |sig: &str, m: String| Err(Fail::new(sig, format!("{how}: {m} (stored kind {kind:?}, foreign format: {foreign})")).file("case.one", &b));
    let s = Stat::new(fnv(&b) ^ entry as u64, format!("{how}: stored kind {kind:?}, content {}, foreign format {foreign}: {}", if content_toc { "toc" } else { "section" }, r.bad().unwrap_or("read".into())))
        .class(how)
        .class(format!("{kind:?} where {need:?} is needed{}", if foreign { ", foreign format" } else { "" }));
    if foreign {
        return if r.is_ok() { fail("foreign format", "a file of a foreign format is read".into()) } else { Ok(s) };
    }
    if kind == need {
        // must not be refused for its kind; well-formed content is read
        if let P::Err(e) = &r {
            if kind_error(e).is_some() {
                return fail("right kind refused", format!("refused for its kind: {e}"));
            }
            if fits {
                return fail("right kind refused", format!("not read: {e}"));
            }
        }
        return Ok(s);
    }
    match &r {
        P::Ok(_) => fail("wrong kind accepted", "read".into()),
        P::Panic(m) => fail("panic", m.clone()),
        P::Err(e) => match kind_error(e) {
            Some((k, n)) if k == need && named.contains(&n) => Ok(s),
            _ => fail("wrong error", format!("refused with {e:?}, not with the error for {need:?} naming {}", named[0])),
        },
    }
}
/// Data that is no package at all.
fn c20_noise(cx: &mut Cx) -> R {
    let n = cx.x.pick(&[0usize, 1, 16, 63, 64, 65, 100, 1000, 20000]);
    let mut b = cx.x.bytes(n);
    let known = cx.x.n(3);
    if known > 0 && n >= 16 {
        b[..16].copy_from_slice(&guid(if known == 1 { "7B5C52E4-D88C-4DA7-AEB1-5378D02996D3" } else { "43FF2FA1-EFD9-4C76-9EE2-10EA5722765F" }));
    }
    let d = cx.fresh_dir();
    let toc = cx.x.flip();
    let p = d.join(if toc { "a.onetoc2" } else { "a.one" });
    std::fs::write(&p, &b).expect("scratch");
    let r: P<()> = match cx.x.n(3) {
        0 => buffer(&b, "a.one", |_| ()),
        1 => guard(|| Parser::new().parse_section(&p).map(|_| ())),
        _ => guard(|| Parser::new().parse_notebook(&p).map(|_| ())),
    };
    match r {
        P::Err(e) => Ok(Stat::new(fnv(&b) ^ n as u64, format!("{n} bytes: {e}")).class("no package")),
        r => Err(Fail::new("no package", format!("{n} bytes that are no package: {}", r.bad().unwrap_or("read".into()))).file("case.one", &b)),
    }
}

pub fn checks() -> Vec<Check> {
    let p = |name, tapes, q, t, f, guided, death| Part { guided, death, ..part(name, tapes, q, t, f) };
    vec![
        Check {
            id: "C01",
            rule: "damaged, crafted and random inputs through parse_section_buffer and parse_notebook on a 2 MiB stack; a panic, abort or signal is a violation; results are also formatted, cloned and walked; non-trivial: every distinct input",
            parts: vec![p("any", &[1500, 1500, 600], 250000, 3000000, c01, 5, Death::Signals)],
            assumptions: &["a stack of 2 MiB (the standard library's default for threads) is available"],
        },
        Check {
            id: "C02",
            rule: "the inputs of C01 with executed edges and peak heap measured against a fixed function of the input size; non-trivial: every distinct input",
            parts: vec![
                p("any", &[1500, 1500, 600], 160000, 2000000, c02, 5, Death::Limits),
                p("growth", &[0, 0, 3], 1200, 12000, c02_growth, 0, Death::Limits),
            ],
            assumptions: &["executed control-flow edges of the crate (and inlined library code) and bytes from the allocator stand for effort"],
        },
        Check {
            id: "C17",
            rule: "documents that are read whole are cut before the end of their package, at the borders of their records, near both ends and anywhere; reading any cut file is a violation; non-trivial: documents that are read whole (with all their cuts)",
            parts: vec![
                p("cuts", &[800, 1200, 300], 40000, 500000, c17, 0, Death::All),
                p("sample files", &[0, 0, 140], 1500, 20000, c17_samples, 0, Death::All),
            ],
            assumptions: &[],
        },
        Check {
            id: "C20",
            rule: "files whose stored kind is right, wrong or unknown, and files of a foreign format, through every entry point; a wrong kind must be refused with its own error naming the file, a right one must not; non-trivial: every distinct file and entry point",
            parts: vec![
                p("kinds", &[400, 600, 40], 200000, 2000000, c20, 0, Death::All),
                p("no package", &[0, 0, 8], 20000, 200000, c20_noise, 0, Death::All),
            ],
            assumptions: &["the error may name the file by its bare name or by the path that was given"],
        },
    ]
}
