//! C03, C19: the outcome is a function of the input, whoever asks, from where
//! and after what.
use super::content::base_cfg;
use super::wire::{gen_toc, some_wire};
use crate::cov;
use crate::damage::{self, Damaged};
use crate::r#gen::*;
use crate::pp::*;
use crate::run::*;
use crate::tape::Tape;
use crate::v::*;
use crate::wire::*;
use onenote_parser::Parser;
use onenote_parser::section::SectionEntry;
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};

/// Everything the caller can see of one outcome, as text.
fn text<T: std::fmt::Debug>(f: impl FnOnce() -> Result<T, onenote_parser::errors::Error>) -> String {
    match guard(|| f().map(|s| format!("{s:?}"))) {
        P::Ok(s) => format!("ok {s}"),
        P::Err(e) => format!("error {e}"),
        P::Panic(e) => format!("panic {e}"),
    }
}
fn of_buffer(p: &Parser, b: &[u8], name: &Path) -> String {
    text(|| p.parse_section_buffer(b, name))
}
fn of_path(p: &Parser, at: &Path) -> String {
    text(|| p.parse_section(at))
}
fn of_notebook(p: &Parser, at: &Path) -> String {
    text(|| p.parse_notebook(at))
}
/// Where two outcomes part.
fn parting(a: &str, b: &str) -> String {
    let i = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count();
    let cut = |s: &str| {
        let l: Vec<u8> = s.bytes().skip(i.saturating_sub(60)).take(200).collect();
        String::from_utf8_lossy(&l).into_owned()
    };
    format!("at {i}: {:?} / {:?}", cut(a), cut(b))
}
#[derive(Clone)]
struct In {
    bytes: Vec<u8>,
    toc: bool,
    kind: String,
    /// a file on disk, for tables of contents
    at: Option<PathBuf>,
}
impl In {
    fn ask(&self, p: &Parser) -> String {
        match &self.at {
            Some(at) => of_notebook(p, at),
            None => of_buffer(p, &self.bytes, Path::new("a.one")),
        }
    }
    fn fail(&self, sig: &str, a: &str, b: &str) -> Fail {
        Fail::new(sig, format!("{sig} ({}): {}", self.kind, parting(a, b))).file(if self.toc { "case.onetoc2" } else { "case.one" }, &self.bytes)
    }
}
/// A document in which something is written more than once, or broken in
/// more than one place, so that the reader has to choose.
fn ambiguous(cx: &mut Cx) -> Damaged {
    let toc = cx.x.chance(1, 8);
    let mut cfg = base_cfg(&mut cx.x);
    cfg.budget = cx.x.pick(&[8, 20]);
    let mut f = if toc {
        let node = gen_toc(&mut cx.m, &["a.one", "b.one", "g", "bad.one", "none.one"]);
        toc_file(&mut cx.m, &node, &cfg)
    } else {
        gen_section(&mut cx.m, &cfg, &mut []).file
    };
    if cx.x.chance(1, 3) {
        let n = cx.x.pick(&[2, 6]);
        damage::mutate_model(&mut cx.x, &mut f, n);
    }
    let mut wc = if cx.x.flip() { WireCfg::PLAIN } else { some_wire(&mut cx.x) };
    wc.chaos = cx.x.chance(1, 6);
    wc.ambiguous = cx.x.chance(5, 6);
    Damaged { bytes: encode(&f, &mut cx.w, wc).bytes, toc, kind: if wc.ambiguous { "ambiguous".into() } else { "damaged in several places".into() }, intact: false }
}
fn whole(cx: &mut Cx) -> Damaged {
    let cfg = base_cfg(&mut cx.x);
    let f = gen_section(&mut cx.m, &cfg, &mut []).file;
    let wc = some_wire(&mut cx.x);
    Damaged { bytes: encode(&f, &mut cx.w, wc).bytes, toc: false, kind: "well-formed".into(), intact: true }
}
fn input(cx: &mut Cx, i: usize) -> In {
    let d = match cx.x.n(3) {
        0 => whole(cx),
        1 => ambiguous(cx),
        _ => damage::any(cx),
    };
    let at = d.toc.then(|| {
        let p = damage::notebook_dir(&cx.dir).join(format!("t{i}.onetoc2"));
        std::fs::write(&p, &d.bytes).expect("scratch");
        p
    });
    In { bytes: d.bytes, toc: d.toc, kind: d.kind, at }
}
fn class(s: &str) -> &'static str {
    if s.starts_with("ok") { "read" } else { "refused" }
}

// ---- C03 -----------------------------------------------------------------------
fn c03(cx: &mut Cx) -> R {
    let a = if cx.x.chance(3, 4) {
        let d = ambiguous(cx);
        let at = d.toc.then(|| {
            let p = damage::notebook_dir(&cx.dir).join("t0.onetoc2");
            std::fs::write(&p, &d.bytes).expect("scratch");
            p
        });
        In { bytes: d.bytes, toc: d.toc, kind: d.kind, at }
    } else {
        input(cx, 0)
    };
    let p = Parser::new();
    let first = a.ask(&p);
    for i in 0..10 {
        let again = if i % 2 == 0 { a.ask(&p) } else { a.ask(&Parser::new()) };
        if again != first {
            return Err(a.fail("another call gives another outcome", &first, &again));
        }
    }
    // the same bytes elsewhere in memory
    if !a.toc {
        let pad = 1 + cx.x.n(64);
        let mut b = vec![0xA5; pad];
        b.extend(&a.bytes);
        let other = of_buffer(&p, &b[pad..], Path::new("a.one"));
        if other != first {
            return Err(a.fail("another buffer gives another outcome", &first, &other));
        }
    }
    Ok(Stat::new(fnv(&a.bytes), format!("{}: {} bytes: {}", a.kind, a.bytes.len(), first.chars().take(160).collect::<String>())).class(a.kind.as_str()).class(class(&first)).class(if a.toc { "notebook" } else { "section" }))
}
/// Several threads share one parser and several inputs.
fn c03_threads(cx: &mut Cx) -> R {
    let n = 2 + cx.x.n(3);
    let ins: Vec<In> = (0..n).map(|i| input(cx, i)).collect();
    let p = Parser::new();
    let want: Vec<String> = ins.iter().map(|a| a.ask(&p)).collect();
    let threads = 2 + cx.x.n(7);
    let mut plans: Vec<Vec<usize>> = vec![];
    for _ in 0..threads {
        let k = 3 + cx.x.n(6);
        plans.push((0..k).map(|_| cx.x.n(n)).collect());
    }
    let gate = std::sync::Barrier::new(threads);
    let bad: Vec<(usize, String)> = std::thread::scope(|s| {
        let hs: Vec<_> = plans
            .iter()
            .map(|plan| {
                let (p, ins, want, gate) = (&p, &ins, &want, &gate);
                s.spawn(move || {
                    gate.wait();
                    for &i in plan {
                        let got = ins[i].ask(p);
                        if got != want[i] {
                            return Some((i, got));
                        }
                    }
                    None
                })
            })
            .collect();
        hs.into_iter().filter_map(|h| h.join().expect("thread")).collect()
    });
    if let Some((i, got)) = bad.first() {
        return Err(ins[*i].fail("a concurrent call gives another outcome", &want[*i], got));
    }
    let calls: usize = plans.iter().map(|p| p.len()).sum();
    let mut key = plans.iter().flatten().fold(0u64, |k, i| k.wrapping_mul(31) ^ *i as u64);
    ins.iter().for_each(|a| key ^= fnv(&a.bytes));
    Ok(Stat::new(key, format!("{threads} threads, {calls} calls on {n} inputs")).class(format!("{threads} threads")).class(if ins.iter().any(|a| a.toc) { "with a notebook" } else { "sections" }))
}
/// Other processes, with another environment, asked in another order.
fn c03_processes(cx: &mut Cx) -> R {
    let n = 4 + cx.x.n(6);
    let ins: Vec<In> = (0..n).map(|i| input(cx, i)).collect();
    let p = Parser::new();
    let want: Vec<String> = ins.iter().map(|a| a.ask(&p)).collect();
    let list: String = ins
        .iter()
        .enumerate()
        .map(|(i, a)| match &a.at {
            Some(at) => format!("notebook\t{}\n", at.display()),
            None => {
                let f = cx.dir.join(format!("in{i}"));
                std::fs::write(&f, &a.bytes).expect("scratch");
                format!("buffer\t{}\n", f.display())
            }
        })
        .collect();
    let at = cx.dir.join("list");
    std::fs::write(&at, list).expect("scratch");
    for order in ["forward", "backward"] {
        let mut c = std::process::Command::new(std::env::current_exe().expect("exe"));
        c.arg("outcomes").arg(&at).arg(order).current_dir("/").env_clear();
        if cx.x.flip() {
            for (k, l) in [("LANG", ["C", "de_DE.UTF-8", "tr_TR"]), ("TZ", ["UTC", "America/New_York", "Asia/Tokyo"]), ("HOME", ["/", "/root", "/nonexistent"]), ("RUST_BACKTRACE", ["0", "1", "full"]), ("RUST_LOG", ["trace", "error", ""])] {
                c.env(k, cx.x.pick(&l));
            }
        }
        let o = c.output().expect("outcomes");
        if !o.status.success() {
            return Err(Fail::new("process", format!("another process ends with {}: {}", o.status, String::from_utf8_lossy(&o.stderr).chars().take(300).collect::<String>())));
        }
        let got: BTreeMap<usize, String> = String::from_utf8_lossy(&o.stdout)
            .lines()
            .filter_map(|l| {
                let (i, s) = l.split_once('\t')?;
                Some((i.parse().ok()?, s.to_string()))
            })
            .collect();
        for (i, w) in want.iter().enumerate() {
            let w = sealed(w);
            let g = got.get(&i).cloned().unwrap_or("nothing".into());
            if g != w {
                return Err(ins[i].fail("another process gives another outcome", &w, &g));
            }
        }
    }
    let key = ins.iter().fold(0u64, |k, a| k.rotate_left(5) ^ fnv(&a.bytes));
    let read = want.iter().filter(|w| w.starts_with("ok")).count();
    Ok(Stat::new(key, format!("{n} inputs, {read} read")).class("other processes"))
}
fn sealed(s: &str) -> String {
    format!("{:016x} {}", fnv(s.as_bytes()), s.replace(['\n', '\t', '\r'], " ").chars().take(200).collect::<String>())
}
/// `vh outcomes LIST forward|backward`
pub fn outcomes(a: &[String]) -> i32 {
    std::panic::set_hook(Box::new(|_| {}));
    cov::reset(FUEL);
    let Ok(list) = std::fs::read_to_string(&a[1]) else { return 2 };
    let mut l: Vec<(usize, &str)> = list.lines().enumerate().collect();
    if a[2] == "backward" {
        l.reverse();
    }
    let p = Parser::new();
    for (i, x) in l {
        let Some((how, at)) = x.split_once('\t') else { return 2 };
        let s = match how {
            "notebook" => of_notebook(&p, Path::new(at)),
            _ => {
                let Ok(b) = std::fs::read(at) else { return 2 };
                of_buffer(&p, &b, Path::new("a.one"))
            }
        };
        println!("{i}\t{}", sealed(&s));
    }
    0
}
/// A folder copied file by file in another order is the same folder.
fn c03_folders(cx: &mut Cx) -> R {
    let shm = Path::new("/dev/shm");
    let base = if shm.is_dir() && cx.x.flip() { shm.join(format!("vh-{}", std::process::id())) } else { cx.dir.join("f") };
    let cfg = GenCfg::base();
    let section = |t: &mut Tape| plain(&gen_section(t, &cfg, &mut []).file);
    let mut files: Vec<(String, Vec<u8>)> = vec![];
    let names = ["a.one", "b.one", "c.one"];
    for n in names {
        if cx.x.chance(4, 5) {
            files.push((n.into(), section(&mut cx.m)));
            files.push((format!("g/{n}"), section(&mut cx.m)));
        }
    }
    let list = |t: &mut Tape, l: &[&str]| {
        let node = gen_toc(t, l);
        plain(&toc_file(t, &node, &cfg))
    };
    files.push(("t.onetoc2".into(), list(&mut cx.w, &["a.one", "b.one", "c.one", "g", "g"])));
    // more than one table of contents in the group
    let mut tocs: Vec<&str> = ["Open Notebook.onetoc2", "a.onetoc2", "b.onetoc2", "B.onetoc2", "x.y.onetoc2", "ä.onetoc2"].to_vec();
    cx.x.shuffle(&mut tocs);
    let k = cx.x.pick(&[2, 3, 5, 1]);
    for n in &tocs[..k] {
        files.push((format!("g/{n}"), list(&mut cx.w, &names)));
    }
    let mut seen: Option<String> = None;
    let mut fail = None;
    for round in 0..4 {
        wipe(&base);
        std::fs::create_dir_all(base.join("g")).expect("scratch");
        match round {
            0 => {}
            1 => files.reverse(),
            _ => cx.x.shuffle(&mut files),
        }
        for (n, b) in &files {
            std::fs::write(base.join(n), b).expect("scratch");
        }
        let got = of_notebook(&Parser::new(), &base.join("t.onetoc2"));
        match &seen {
            None => seen = Some(got),
            Some(w) if *w != got => {
                fail = Some(Fail::new("the order in which a folder was filled matters", format!("a notebook folder with {k} tables of contents in a group is read differently after copying its files in another order: {}", parting(w, &got))));
                break;
            }
            _ => {}
        }
    }
    wipe(&base);
    if let Some(mut f) = fail {
        for (n, b) in &files {
            f = f.file(n.replace('/', "-"), b);
        }
        return Err(f);
    }
    let s = seen.unwrap();
    let grp = s.contains("SectionGroup");
    Ok(Stat::new(fnv(s.as_bytes()) ^ k as u64, format!("{} files, {k} tables of contents in the group: {}", files.len(), s.chars().take(100).collect::<String>())).class(format!("{k} tables of contents")).class(if grp { "group read" } else { "group not listed" }))
}
fn plain(f: &FileModel) -> Vec<u8> {
    encode(f, &mut Tape::empty(), WireCfg::PLAIN).bytes
}

// ---- C19 -----------------------------------------------------------------------
const NAMES: [&str; 12] =
    ["a.one", "Section 1.one", "ä ö.one", "日本.one", "no extension", "two.one.one", ".one", "x.ONE", "x.one2", "a.b.c.one", "one", "𝒳.one"];
/// One section by every way there is.
fn c19_entries(cx: &mut Cx) -> R {
    let d = loop {
        let d = match cx.x.n(4) {
            0 | 1 => whole(cx),
            2 => ambiguous(cx),
            _ => damage::any(cx),
        };
        if !d.toc || cx.x.exhausted() {
            break d;
        }
    };
    let base = cx.fresh_dir();
    let nb = base.join("nb");
    std::fs::create_dir_all(nb.join("g")).expect("scratch");
    let name = cx.x.pick(&NAMES);
    let f = nb.join(name);
    std::fs::write(&f, &d.bytes).expect("scratch");
    std::fs::write(nb.join("g").join(name), &d.bytes).expect("scratch");
    let p = Parser::new();
    let short = of_buffer(&p, &d.bytes, Path::new(name));
    let long = of_buffer(&p, &d.bytes, &f);
    // errors may name the file the way the caller did
    let want = |way: &Path| if short.starts_with("ok") { short.clone() } else { of_buffer(&p, &d.bytes, way) };
    let fail = |how: &str, a: &str, b: &str| Err(Fail::new(how, format!("{how} ({}): {}", d.kind, parting(a, b))).file("case.one", &d.bytes));
    if short.starts_with("ok") != long.starts_with("ok") {
        return fail("the file name decides whether a buffer is read", &short, &long);
    }
    let got = of_path(&p, &f);
    if got != want(&f) {
        return fail("path and buffer disagree", &want(&f), &got);
    }
    // other spellings of the path, a link and a copy with other times and rights
    let link = base.join("link.one");
    std::os::unix::fs::symlink(&f, &link).expect("scratch");
    let copy = base.join("copy");
    std::fs::create_dir_all(&copy).expect("scratch");
    let copy = copy.join(name);
    std::fs::write(&copy, &d.bytes).expect("scratch");
    std::fs::set_permissions(&copy, std::os::unix::fs::PermissionsExt::from_mode(cx.x.pick(&[0o400, 0o444, 0o777, 0o600]))).expect("scratch");
    let _ = std::fs::File::options().append(true).open(&copy).and_then(|h| h.set_modified(std::time::UNIX_EPOCH + std::time::Duration::from_secs(cx.x.u32b() as u64)));
    let up = nb.join("g").join("..").join(".").join(name);
    for (how, at) in [("other spelling of the path", &up), ("copy", &copy), ("link", &link)] {
        let got = of_path(&p, at);
        let w = if how == "link" && short.starts_with("ok") { of_buffer(&p, &d.bytes, Path::new("link.one")) } else { want(at) };
        if got != w {
            return fail(how, &w, &got);
        }
    }
    // through a notebook and through a group
    let cfg = GenCfg::base();
    let leaf = |n: &str| TocNode { name: Some(n.into()), order: Some(1), color: None, kids: vec![] };
    let toc = |n: &[&str]| plain(&toc_file(&mut Tape::empty(), &TocNode { name: None, order: None, color: None, kids: n.iter().map(|n| leaf(n)).collect() }, &cfg));
    std::fs::write(nb.join("t.onetoc2"), toc(&[name])).expect("scratch");
    std::fs::write(nb.join("g/t.onetoc2"), toc(&[name])).expect("scratch");
    std::fs::write(nb.join("u.onetoc2"), toc(&["g"])).expect("scratch");
    let via = |file: &str, p: &Parser| -> String {
        match guard(|| p.parse_notebook(&nb.join(file))) {
            P::Ok(n) => {
                let mut l: Vec<&SectionEntry> = n.entries().iter().collect();
                if let [SectionEntry::SectionGroup(g)] = l[..] {
                    l = g.entries().iter().collect();
                }
                match l[..] {
                    [SectionEntry::Section(s)] => format!("ok {s:?}"),
                    _ => format!("{} entries", l.len()),
                }
            }
            P::Err(e) => format!("error {e}"),
            P::Panic(e) => format!("panic {e}"),
        }
    };
    for (how, file, at) in [("through a notebook", "t.onetoc2", f.clone()), ("through a group", "u.onetoc2", nb.join("g").join(name))] {
        let got = via(file, &p);
        if got != want(&at) {
            return fail(how, &want(&at), &got);
        }
    }
    // from within the folder
    let back = std::env::current_dir().expect("cwd");
    std::env::set_current_dir(&nb).expect("cwd");
    let got = [of_path(&p, Path::new(name)), of_path(&p, &Path::new("g").join(name)), of_path(&p, &Path::new(".").join(name))];
    let n1 = of_notebook(&p, Path::new("t.onetoc2"));
    let n2 = of_notebook(&p, Path::new("./u.onetoc2"));
    std::env::set_current_dir(back).expect("cwd");
    for (g, at) in got.iter().zip([PathBuf::from(name), Path::new("g").join(name), Path::new(".").join(name)]) {
        if *g != want(&at) {
            return fail("relative path", &want(&at), g);
        }
    }
    for (g, file) in [(n1, "t.onetoc2"), (n2, "u.onetoc2")] {
        let a = of_notebook(&p, &nb.join(file));
        if a.starts_with("ok") != g.starts_with("ok") || a.starts_with("ok") && a != g {
            return fail("notebook by a relative path", &a, &g);
        }
    }
    Ok(Stat::new(fnv(&d.bytes) ^ fnv(name.as_bytes()), format!("{} as {name:?}: {}", d.kind, short.chars().take(140).collect::<String>())).class(d.kind.as_str()).class(class(&short)).class(format!("name {name:?}")))
}
/// A history of parses on several parsers; every question has one answer.
fn c19_history(cx: &mut Cx) -> R {
    let n = 2 + cx.x.n(4);
    let mut ins: Vec<In> = (0..n).map(|i| input(cx, i)).collect();
    // close relatives: the same file cut, with one byte changed, emptied
    for _ in 0..cx.x.n(3) {
        let mut a = ins[cx.x.n(ins.len())].clone();
        if a.toc {
            continue;
        }
        match cx.x.n(3) {
            0 => {
                let k = cx.x.n(a.bytes.len() + 1);
                a.bytes.truncate(k);
            }
            1 => damage::mutate_bytes(&mut cx.x, &mut a.bytes, 1),
            _ => a.bytes.clear(),
        }
        a.kind = "relative".into();
        ins.push(a);
    }
    for (i, a) in ins.iter().enumerate() {
        if !a.toc {
            std::fs::write(cx.dir.join(format!("h{i}.one")), &a.bytes).expect("scratch");
        }
    }
    let ps = [Parser::new(), Parser::default(), Parser::new()];
    let mut known: BTreeMap<(usize, usize), String> = BTreeMap::new();
    let steps = 6 + cx.x.n(20);
    let mut log = vec![];
    for _ in 0..steps {
        let (i, way, who) = (cx.x.n(ins.len()), cx.x.n(3), cx.x.n(3));
        let a = &ins[i];
        let p = &ps[who];
        let way = if a.toc { 0 } else { way };
        let got = match way {
            0 => a.ask(p),
            // all inputs under one name
            1 => of_buffer(p, &a.bytes, Path::new("same name.one")),
            _ => of_path(p, &cx.dir.join(format!("h{i}.one"))),
        };
        log.push(format!("{i}/{way}/{who}"));
        match known.get(&(i, way)) {
            Some(w) if *w != got => {
                let mut f = a.fail("an earlier parse changes the outcome", w, &got);
                f.msg = format!("after {}: {}", log.join(" "), f.msg);
                return Err(f);
            }
            Some(_) => {}
            None => {
                known.insert((i, way), got);
            }
        }
    }
    let repeats = steps - known.len();
    if repeats == 0 {
        return Ok(Stat::trivial());
    }
    let ok = known.values().filter(|s| s.starts_with("ok")).count();
    Ok(Stat::new(ins.iter().fold(fnv(log.join(" ").as_bytes()), |k, a| k ^ fnv(&a.bytes)), format!("{steps} parses of {} inputs ({repeats} repeated): {}", ins.len(), log.join(" "))).class(if ok == known.len() {
        "all read"
    } else if ok == 0 {
        "all refused"
    } else {
        "read and refused"
    }))
}
/// Changes a document as an editor would: the objects keep their identifiers,
/// their contents differ.
fn edit(t: &mut Tape, f: &mut FileModel) {
    let n = f.spaces.len() + 1;
    let k = t.n(n);
    let s = if k == 0 { &mut f.root } else { &mut f.spaces[k - 1] };
    let mut l: Vec<&mut Obj> = s.objs_mut().collect();
    if l.is_empty() {
        return;
    }
    let i = t.n(l.len());
    match t.weighted(&[4, 2, 4, 2]) {
        0 => {
            // two objects of a kind change places
            let same: Vec<usize> = (0..l.len()).filter(|j| *j != i && l[*j].jcid == l[i].jcid).collect();
            if !same.is_empty() {
                let j = t.pick(&same);
                let (a, b) = l.split_at_mut(i.max(j));
                let (a, b) = (&mut a[i.min(j)], &mut b[0]);
                std::mem::swap(&mut a.props, &mut b.props);
                std::mem::swap(&mut a.blob, &mut b.blob);
            }
        }
        1 => {
            if !l[i].props.is_empty() {
                let j = t.n(l[i].props.len());
                l[i].props.remove(j);
            }
        }
        2 => {
            // other values of the same types
            for (_, v) in &mut l[i].props {
                match v {
                    PV::Bool(b) => *b = !*b,
                    PV::U8(x) => *x ^= t.pick(&[0, 1, 2]),
                    PV::U16(x) => *x ^= t.pick(&[0, 1, 2]),
                    PV::U32(x) => *x ^= t.pick(&[0, 1, 0x10000]),
                    PV::Vec(b) if b.len() > 1 => {
                        let at = t.n(b.len()) & !1;
                        b[at] ^= t.pick(&[0, 1, 2]);
                    }
                    PV::Objs(o) if o.len() > 1 => {
                        if t.flip() {
                            o.rotate_left(1)
                        }
                    }
                    _ => {}
                }
            }
        }
        _ => {
            for (_, v) in &mut l[i].props {
                if let PV::Objs(o) = v {
                    if o.len() > 1 {
                        o.pop();
                    }
                }
            }
        }
    }
}
/// Versions of one document, read one after the other: each as in a process
/// that has read nothing else, and as part of a notebook as on its own.
fn c19_versions(cx: &mut Cx) -> R {
    let mut cfg = base_cfg(&mut cx.x);
    cfg.budget = cx.x.pick(&[12, 30]);
    cfg.tags = 5;
    cfg.lists = 8;
    cfg.stretch = 0;
    let wc = if cx.x.flip() { WireCfg::PLAIN } else { some_wire(&mut cx.x) };
    let mut f = gen_section(&mut cx.m, &cfg, &mut []).file;
    let n = 2 + cx.x.n(3);
    let mut versions = vec![];
    for i in 0..n {
        if i > 0 {
            for _ in 0..1 + cx.x.n(4) {
                edit(&mut cx.x, &mut f);
            }
        }
        versions.push(encode(&f, &mut cx.w.clone(), wc).bytes);
    }
    let dir = cx.fresh_dir();
    let p = Parser::new();
    let mut got = vec![];
    for (i, b) in versions.iter().enumerate() {
        got.push(of_buffer(&p, b, Path::new("a.one")));
        std::fs::write(dir.join(format!("v{i}.one")), b).expect("scratch");
    }
    let fail = |sig: &str, i: usize, a: &str, b: &str| {
        let mut f = Fail::new(sig, format!("{sig}: version {i} of {n}: {}", parting(a, b)));
        for (j, v) in versions.iter().enumerate() {
            f = f.file(&format!("v{j}.one"), v);
        }
        Err(f)
    };
    for (i, w) in got.iter().enumerate() {
        let list = dir.join("list");
        std::fs::write(&list, format!("buffer\t{}\n", dir.join(format!("v{i}.one")).display())).expect("scratch");
        let o = std::process::Command::new(std::env::current_exe().expect("exe")).arg("outcomes").arg(&list).arg("forward").output().expect("outcomes");
        let alone = String::from_utf8_lossy(&o.stdout).trim_end().trim_start_matches("0\t").to_string();
        let w = sealed(w);
        if alone != w.trim_end() {
            return fail("earlier parses change the outcome", i, &alone, &w);
        }
    }
    let read = got.iter().filter(|s| s.starts_with("ok")).count();
    let different = got.iter().collect::<BTreeSet<_>>().len();
    // as sections of one notebook, in any order
    let mut in_book: Vec<usize> = (0..n).filter(|i| got[*i].starts_with("ok")).collect();
    cx.x.shuffle(&mut in_book);
    let root = TocNode { name: None, order: None, color: None, kids: in_book.iter().enumerate().map(|(k, i)| TocNode { name: Some(format!("v{i}.one")), order: Some(k as u32 + 1), color: None, kids: vec![] }).collect() };
    let toc = dir.join("t.onetoc2");
    std::fs::write(&toc, plain(&toc_file(&mut Tape::empty(), &root, &GenCfg::base()))).expect("scratch");
    match guard(|| p.parse_notebook(&toc)) {
        P::Ok(b) => {
            if b.entries().len() != in_book.len() {
                return fail("versions in one notebook", 0, &format!("{} entries", in_book.len()), &format!("{} entries", b.entries().len()));
            }
            for (e, i) in b.entries().iter().zip(&in_book) {
                let s = match e {
                    SectionEntry::Section(s) => format!("ok {s:?}"),
                    _ => "a group".into(),
                };
                let w = of_path(&p, &dir.join(format!("v{i}.one")));
                if s != w {
                    return fail("a version in a notebook with others", *i, &w, &s);
                }
            }
        }
        r => return fail("versions in one notebook", 0, "ok", &r.bad().unwrap_or_default()),
    }
    let key = versions.iter().fold(0u64, |k, b| k.rotate_left(5) ^ fnv(b));
    let s = format!("{n} versions, {read} read, {different} different outcomes");
    Ok(if different > 1 { Stat::new(key, s).class(if read > 1 { "versions read" } else { "versions refused" }) } else { Stat::trivial() })
}
/// Hundreds of failed and successful parses between two of the same file, all
/// on one thread that has parsed nothing before.
fn c19_marathon(cx: &mut Cx) -> R {
    let mut cfg = base_cfg(&mut cx.x);
    cfg.budget = cx.x.pick(&[4, 10]);
    cfg.tags = 6;
    let wc = if cx.x.flip() { WireCfg::PLAIN } else { WireCfg::MILD };
    let (a, b) = (gen_section(&mut cx.m, &cfg, &mut []), gen_section(&mut cx.m, &cfg, &mut []));
    let good: Vec<Vec<u8>> = [a, b].iter().map(|d| encode(&d.file, &mut cx.w, wc).bytes).collect();
    let len = good[0].len() as u64;
    // fewer for large files
    let between = cx.x.pick(&[40u64, 150, 300, 600]).min(30_000_000 / len.max(1)).max(10);
    // runs of neighbouring bytes, or places all over the file
    let (start, step) = (cx.x.below(len), cx.x.pick(&[1, 1 + len / between, 7919]));
    let flip = cx.x.pick(&[0x04u8, 0x40, 0xff, 0x01, 0x80, 0x55]);
    let cut = cx.x.chance(1, 6);
    let bad: Vec<Vec<u8>> = (0..between)
        .map(|i| {
            let at = ((start + i * step) % len) as usize;
            let mut v = good[0].clone();
            if cut {
                v.truncate(at);
            } else {
                v[at] ^= flip;
            }
            v
        })
        .collect();
    let name = Path::new("a.one");
    let (first, failed, last) = std::thread::scope(|s| {
        s.spawn(|| {
            let p = Parser::new();
            let first: Vec<String> = good.iter().map(|g| of_buffer(&p, g, name)).collect();
            let failed = bad.iter().filter(|b| !of_buffer(&p, b, name).starts_with("ok")).count();
            let last: Vec<String> = good.iter().map(|g| of_buffer(&p, g, name)).collect();
            (first, failed, last)
        })
        .join()
        .expect("a thread of the check")
    });
    for (i, (x, y)) in first.iter().zip(&last).enumerate() {
        if x != y {
            let mut f = Fail::new("many parses change the outcome", format!("after {failed} failed of {between} parses: {}", parting(x, y))).file("a.one", &good[i]);
            if let Some(b) = bad.iter().find(|b| !of_buffer(&Parser::new(), b, name).starts_with("ok")) {
                f = f.file("between.one", b);
            }
            return Err(f);
        }
    }
    Ok(Stat::new(fnv(&good[0]) ^ fnv(&start.to_le_bytes()), format!("{between} parses of damaged copies ({failed} failed) between two of a file of {len} bytes")).class(if failed >= 100 { ">= 100 failures between" } else { "< 100 failures between" }))
}
/// Bytes after the package.
fn c19_trailing(cx: &mut Cx) -> R {
    let toc = cx.x.chance(1, 6);
    let mut cfg = base_cfg(&mut cx.x);
    cfg.budget = cx.x.pick(&[8, 30]);
    let mut f = if toc {
        let node = gen_toc(&mut cx.m, &["a.one", "b.one", "g", "none.one"]);
        toc_file(&mut cx.m, &node, &cfg)
    } else {
        gen_section(&mut cx.m, &cfg, &mut []).file
    };
    // content may be damaged, the package is whole
    if cx.x.chance(1, 3) {
        damage::mutate_model(&mut cx.x, &mut f, 1);
    }
    let mut wc = some_wire(&mut cx.x);
    wc.trailing = false;
    let e = encode(&f, &mut cx.w, wc);
    assert_eq!(e.bytes.len(), e.stats.package_end);
    let base = damage::notebook_dir(&cx.dir);
    let p = Parser::new();
    let ask = |b: &[u8]| {
        if toc {
            let at = base.join("t.onetoc2");
            std::fs::write(&at, b).expect("scratch");
            of_notebook(&p, &at)
        } else {
            of_buffer(&p, b, Path::new("a.one"))
        }
    };
    let want = ask(&e.bytes);
    let mut kinds = vec![];
    for _ in 0..3 {
        let mut b = e.bytes.clone();
        let k = cx.x.n(7);
        match k {
            0 => {
                let n = cx.x.pick(&[1usize, 2, 3, 15, 16, 300, 5000]);
                b.extend(cx.x.bytes(n))
            }
            1 => b.extend(vec![0; cx.x.pick(&[1usize, 7, 4096, 70000])]),
            2 => b.extend(e.bytes.clone()),
            3 => {
                let n = cx.x.n(e.bytes.len());
                b.extend(&e.bytes[n..])
            }
            4 => {
                let n = cx.x.n(e.bytes.len());
                b.extend(&e.bytes[..n])
            }
            // what a package goes on or ends with
            5 => b.extend(cx.x.pick(&[vec![0x05u8], vec![0x55], vec![0x05, 0x55, 0xeb, 0x01], vec![0xeb, 0x01], vec![0x0c, 0x56], vec![0xff; 9], vec![0x55, 0xeb, 0x01]])),
            _ => {
                let other = encode(&gen_section(&mut cx.x, &GenCfg::base(), &mut []).file, &mut Tape::empty(), WireCfg::PLAIN).bytes;
                b.extend(other)
            }
        }
        kinds.push(["random bytes", "zeros", "a copy", "a tail of itself", "a head of itself", "end marks", "another package"][k]);
        let got = ask(&b);
        if got != want {
            return Err(Fail::new("bytes after the package change the outcome", format!("{} after the package: {}", kinds.last().unwrap(), parting(&want, &got))).file(if toc { "without.onetoc2" } else { "without.one" }, &e.bytes).file(if toc { "with.onetoc2" } else { "with.one" }, &b));
        }
    }
    let mut s = Stat::new(fnv(&e.bytes), format!("{} bytes, then {}: {}", e.bytes.len(), kinds.join(", "), want.chars().take(100).collect::<String>())).class(class(&want)).class(if toc { "notebook" } else { "section" });
    for k in kinds {
        s = s.class(k);
    }
    Ok(s)
}

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C03",
            rule: "one input asked for again: by the same and by new parsers, from several threads at once, in other processes and environments, and from a folder filled in another order; every outcome is compared as a whole with the first (debug text or error text); non-trivial: all",
            parts: vec![
                part("repeat", &[1500, 1500, 300], 20000, 300000, c03),
                part("threads", &[1500, 1500, 900], 2500, 40000, c03_threads),
                part("processes", &[1500, 1500, 1500], 400, 6000, c03_processes),
                part("folders", &[1500, 400, 100], 1500, 20000, c03_folders),
            ],
            assumptions: &["iteration order of hash maps differs between maps of one process with the standard library's default hasher, so a dependence on it shows with a probability of at least 1/2 per repetition"],
        },
        Check {
            id: "C19",
            rule: "one section by all entry points, spellings and names; histories of parses on several parsers, versions of one document after each other, in processes of their own and in one notebook; hundreds of parses between two of one file; packages followed by other bytes; outcomes are compared as a whole; non-trivial: all but histories that ask nothing twice",
            parts: vec![
                part("entries", &[1500, 1500, 300], 6000, 80000, c19_entries),
                part("history", &[1500, 1500, 900], 5000, 80000, c19_history),
                part("versions", &[1500, 1500, 300], 6000, 80000, c19_versions),
                part("marathon", &[1200, 600, 20], 1500, 40000, c19_marathon),
                part("trailing", &[1500, 1500, 300], 12000, 200000, c19_trailing),
            ],
            assumptions: &[],
        },
    ]
}
