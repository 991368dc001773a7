//! C15, C16, C22, C24, C27: notebooks on disk, with a model of what a folder
//! lists, and watchers of what is touched.
use super::content::base_cfg;
use super::wire::some_wire;
use crate::damage;
use crate::r#gen::*;
use crate::pp::*;
use crate::run::*;
use crate::tape::Tape;
use crate::v::*;
use crate::wire::*;
use onenote_parser::Parser;
use std::collections::BTreeMap;
use std::ffi::OsStr;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::os::unix::fs::{MetadataExt, PermissionsExt, symlink};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

const BIN: &str = "OneNote_RecycleBin";

// ---- notebooks -----------------------------------------------------------------
#[derive(Clone, Debug)]
enum Node {
    /// index of the section
    File(Vec<u8>),
    Dir(Folder),
}
#[derive(Clone, Debug, Default)]
struct Folder {
    items: BTreeMap<String, Node>,
    /// which items are links, to which other items of the folder
    links: BTreeMap<String, String>,
    toc: Option<(String, Listing)>,
    /// files that are no tables of contents though they may look so
    decoys: Vec<(String, Vec<u8>)>,
}
#[derive(Clone, Debug)]
struct Listing {
    root: TocNode,
    bytes: Vec<u8>,
}
/// What a listing lists, in stored order.
fn flat(n: &TocNode) -> Vec<(u32, String)> {
    match &n.name {
        Some(x) => vec![(n.order.expect("order"), x.replace("^M", "+").replace("^J", ","))],
        None => n.kids.iter().flat_map(flat).collect(),
    }
}
fn listed(n: &TocNode) -> Vec<String> {
    let mut l = flat(n);
    l.sort_by_key(|x| x.0);
    let mut out: Vec<String> = vec![];
    for (_, x) in l {
        if out.last() != Some(&x) {
            out.push(x);
        }
    }
    out
}
impl Folder {
    fn find(&self, path: &str) -> Option<&Node> {
        let (head, rest) = path.split_once('/').unwrap_or((path, ""));
        match (self.items.get(head)?, rest) {
            (n, "") => Some(n),
            (Node::Dir(d), rest) => d.find(rest),
            _ => None,
        }
    }
    fn write(&self, at: &Path) {
        std::fs::create_dir_all(at).expect("scratch");
        for (n, x) in &self.items {
            match x {
                _ if self.links.contains_key(n) => symlink(&self.links[n], at.join(n)).expect("scratch"),
                Node::File(b) => std::fs::write(at.join(n), b).expect("scratch"),
                Node::Dir(d) => d.write(&at.join(n)),
            }
        }
        if let Some((n, l)) = &self.toc {
            std::fs::write(at.join(n), &l.bytes).expect("scratch");
        }
        for (n, b) in &self.decoys {
            std::fs::write(at.join(n), b).expect("scratch");
        }
    }
    /// The entries its table of contents gives; None if something is broken.
    fn entries(&self, st: &mut Seen) -> Option<Vec<V>> {
        let (_, l) = self.toc.as_ref()?;
        let all = flat(&l.root);
        let names = listed(&l.root);
        st.deduped |= names.len() < all.len();
        st.ties |= (0..all.len()).any(|i| (0..i).any(|j| all[i].0 == all[j].0 && all[i].1 != all[j].1));
        st.unsorted |= all.windows(2).any(|w| w[0].0 > w[1].0);
        let mut out = vec![];
        for n in names {
            let last = n.rsplit('/').next().unwrap();
            let Some(x) = self.find(&n) else {
                st.absent = true;
                continue;
            };
            if last == BIN {
                st.bin = true;
                continue;
            }
            st.escaped |= n.contains(['+', ',']);
            st.linked |= self.links.contains_key(&n);
            st.deep |= n.contains('/');
            out.push(match x {
                Node::File(b) => {
                    st.files += 1;
                    buffer_v(b, last).ok()?
                }
                Node::Dir(d) => {
                    st.groups += 1;
                    st.depth += 1;
                    st.deepest = st.deepest.max(st.depth);
                    let l = d.entries(st)?;
                    st.depth -= 1;
                    m("group_entry", vec![("display_name", s(last)), ("entries", V::L(l))])
                }
            });
        }
        Some(out)
    }
    fn notebook(&self, st: &mut Seen) -> Option<V> {
        let l = self.entries(st)?;
        Some(m("notebook", vec![("color", o(self.toc.as_ref()?.1.root.color, color)), ("entries", V::L(l))]))
    }
}
#[derive(Default, Debug)]
struct Seen {
    files: u32,
    groups: u32,
    depth: u32,
    deepest: u32,
    deduped: bool,
    ties: bool,
    unsorted: bool,
    absent: bool,
    bin: bool,
    escaped: bool,
    deep: bool,
    linked: bool,
}
const WORDS: [&str; 20] = ["a", "b", "Notes", "Plan 7", "ärger", "日本語", "x.y", "A", "B", "q-r", "s_t", "C+D", "E, F", "J+,K", "(z)", "n'1", "[w]", "#5", "Z", "𝒳"];
/// A plain name: no forbidden characters, no space or dot at either end.
fn plain_name(t: &mut Tape) -> String {
    if t.chance(2, 3) {
        return t.pick(&WORDS).to_string();
    }
    const IN: [&str; 20] = [" ", "  ", "-", "_", ".", ",", "+", "&", "(", ")", "[", "]", "!", "#", "$", "%", "'", "@", "~", "\u{a0}"];
    const CH: [char; 14] = ['a', 'b', 'X', 'Y', '0', '7', 'é', 'ß', 'Ж', '語', '🙂', 'ﬁ', 'İ', 'z'];
    let mut x = String::from(t.pick(&["", "", "", "_", "-", "- ", "__", "'", "("]));
    if x.ends_with(' ') {
        x.push('k');
    }
    for _ in 0..1 + t.n(6) {
        x.push(t.pick(&CH));
        if t.flip() {
            x.push_str(t.pick(&IN));
            x.push(t.pick(&CH));
        }
    }
    x.push_str(t.pick(&["", "", "", "_", "-", ",", ";", ")", "!"]));
    // names reserved on another system
    x + t.pick(&["", "1z"])
}
/// Sections that differ from each other.
struct Pool(Vec<Vec<u8>>);
fn pool(t: &mut Tape) -> Pool {
    let mut v = vec![];
    let mut cfg = GenCfg::base();
    cfg.budget = 3;
    for i in 0..6u32 {
        let mut f = gen_section(t, &cfg, &mut []).file;
        // each has a colour of its own, and no name
        for o in f.root.objs_mut().filter(|o| o.jcid == jc::SECTION_META) {
            o.props.retain(|p| p.0 != pid::SECTION_COLOR && p.0 != pid::SECTION_NAME);
            o.props.push((pid::SECTION_COLOR, PV::U32(0x00c0_0000 + i)));
        }
        v.push(plain(&f));
    }
    Pool(v)
}
fn plain(f: &FileModel) -> Vec<u8> {
    encode(f, &mut Tape::empty(), WireCfg::PLAIN).bytes
}
fn leaf(name: &str, order: u32) -> TocNode {
    TocNode { name: Some(escape_name(name)), order: Some(order), color: None, kids: vec![] }
}
/// Hides some neighbours in unnamed containers.
fn nest(t: &mut Tape, mut l: Vec<TocNode>) -> Vec<TocNode> {
    for _ in 0..t.n(4) {
        if l.is_empty() {
            break;
        }
        let (i, k) = (t.n(l.len()), 1 + t.n(3));
        let k = (i + k).min(l.len());
        let kids: Vec<TocNode> = l.drain(i..k).collect();
        l.insert(i, TocNode { name: None, order: t.flip().then(|| t.u32b()), color: t.flip().then(|| t.raw()), kids });
    }
    if t.chance(1, 6) {
        let i = t.n(l.len() + 1);
        l.insert(i, TocNode { name: None, order: None, color: None, kids: vec![] });
    }
    l
}
fn listing(t: &mut Tape, names: &[String]) -> Listing {
    let wide = t.flip();
    let kids: Vec<TocNode> = names
        .iter()
        .map(|n| {
            let mut x = leaf(n, if wide { t.u32b() } else { t.pick(&[0, 1, 2, 3, 4, 5, 0xFFFF, 0x8000_0000, u32::MAX - 1, u32::MAX]) });
            if t.chance(1, 8) {
                // raw spelling, without escapes
                x.name = Some(n.clone());
            }
            if t.chance(1, 8) {
                x.color = Some(t.raw());
            }
            if t.chance(1, 8) {
                // not a container, whatever lies below it
                x.kids = vec![leaf("Hidden.one", 0), leaf("a.one", 1)];
            }
            x
        })
        .collect();
    let kids = nest(t, kids);
    let root = TocNode { name: None, order: t.chance(1, 4).then(|| t.u32b()), color: t.chance(2, 3).then(|| if t.chance(1, 4) { u32::MAX } else { t.raw() & 0xff_ffff }), kids };
    let f = toc_file(t, &root, &GenCfg::base());
    let wc = if t.flip() { WireCfg::PLAIN } else { some_wire(t) };
    let bytes = encode(&f, &mut t.clone(), wc).bytes;
    Listing { root, bytes }
}
fn folder(t: &mut Tape, p: &Pool, depth: u32, broken: bool) -> Folder {
    let mut d = Folder::default();
    let mut sub: Vec<String> = vec![];
    let k = t.n(7).max(t.n(4));
    for _ in 0..k + usize::from(depth == 3) {
        let mut n = plain_name(t);
        match t.weighted(&[6, if depth > 0 { 3 } else { 0 }, 1]) {
            0 => {
                n.push_str(t.pick(&[".one", ".one", ".one", "", ".ONE", ".one2", ".onetoc2x"]));
                let b = if broken && t.chance(1, 6) { t.pick(&[&b"junk"[..], &p.0[0][..p.0[0].len() / 2], &b""[..]]).to_vec() } else { p.0[t.n(p.0.len())].clone() };
                d.items.insert(n, Node::File(b));
            }
            1 => {
                n.push_str(t.pick(&["", "", ".one", ".d"]));
                let mut g = folder(t, p, depth - 1, broken);
                if broken && t.chance(1, 8) {
                    g.toc = None;
                }
                sub.extend(g.items.iter().filter(|(_, x)| matches!(x, Node::File(_))).map(|(k, _)| format!("{n}/{k}")));
                d.items.insert(n, Node::Dir(g));
            }
            _ => {
                // the recycle bin and what is nearly called so
                let n = t.pick(&[BIN, BIN, "OneNote_RecycleBin.one", "onenote_recyclebin", "OneNote_RecycleBins", "My OneNote_RecycleBin"]);
                let x = match t.n(3) {
                    0 => Node::File(p.0[t.n(p.0.len())].clone()),
                    1 => Node::Dir(folder(t, p, 0, false)),
                    // broken, which is not noticed
                    _ if n == BIN => Node::Dir(Folder::default()),
                    _ => Node::Dir(folder(t, p, 0, false)),
                };
                d.items.insert(n.into(), x);
            }
        }
    }
    if t.chance(1, 10) && !d.items.is_empty() {
        // another name for something in the folder
        let k = t.n(d.items.len());
        let (to, x) = d.items.iter().nth(k).map(|(n, x)| (n.clone(), x.clone())).unwrap();
        let n = plain_name(t) + t.pick(&[" link.one", " link"]);
        // what the link leads to decides, but groups are called by its name
        if !d.items.contains_key(&n) && !matches!(&x, Node::Dir(g) if g.toc.is_none()) {
            d.items.insert(n.clone(), x);
            d.links.insert(n, to);
        }
    }
    if t.chance(1, 40) {
        // many sections
        for i in 0..20 + t.n(300) {
            d.items.entry(format!("{i} {}.one", t.pick(&WORDS))).or_insert(Node::File(p.0[t.n(p.0.len())].clone()));
        }
    }
    // what is listed: most things there are, some twice, some that are not there
    let all: Vec<String> = d.items.keys().cloned().collect();
    let mut names = vec![];
    for n in &all {
        if !t.chance(1, 8) {
            names.push(n.clone());
        }
    }
    t.shuffle(&mut names);
    for _ in 0..t.n(4) {
        let i = t.n(names.len() + 1);
        match t.n(4) {
            0 | 1 if !names.is_empty() => {
                let j = t.n(names.len());
                let n = names[j].clone();
                names.insert(if t.flip() { j } else { i }, n);
            }
            2 if !sub.is_empty() => {
                let n = t.pick(&sub);
                names.insert(i, n);
            }
            _ => {
                let n = plain_name(t) + t.pick(&[" gone.one", " gone", "/gone.one"]);
                names.insert(i, n);
            }
        }
    }
    d.toc = Some((t.pick(&["Open Notebook.onetoc2", "t.onetoc2", "ä.onetoc2", "a.b.onetoc2", "zz.onetoc2"]).into(), listing(t, &names)));
    for _ in 0..t.n(3) {
        let n = t.pick(&["0.onetoc2.bak", "0.ONETOC2", "onetoc2", ".onetoc2", "a.onetoc", "0.onetoc2x", "zonetoc2"]);
        let b = if t.flip() { vec![] } else { d.toc.as_ref().unwrap().1.bytes.clone() };
        if !d.items.contains_key(n) {
            d.decoys.push((n.into(), b));
        }
    }
    d
}
/// Display names are another property's matter.
fn nameless(v: &mut V) {
    match v {
        V::L(l) => l.iter_mut().for_each(nameless),
        V::M(t, _) => {
            if matches!(*t, "section" | "group_entry") {
                if let Some(x) = v.get_mut("display_name") {
                    *x = V::N;
                }
            }
            if let V::M(_, f) = v {
                f.iter_mut().filter(|x| x.0 == "entries").for_each(|x| nameless(&mut x.1));
            }
        }
        _ => {}
    }
}
fn tree(at: &Path) -> String {
    fn rec(at: &Path, base: &Path, out: &mut Vec<String>) {
        let mut l: Vec<PathBuf> = at.read_dir().into_iter().flatten().flatten().map(|e| e.path()).collect();
        l.sort();
        for p in l {
            let n = p.strip_prefix(base).unwrap().display().to_string();
            match p.symlink_metadata() {
                Ok(m) if m.is_symlink() => out.push(format!("{n} -> {}", p.read_link().unwrap().display())),
                Ok(m) if m.is_dir() => {
                    out.push(format!("{n}/"));
                    rec(&p, base, out);
                }
                Ok(m) => out.push(format!("{n} ({} bytes)", m.len())),
                Err(_) => {}
            }
        }
    }
    let mut l = vec![];
    rec(at, at, &mut l);
    l.join("\n")
}

/// For `vh dump`: a notebook below `at`, with its table of contents as `at/toc`.
pub fn dump_book(cx: &mut Cx, at: &Path) {
    let p = pool(&mut cx.m);
    let broken = cx.x.chance(1, 8);
    let d = folder(&mut cx.x, &p, 3, broken);
    d.write(&at.join("nb"));
    std::fs::write(at.join("toc"), &d.toc.as_ref().unwrap().0).expect("dump");
}

// ---- C15 -----------------------------------------------------------------------
fn c15(cx: &mut Cx) -> R {
    let p = pool(&mut cx.m);
    let base = cx.fresh_dir().join("nb");
    let broken = cx.x.chance(1, 8);
    let d = folder(&mut cx.x, &p, 3, broken);
    d.write(&base);
    let name = d.toc.as_ref().unwrap().0.clone();
    let at = base.join(&name);
    let mut st = Seen::default();
    let want = d.notebook(&mut st);
    // the same place, spelled in several ways
    let top = base.parent().unwrap();
    let (from, spelled) = match cx.x.weighted(&[8, 2, 1, 2, 1, 1, 1]) {
        0 => (None, at.clone()),
        1 => (Some(&*base), PathBuf::from(&name)),
        2 => (Some(&*base), Path::new(".").join(&name)),
        3 => (Some(top), Path::new("nb").join(&name)),
        4 => (Some(top), Path::new("nb/../nb").join(&name)),
        5 => {
            symlink("nb", top.join("other name")).expect("scratch");
            (None, top.join("other name").join(&name))
        }
        _ => (None, top.join("nb").join(".").join(".").join(&name)),
    };
    let got = match from {
        None => notebook_v(&spelled),
        Some(d) => {
            let was = std::env::current_dir().expect("cwd");
            std::env::set_current_dir(d).expect("scratch");
            let r = notebook_v(&spelled);
            std::env::set_current_dir(was).expect("cwd");
            r
        }
    };
    let fail = |sig: &str, msg: String| {
        Err(Fail::new(sig, msg).file("root.onetoc2", &d.toc.as_ref().unwrap().1.bytes).file("tree.txt", tree(&base).as_bytes()).file("listed.txt", listed(&d.toc.as_ref().unwrap().1.root).join("\n").as_bytes()))
    };
    match (want, got) {
        (None, P::Err(e)) => Ok(Stat::new(fnv(tree(&base).as_bytes()), format!("broken: {e}")).class("something broken")),
        (None, r) => fail("a broken entry is not reported", format!("an entry that cannot be read, or a group without a table of contents, is not reported: {}", r.bad().unwrap_or("the notebook is read".into()))),
        (Some(mut w), P::Ok(mut g)) => {
            nameless(&mut w);
            nameless(&mut g);
            if let Some(x) = diff(&w, &g).into_iter().next() {
                return fail(&format!("notebook: {}.{}", x.tag, x.field), format!("{}: {}", x.path, x.what));
            }
            if st.files + st.groups == 0 {
                return Ok(Stat::trivial());
            }
            let mut r = Stat::new(w.hash() ^ fnv(tree(&base).as_bytes()), format!("{st:?}: {}", listed(&d.toc.as_ref().unwrap().1.root).join(" | ")));
            for (n, b) in [
                ("listed twice in a row", st.deduped),
                ("equal order numbers", st.ties),
                ("not in order", st.unsorted),
                ("absent entries", st.absent),
                ("recycle bin", st.bin),
                ("escaped names", st.escaped),
                ("names with folders", st.deep),
                ("groups", st.groups > 0),
                ("nested groups", st.deepest > 1),
                (">= 5 entries", st.files + st.groups >= 5),
                (">= 100 entries", st.files + st.groups >= 100),
                ("links within the notebook", st.linked),
                ("path not plainly absolute", spelled != at),
                ("coloured", !matches!(w.get("color"), V::N)),
            ] {
                if b {
                    r = r.class(n);
                }
            }
            Ok(r)
        }
        (Some(_), r) => fail("notebook", format!("the notebook is not read: {}", r.bad().unwrap())),
    }
}

// ---- watching ------------------------------------------------------------------
/// inotify on a set of folders. There is one per process, as closing one is
/// slow; watches end with the folder they are on.
struct Watch {
    fd: i32,
    dirs: BTreeMap<i32, PathBuf>,
}
static INOTIFY: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(-1);
impl Watch {
    fn new() -> Option<Watch> {
        use std::sync::atomic::Ordering::SeqCst;
        let me = std::process::id() as i64;
        let mut x = INOTIFY.load(SeqCst);
        if x >> 20 != me {
            // a forked process must not share its parent's
            let fd = unsafe { libc::inotify_init1(libc::IN_NONBLOCK | libc::IN_CLOEXEC) };
            if fd < 0 {
                return None;
            }
            x = me << 20 | fd as i64;
            INOTIFY.store(x, SeqCst);
        }
        let w = Watch { fd: (x & 0xfffff) as i32, dirs: BTreeMap::new() };
        w.drain();
        Some(w)
    }
    fn add(&mut self, p: &Path, mask: u32) {
        let c = std::ffi::CString::new(p.as_os_str().as_bytes()).expect("path");
        let wd = unsafe { libc::inotify_add_watch(self.fd, c.as_ptr(), mask) };
        assert!(wd >= 0, "inotify watch on {p:?}");
        self.dirs.insert(wd, p.to_path_buf());
    }
    fn drain(&self) -> Vec<(PathBuf, u32)> {
        let mut out = vec![];
        let mut buf = [0u8; 16384];
        loop {
            let n = unsafe { libc::read(self.fd, buf.as_mut_ptr() as *mut _, buf.len()) };
            if n <= 0 {
                return out;
            }
            let mut at = 0;
            while at + 16 <= n as usize {
                let i = |o: usize| u32::from_ne_bytes(buf[at + o..at + o + 4].try_into().unwrap());
                let (wd, mask, len) = (i(0) as i32, i(4), i(12) as usize);
                let name: Vec<u8> = buf[at + 16..at + 16 + len].iter().copied().take_while(|b| *b != 0).collect();
                let d = self.dirs.get(&wd).cloned().unwrap_or_default();
                at += 16 + len;
                if !self.dirs.contains_key(&wd) || mask & libc::IN_IGNORED != 0 {
                    continue;
                }
                out.push((if name.is_empty() { d } else { d.join(OsStr::from_bytes(&name)) }, mask));
            }
        }
    }
}
// ---- C16 -----------------------------------------------------------------------
const FORBIDDEN: [&str; 16] = ["<", ">", ":", "\"", "|", "?", "*", "\\", "\u{1}", "\n", "\t", "\r", "\u{1f}", "\u{7f}", "\u{7}", "\u{85}"];
/// A name that must be refused, with the kind it is of. `nb` is the folder the
/// list lies in, `out` a folder next to it.
fn hostile_name(t: &mut Tape, nb: &Path, out: &Path, kids: &[String]) -> (String, &'static str) {
    let o = out.display().to_string();
    let n = nb.display().to_string();
    let inner = if kids.is_empty() { "a.one".to_string() } else { t.pick(kids) };
    match t.n(5) {
        0 => (
            match t.n(6) {
                0 => format!("{o}/secret.one"),
                1 => o,
                2 => format!("{n}/{inner}"),
                3 => format!("//{}/secret.one", o.trim_start_matches('/')),
                4 => "/".into(),
                _ => format!("/./{}/secret.one", o.trim_start_matches('/')),
            },
            "absolute",
        ),
        1 => (
            match t.n(12) {
                0 => "../out/secret.one".into(),
                1 => "../out".into(),
                2 => format!("{inner}/../../out/secret.one"),
                3 => format!("{inner}/../{inner}"),
                4 => "..".into(),
                5 => format!("./../{}", nb.file_name().unwrap().to_str().unwrap()) + "/" + &inner,
                6 => format!("{inner}/.."),
                7 => "../out/../out/secret.one".into(),
                8 => "./.././out/./secret.one".into(),
                9 => "../../../../../../../../../../../../../../../etc/passwd".into(),
                10 => "gone/../../out/secret.one".into(),
                _ => "../out/secret.one/.".into(),
            },
            "parent folder",
        ),
        2 => {
            let c = t.pick(&FORBIDDEN);
            (
                match t.n(8) {
                    0 => format!("{c}a.one"),
                    1 => format!("a{c}.one"),
                    2 => format!("a.o{c}ne"),
                    3 => format!("g{c}h/a.one"),
                    4 => format!("g/a{c}b.one"),
                    5 => "..\\out\\secret.one".into(),
                    6 => "C:\\secret.one".into(),
                    _ => format!("{}{c}b", t.pick(&["gone", "日", "a b"])),
                },
                "forbidden character",
            )
        }
        3 => (t.pick(&["", ".", "./", "./.", "././/."]).to_string(), "empty"),
        _ => (t.pick(&["l-file.one", "l-rel.one", "l-dir", "l-dir/secret.one", "l-up", "l-self", "l-chain.one", "l-up/out/secret.one", "l-dir/sub/deep.one", "l-sib.one", "l-root/secret.one"]).to_string(), "link outside"),
    }
}
/// Files outside the folder, and links leading there.
fn surround(p: &Pool, top: &Path, nb: &Path, links: &mut dyn FnMut() -> bool) -> PathBuf {
    let out = top.join("out");
    std::fs::create_dir_all(out.join("sub")).expect("scratch");
    std::fs::create_dir_all(top.join("nb-next")).expect("scratch");
    for f in ["out/secret.one", "out/sub/deep.one", "secret.one", "nb-next/secret.one"] {
        std::fs::write(top.join(f), &p.0[5]).expect("scratch");
    }
    let l = listing(&mut Tape::empty(), &["secret.one".into()]);
    for f in ["out/t.onetoc2", "t.onetoc2", "nb-next/t.onetoc2"] {
        std::fs::write(top.join(f), &l.bytes).expect("scratch");
    }
    let ln = |to: &Path, n: &str| symlink(to, nb.join(n)).expect("scratch");
    // inside the folder: allowed
    ln(Path::new("gone-away"), "l-gone.one");
    if links() {
        ln(&out.join("secret.one"), "l-file.one");
        ln(Path::new("../out/secret.one"), "l-rel.one");
        ln(&out, "l-dir");
        ln(Path::new(".."), "l-up");
        ln(Path::new("."), "l-self");
        ln(Path::new("l-rel.one"), "l-chain.one");
        // a folder whose name begins like that of this one
        ln(Path::new("../nb-next/secret.one"), "l-sib.one");
        ln(top, "l-root");
    }
    out
}
fn c16(cx: &mut Cx) -> R {
    let p = pool(&mut cx.m);
    let top = cx.fresh_dir().join("top");
    let nb = top.join("nb");
    let mut d = folder(&mut cx.x, &p, 2, false);
    for (n, b) in [("z1.one", 4usize), ("z2.one", 4)] {
        d.items.insert(n.into(), Node::File(p.0[b].clone()));
    }
    let grouped = cx.x.chance(1, 3);
    let kids: Vec<String> = d.items.keys().cloned().collect();
    // the folder whose list is hostile
    let host = if grouped { nb.join("gg") } else { nb.clone() };
    let out = if grouped { nb.join("out") } else { top.join("out") };
    let honest = cx.x.chance(1, 4);
    let mut kinds = vec![];
    let mut names: Vec<String> = listed(&d.toc.as_ref().unwrap().1.root);
    // links that stay inside are like what they lead to
    if cx.x.flip() {
        names.extend(["l-in.one".to_string(), "l-gone.one".to_string()]);
    }
    let clean = names.clone();
    if !honest {
        for _ in 0..1 + cx.x.n(2) {
            let (n, k) = hostile_name(&mut cx.x, &host, &out, &kids);
            let i = cx.x.n(names.len() + 1);
            names.insert(i, n);
            kinds.push(k);
        }
    }
    let mut raw: Vec<TocNode> = names.iter().map(|n| TocNode { name: Some(escape_name(n)), order: Some(cx.x.below(5) as u32), color: None, kids: vec![] }).collect();
    raw = nest(&mut cx.x, raw);
    let root = TocNode { name: None, order: None, color: None, kids: raw };
    let mut f = toc_file(&mut cx.w, &root, &GenCfg::base());
    // names must be stored as they are
    let bytes = plain(&f);
    f.blobs.clear();
    d.toc = Some((d.toc.unwrap().0, Listing { root: root.clone(), bytes }));
    d.write(&host);
    let around = if grouped { nb.clone() } else { top.clone() };
    surround(&p, &around, &host, &mut || !honest || cx.x.flip());
    symlink("z1.one", host.join("l-in.one")).expect("scratch");
    // a file that really has such a name is refused as well
    if cx.x.flip() {
        for n in &names {
            if n.contains(|c: char| FORBIDDEN.contains(&c.to_string().as_str())) && !n.contains(['/', '\0']) {
                let _ = std::fs::write(host.join(n), &p.0[4]);
            }
        }
    }
    // a group whose only table of contents is a link leading outside
    let mut outer = Folder::default();
    if grouped {
        outer.toc = Some(("n.onetoc2".into(), listing(&mut Tape::empty(), &["gg".into()])));
        std::fs::write(nb.join("n.onetoc2"), &outer.toc.as_ref().unwrap().1.bytes).expect("scratch");
        if !honest && cx.x.chance(1, 5) {
            std::fs::remove_file(host.join(&d.toc.as_ref().unwrap().0)).expect("scratch");
            symlink("../out/t.onetoc2", host.join("a.onetoc2")).expect("scratch");
            kinds.push("linked table of contents");
        }
    }
    let at = if grouped { nb.join("n.onetoc2") } else { nb.join(&d.toc.as_ref().unwrap().0) };
    let mut w = Watch::new().expect("inotify");
    let mask = libc::IN_OPEN | libc::IN_ACCESS;
    let outside: Vec<PathBuf> = ["out", "out/sub", "nb-next", ""].iter().map(|x| around.join(x)).collect();
    for o in &outside {
        w.add(o, mask);
    }
    let _ = w.drain();
    let got = notebook_v(&at);
    let opened: Vec<PathBuf> = w
        .drain()
        .into_iter()
        .map(|x| x.0)
        // the folder itself, and the table of contents asked for
        .filter(|x| *x != host && *x != around && *x != at)
        .collect();
    let show = |kinds: &[&str]| format!("{kinds:?} in {names:?}");
    let fail = |sig: &str, msg: String| Err(Fail::new(sig, msg).file("list.onetoc2", &d.toc.as_ref().unwrap().1.bytes).file("tree.txt", tree(&top).as_bytes()).file("listed.txt", names.join("\n").as_bytes()));
    if let Some(x) = opened.first() {
        return fail("a file outside is opened", format!("{} is opened: {}", x.strip_prefix(&top).unwrap().display(), show(&kinds)));
    }
    if !kinds.is_empty() {
        return match got {
            P::Err(e) => {
                let mut s = Stat::new(fnv(show(&kinds).as_bytes()), format!("{}: {e}", show(&kinds)));
                for k in kinds {
                    s = s.class(k);
                }
                Ok(s.class(if grouped { "in a group" } else { "in the notebook" }))
            }
            r => fail(&format!("accepted: {}", kinds[0]), format!("{} accepted: {}", show(&kinds), r.bad().unwrap_or("the notebook is read".into()))),
        };
    }
    // the same without links
    let mut model = d.clone();
    model.items.insert("l-in.one".into(), Node::File(p.0[4].clone()));
    let mut st = Seen::default();
    let want = model.entries(&mut st).map(|l| l.len());
    let got_n = match &got {
        P::Ok(v) => {
            let mut l = v.get("entries").list();
            if grouped {
                l = l.first().map_or(&[][..], |g| g.get("entries").list());
            }
            Some(l.len())
        }
        _ => None,
    };
    if want != got_n {
        return fail("plain names are refused", format!("plain names {clean:?}: expected {want:?} entries, got {got_n:?}: {}", got.bad().unwrap_or_default()));
    }
    Ok(Stat::new(fnv(show(&kinds).as_bytes()), format!("accepted: {clean:?}")).class("plain names only"))
}
/// One odd or plain name, in no company.
fn c16_single(cx: &mut Cx) -> R {
    let top = cx.fresh_dir();
    let nb = top.join("nb");
    std::fs::create_dir_all(&nb).expect("scratch");
    let plain_one = cx.x.flip();
    let name = if plain_one { plain_name(&mut cx.x) + cx.x.pick(&["", ".one"]) } else { hostile_name(&mut cx.x, &nb, &top.join("out"), &["a.one".into()]).0 };
    if name.starts_with("l-") {
        return Ok(Stat::trivial());
    }
    let exists = cx.x.flip() && !name.contains(['/', '\0']) && !matches!(name.as_str(), "" | "." | "..");
    if exists {
        let b = plain(&hostile_section());
        std::fs::write(nb.join(&name), b).expect("scratch");
    }
    std::fs::create_dir_all(top.join("out")).expect("scratch");
    std::fs::write(top.join("out/secret.one"), plain(&hostile_section())).expect("scratch");
    let root = TocNode { name: None, order: None, color: None, kids: vec![leaf(&name, 1)] };
    std::fs::write(nb.join("t.onetoc2"), plain(&toc_file(&mut Tape::empty(), &root, &GenCfg::base()))).expect("scratch");
    let r = notebook_v(&nb.join("t.onetoc2"));
    let s = Stat::new(fnv(name.as_bytes()) ^ exists as u64, format!("{name:?}: {}", r.bad().unwrap_or("accepted".into())));
    match (plain_one, &r) {
        (true, P::Ok(v)) if v.get("entries").list().len() == exists as usize => Ok(s.class("plain").class(if exists { "present" } else { "absent" })),
        (false, P::Err(_)) => Ok(s.class("refused").class(if exists { "present" } else { "absent" })),
        _ => Err(Fail::new(if plain_one { "a plain name is refused" } else { "a name is accepted" }, format!("{name:?} (present: {exists}): {}", r.bad().unwrap_or(format!("{:?}", r.clone().ok()))))),
    }
}
fn hostile_section() -> FileModel {
    crate::hostile::one_page(vec![], &[])
}

// ---- C22 -----------------------------------------------------------------------
fn snapshot(at: &Path, out: &mut BTreeMap<PathBuf, String>) {
    let m = at.symlink_metadata().expect("scratch");
    let what = if m.is_symlink() {
        format!("link to {:?}", at.read_link().unwrap())
    } else if m.is_dir() {
        let mut l: Vec<PathBuf> = at.read_dir().expect("scratch").flatten().map(|e| e.path()).collect();
        l.sort();
        for p in &l {
            snapshot(p, out);
        }
        format!("folder of {}", l.len())
    } else {
        format!("file {} {:016x}", m.len(), std::fs::read(at).map(|b| fnv(&b)).unwrap_or(0))
    };
    out.insert(at.to_path_buf(), format!("{what}, mode {:o}, owner {}:{}, links {}, inode {}, changed {}.{:09} {}.{:09}", m.mode(), m.uid(), m.gid(), m.nlink(), m.ino(), m.mtime(), m.mtime_nsec(), m.ctime(), m.ctime_nsec()));
}
fn age(at: &Path, secs: u64) {
    if let Ok(f) = std::fs::File::open(at) {
        let t = std::time::UNIX_EPOCH + std::time::Duration::from_secs(secs);
        let _ = f.set_times(std::fs::FileTimes::new().set_modified(t).set_accessed(t));
    }
}
fn c22(cx: &mut Cx) -> R {
    let p = pool(&mut cx.m);
    let top = cx.fresh_dir().join("top");
    let nb = top.join("nb");
    let (tmp, cwd, home) = (top.join("tmp"), top.join("cwd"), top.join("home"));
    for d in [&tmp, &cwd, &home] {
        std::fs::create_dir_all(d).expect("scratch");
    }
    let broken = cx.x.chance(1, 3);
    let mut d = folder(&mut cx.x, &p, 2, broken);
    let damaged = cx.x.chance(1, 3);
    if damaged {
        let l = &mut d.toc.as_mut().unwrap().1;
        let n = cx.x.pick(&[1, 3]);
        damage::mutate_bytes(&mut cx.x, &mut l.bytes, n);
    }
    d.write(&nb);
    // a section with attachments and images, and damaged ones
    let mut cfg = base_cfg(&mut cx.x);
    cfg.w_page = [4, 4, 4, 4, 1];
    let f = gen_section(&mut cx.m, &cfg, &mut []).file;
    let wc = some_wire(&mut cx.x);
    let mut b = encode(&f, &mut cx.w, wc).bytes;
    if cx.x.flip() {
        let n = cx.x.pick(&[1, 4]);
        damage::mutate_bytes(&mut cx.x, &mut b, n);
    }
    std::fs::write(nb.join("own.one"), &b).expect("scratch");
    symlink("own.one", nb.join("l.one")).expect("scratch");
    symlink("/nowhere/at/all", nb.join("dangling")).expect("scratch");
    let toc = nb.join(&d.toc.as_ref().unwrap().0);
    // rights and times
    let mut all = BTreeMap::new();
    snapshot(&top, &mut all);
    let old = cx.x.below(1 << 30);
    for (i, q) in all.keys().rev().enumerate() {
        let m = q.symlink_metadata().expect("scratch");
        if !m.is_symlink() {
            if cx.x.chance(1, 4) {
                let mode = if m.is_dir() { cx.x.pick(&[0o755, 0o700, 0o555, 0o777]) } else { cx.x.pick(&[0o644, 0o400, 0o444, 0o777, 0o600]) };
                std::fs::set_permissions(q, std::fs::Permissions::from_mode(mode)).expect("scratch");
            }
            age(q, old + i as u64);
        }
    }
    let mut before = BTreeMap::new();
    snapshot(&top, &mut before);
    let mut w = Watch::new().expect("inotify");
    let mask = libc::IN_MODIFY | libc::IN_ATTRIB | libc::IN_CREATE | libc::IN_DELETE | libc::IN_MOVED_FROM | libc::IN_MOVED_TO | libc::IN_CLOSE_WRITE | libc::IN_DELETE_SELF | libc::IN_MOVE_SELF;
    for q in before.keys() {
        if q.symlink_metadata().is_ok_and(|m| m.is_dir()) {
            w.add(q, mask);
        }
    }
    let back = std::env::current_dir().expect("cwd");
    std::env::set_current_dir(&cwd).expect("cwd");
    // this process has no other threads
    unsafe {
        for k in ["TMPDIR", "TMP", "TEMP"] {
            std::env::set_var(k, &tmp);
        }
        std::env::set_var("HOME", &home);
        std::env::set_var("XDG_CACHE_HOME", &home);
    }
    let own = nb.join("own.one");
    let asks: [(&str, &dyn Fn() -> bool); 8] = [
        ("notebook", &|| guard(|| Parser::new().parse_notebook(&toc).map(|n| format!("{n:?}").len())).is_ok()),
        ("section", &|| path_v(&own).is_ok()),
        ("section by a link", &|| path_v(&nb.join("l.one")).is_ok()),
        ("buffer", &|| buffer_v(&b, "own.one").is_ok()),
        ("buffer named like a path", &|| buffer_v(&b, own.to_str().unwrap()).is_ok()),
        ("missing file", &|| path_v(&nb.join("missing.one")).is_ok()),
        ("notebook as a section", &|| path_v(&toc).is_ok()),
        ("section as a notebook", &|| notebook_v(&own).is_ok()),
    ];
    let mut done = vec![];
    let mut touched = None;
    for _ in 0..1 + cx.x.n(4) {
        let (n, f) = &asks[cx.x.weighted(&[4, 3, 1, 1, 1, 1, 1, 1])];
        let ok = f();
        done.push(format!("{n}: {}", if ok { "read" } else { "refused" }));
        if let Some(x) = w.drain().first() {
            touched = Some((*n, x.clone()));
            break;
        }
    }
    std::env::set_current_dir(back).expect("cwd");
    let mut after = BTreeMap::new();
    snapshot(&top, &mut after);
    let fail = |sig: String, msg: String| Err(Fail::new(sig, msg).file("list.onetoc2", &d.toc.as_ref().unwrap().1.bytes).file("own.one", &b).file("tree.txt", tree(&top).as_bytes()));
    if let Some((n, (p, mask))) = touched {
        return fail("something is changed".into(), format!("parsing a {n}: {} (inotify {mask:#x})", p.strip_prefix(&top).unwrap_or(&p).display()));
    }
    if before != after {
        let k = before.keys().chain(after.keys()).find(|k| before.get(*k) != after.get(*k)).unwrap();
        return fail("something is changed".into(), format!("after {}: {}: {:?} -> {:?}", done.join(", "), k.strip_prefix(&top).unwrap().display(), before.get(k), after.get(k)));
    }
    let mut r = Stat::new(fnv(format!("{done:?}").as_bytes()) ^ fnv(&b) ^ fnv(tree(&nb).as_bytes()), format!("{} of {} files and folders", done.join(", "), before.len()));
    for x in done {
        r = r.class(x);
    }
    Ok(r)
}

// ---- C24 -----------------------------------------------------------------------
/// A name with at most one extension at its end.
fn some_name(t: &mut Tape) -> String {
    let base = match t.n(5) {
        0 => t.text(8).replace(['\0', '/'], "_"),
        1 => t.pick(&["", "a", ".", "one", "x.one.y", "none", "a.ONE", "Section 1", "日本", "a.on", ".one.x", " ", "e", "o.ne", "a.one2", "n.", "a.onetoc2", "abone"]).to_string(),
        _ => plain_name(t),
    };
    let base = base.trim_end_matches(".one").to_string();
    base + t.pick(&["", ".one", ".one", ".ONE", ".one ", ".One"])
}
fn c24(cx: &mut Cx) -> R {
    let cfg = base_cfg(&mut cx.x);
    let mut f = gen_section(&mut cx.m, &cfg, &mut []).file;
    let stored = cx.x.chance(2, 3).then(|| some_name(&mut cx.x));
    let zero = cx.x.flip();
    for o in f.root.objs_mut().filter(|o| o.jcid == jc::SECTION_META) {
        o.props.retain(|p| p.0 != pid::SECTION_NAME);
        if let Some(n) = &stored {
            let mut b = utf16(n);
            if zero {
                b.extend([0, 0]);
            }
            o.props.push((pid::SECTION_NAME, PV::Vec(b)));
        }
    }
    let wc = some_wire(&mut cx.x);
    let b = encode(&f, &mut cx.w, wc).bytes;
    let mut file = some_name(&mut cx.x);
    if file.trim_matches(['.', ' ']).is_empty() || file.contains('/') || file.len() > 200 {
        file = "f.one".into();
    }
    let strip = |x: &str| x.strip_suffix(".one").unwrap_or(x).to_string();
    let want = strip(stored.as_deref().unwrap_or(&file));
    let base = cx.fresh_dir();
    std::fs::write(base.join(&file), &b).expect("scratch");
    let name = |v: P<V>| match v {
        P::Ok(v) => P::Ok(v.get("display_name").str().unwrap_or("?").to_string()),
        P::Err(e) => P::Err(e),
        P::Panic(e) => P::Panic(e),
    };
    let mut got = vec![("buffer", name(buffer_v(&b, &file))), ("path", name(path_v(&base.join(&file))))];
    if file == plain_file(&file) {
        let l = listing(&mut Tape::empty(), &[file.clone()]);
        std::fs::write(base.join("t.onetoc2"), l.bytes).expect("scratch");
        got.push(("notebook", name(match notebook_v(&base.join("t.onetoc2")) {
            P::Ok(v) => P::Ok(v.get("entries").list().first().cloned().unwrap_or(V::N)),
            x => x,
        })));
    }
    for (how, g) in &got {
        match g {
            P::Ok(g) if *g != want => return Err(Fail::new(format!("section name by {how}"), format!("stored name {stored:?}, file name {file:?}: expected {want:?}, got {g:?} by {how}")).file("case.one", &b)),
            _ => {}
        }
    }
    if !got[0].1.is_ok() {
        return Ok(Stat::trivial());
    }
    Ok(Stat::new(fnv(format!("{stored:?}{file}").as_bytes()), format!("{stored:?}, {file:?}: {want:?}")).class(match &stored {
        None => "file name",
        Some(n) if n.is_empty() => "stored empty name",
        Some(n) if n.ends_with(".one") => "stored name with extension",
        _ => "stored name",
    }).class(if file.ends_with(".one") { "file with extension" } else { "file without extension" }).class(if got.len() > 2 { "also by a notebook" } else { "file only" }))
}
/// Only names whose use in a list is beyond doubt.
fn plain_file(x: &str) -> String {
    let odd = |c: char| !(c.is_alphanumeric() || " .-+,()[]'#".contains(c)) || c.is_control();
    let base = x.strip_suffix(".one").unwrap_or(x);
    if base.contains(odd) || base.starts_with([' ', '.']) || base.ends_with([' ', '.']) || base.is_empty() || base.len() == 3 || base.len() == 4 { String::new() } else { x.into() }
}
fn c24_groups(cx: &mut Cx) -> R {
    let p = pool(&mut cx.m);
    let base = cx.fresh_dir();
    let mut names: Vec<String> = vec![];
    let mut outer: Vec<String> = vec![];
    for _ in 0..1 + cx.x.n(4) {
        let n = plain_name(&mut cx.x) + cx.x.pick(&["", "", ".one", ".onetoc2", ".x"]);
        if base.join(&n).exists() {
            continue;
        }
        // a group below a folder that is no group
        let path = if cx.x.chance(1, 4) { format!("sub/{n}") } else { n.clone() };
        let mut g = folder(&mut cx.x, &p, 0, false);
        // the name does not come from the list
        g.toc.as_mut().unwrap().0 = cx.x.pick(&["Open Notebook.onetoc2", "Other name.onetoc2"]).into();
        if base.join(&path).exists() {
            continue;
        }
        g.write(&base.join(&path));
        names.push(n);
        outer.push(path);
    }
    let kids = outer.iter().enumerate().map(|(i, n)| leaf(n, i as u32)).collect();
    let root = TocNode { name: None, order: None, color: None, kids };
    std::fs::write(base.join("t.onetoc2"), plain(&toc_file(&mut cx.w, &root, &GenCfg::base()))).expect("scratch");
    match notebook_v(&base.join("t.onetoc2")) {
        P::Ok(v) => {
            let got: Vec<String> = v.get("entries").list().iter().filter(|e| e.tag() == "group_entry").map(|e| e.get("display_name").str().unwrap_or("?").to_string()).collect();
            if got.len() != names.len() {
                return Ok(Stat::trivial());
            }
            match got.iter().zip(&names).find(|(a, b)| a != b) {
                Some((g, n)) => Err(Fail::new("group name", format!("folder {n:?} is called {g:?}")).file("tree.txt", tree(&base).as_bytes())),
                None => Ok(Stat::new(fnv(names.join("/").as_bytes()), names.join(" | ")).class("groups").class(if outer != names { "in further folders" } else { "direct" })),
            }
        }
        _ => Ok(Stat::trivial()),
    }
}

// ---- C27 -----------------------------------------------------------------------
pub fn cli(root: &Path) -> PathBuf {
    root.join("harness/target/cli/debug/onenote-parse")
}
/// Builds the command-line tool from the working tree.
pub fn build_cli(root: &Path) -> Result<(), String> {
    let o = Command::new("cargo")
        .args(["build", "--offline", "--quiet", "--manifest-path", "/repo/Cargo.toml", "--bin", "onenote-parse", "--target-dir"])
        .arg(root.join("harness/target/cli"))
        .env_remove("RUSTC_WRAPPER")
        .stdin(Stdio::null())
        .output()
        .map_err(|e| e.to_string())?;
    if o.status.success() { Ok(()) } else { Err(String::from_utf8_lossy(&o.stderr).into_owned()) }
}
fn c27(cx: &mut Cx) -> R {
    let base = cx.fresh_dir();
    let exts = ["one", "onetoc2", "ONETOC2", "onetoc2 ", "onetoc", "txt", "", "Onetoc2", "one.onetoc2", "onetoc2.one", "onetoc22"];
    let ext = if cx.x.chance(2, 3) { cx.x.pick(&["one", "onetoc2"]) } else { cx.x.pick(&exts) };
    let stem = cx.x.pick(&[&b"a"[..], b"b c", "é".as_bytes(), b"-x", b"--help", b"\xff\xfe", b"", b"onetoc2", b"a.onetoc2"]);
    let mut name = stem.to_vec();
    if !ext.is_empty() {
        name.push(b'.');
        name.extend(ext.as_bytes());
    }
    if name.is_empty() {
        name = b"n".to_vec();
    }
    let mut name = std::ffi::OsString::from_vec(name);
    // content: sections, tables of contents, damaged ones
    let kind = cx.x.n(6);
    let (what, bytes): (&str, Option<Vec<u8>>) = match kind {
        0 | 1 => {
            let cfg = base_cfg(&mut cx.x);
            let f = gen_section(&mut cx.m, &cfg, &mut []).file;
            let wc = some_wire(&mut cx.x);
            ("section", Some(encode(&f, &mut cx.w, wc).bytes))
        }
        2 | 3 => {
            let p = pool(&mut cx.m);
            let broken = cx.x.chance(1, 4);
            let d = folder(&mut cx.x, &p, 1, broken);
            d.write(&base);
            ("notebook", Some(d.toc.unwrap().1.bytes))
        }
        4 => {
            let d = damage::any(cx);
            if d.toc {
                damage::notebook_dir(&base);
            }
            ("damaged", Some(d.bytes))
        }
        _ => ("none", None),
    };
    let mut at = base.join(&name);
    let mut place = "file";
    match bytes {
        Some(b) => {
            if at.is_dir() {
                name = "q.onetoc2".into();
                at = base.join(&name);
            }
            std::fs::write(&at, &b).expect("scratch");
        }
        None if cx.x.flip() => {
            let _ = std::fs::create_dir(&at);
            place = "folder";
        }
        None => place = "nothing",
    }
    if cx.x.chance(1, 6) && place == "file" {
        // the name that counts is the link's
        let l = base.join(cx.x.pick(&["l.one", "l.onetoc2", "l"]));
        if !l.exists() {
            symlink(&at, &l).expect("scratch");
            name = l.file_name().unwrap().to_os_string();
            at = l;
        }
    }
    let is_toc = {
        // the extension rule, spelled out
        let b = name.as_bytes();
        let dot = b.iter().rposition(|c| *c == b'.');
        dot.is_some_and(|i| i > 0 && &b[i + 1..] == b"onetoc2")
    };
    let relative = cx.x.flip();
    // dashes are nothing special: the tool has no options
    let arg: PathBuf = if relative { PathBuf::from(&name) } else { at.clone() };
    let root = PathBuf::from(std::env::var("VH_ROOT").expect("root"));
    let back = std::env::current_dir().expect("cwd");
    std::env::set_current_dir(&base).expect("cwd");
    let want = guard(|| if is_toc { Parser::new().parse_notebook(&arg).map(|x| format!("{x:#?}\n")) } else { Parser::new().parse_section(&arg).map(|x| format!("{x:#?}\n")) });
    let o = Command::new(cli(&root)).arg(&arg).stdin(Stdio::null()).env("RUST_BACKTRACE", "0").output().expect("command-line tool");
    std::env::set_current_dir(back).expect("cwd");
    let out = String::from_utf8_lossy(&o.stdout).into_owned();
    let say = format!("{what} as {arg:?}");
    let fail = |sig: &str, msg: String| {
        let mut f = Fail::new(sig, format!("{say}: {msg}"));
        if let Ok(b) = std::fs::read(&at) {
            f = f.file("input", &b);
        }
        Err(f)
    };
    match &want {
        P::Ok(w) => {
            if !o.status.success() {
                return fail("the tool fails where the library reads", format!("the library reads it, the tool ends with {}: {}", o.status, String::from_utf8_lossy(&o.stderr).chars().take(200).collect::<String>()));
            }
            if *w != out {
                let i = w.bytes().zip(out.bytes()).take_while(|(a, b)| a == b).count();
                return fail("the tool prints something else", format!("{} and {} bytes, different from byte {i} on", w.len(), out.len()));
            }
        }
        _ => {
            if o.status.success() {
                return fail("the tool succeeds where the library refuses", format!("the library says {}, the tool prints {} bytes and succeeds", want.bad().unwrap(), out.len()));
            }
            if !out.is_empty() {
                return fail("the tool prints a structure and fails", format!("{} bytes printed", out.len()));
            }
        }
    }
    Ok(Stat::new(fnv(want.clone().ok().unwrap_or(say.clone()).as_bytes()) ^ fnv(name.as_bytes()), format!("{say}: {}", if want.is_ok() { format!("{} bytes printed", out.len()) } else { want.bad().unwrap() }))
        .class(what)
        .class(place)
        .class(if want.is_ok() { if is_toc { "read as a notebook" } else { "read as a section" } } else if is_toc { "refused as a notebook" } else { "refused as a section" })
        .class(if relative { "relative" } else { "absolute" }))
}

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C15",
            rule: "a generated folder tree with lists, compared with a model of what the lists list; names are left to C24, section content to others; non-trivial: at least one entry, or something broken",
            parts: vec![part("notebooks", &[600, 300, 1200], 20000, 300000, c15)],
            assumptions: &["a group's folder holds one table of contents; which of several is used is not settled by the property (C03 covers that the choice is fixed)"],
        },
        Check {
            id: "C16",
            rule: "lists with names that lead outside, among plain ones, at the top or in a group; opens of files outside are watched with inotify; non-trivial: all",
            parts: vec![part("notebooks", &[600, 400, 900], 8000, 120000, c16), part("names", &[100, 100, 200], 15000, 200000, c16_single)],
            assumptions: &["forbidden characters are those no file may have in its name on one of the supported systems: < > : \" | ? * \\ and control characters"],
        },
        Check {
            id: "C22",
            rule: "sequences of parses over a tree whose every file and folder is recorded before and after and watched with inotify, with the working, temporary and home folders inside the tree; non-trivial: all",
            parts: vec![part("trees", &[900, 900, 900], 5000, 80000, c22)],
            assumptions: &["access times are not counted as a change"],
        },
        Check {
            id: "C24",
            rule: "sections with and without stored names by all entry points; groups in folders of all plain names; non-trivial: the document is read",
            parts: vec![part("sections", &[900, 900, 300], 15000, 250000, c24), part("groups", &[300, 100, 600], 6000, 80000, c24_groups)],
            assumptions: &["names ending in several section file extensions are not generated: the property does not say how many are left out"],
        },
        Check {
            id: "C27",
            rule: "the built tool against the library on paths of all spellings, extensions and contents: exit status and standard output; non-trivial: all",
            parts: vec![part("paths", &[1500, 1500, 900], 5000, 60000, c27)],
            assumptions: &[],
        },
    ]
}
