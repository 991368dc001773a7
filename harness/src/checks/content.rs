//! C05-C12: what is stored is what is reported, each property with a generator
//! leaning towards its part of the document and owning its part of the report.
use crate::r#gen::*;
use crate::pp::*;
use crate::run::*;
use crate::tape::Tape;
use crate::v::*;
use crate::wire::*;

pub struct Focus {
    pub id: &'static str,
    pub cfg: fn(&mut Tape) -> GenCfg,
    /// Does a difference in this field of this kind of node break the property?
    pub owns: fn(&str, &str) -> bool,
    /// Kinds of nodes whose misplacement or rejection breaks the property.
    pub kinds: &'static [&'static str],
    /// Classes of a document; None if it is trivial for the property.
    pub classes: fn(&V) -> Option<Vec<&'static str>>,
}

/// Counts that are of interest for many properties.
fn has(v: &V, tag: &str) -> bool {
    v.count(tag) > 0
}
pub fn base_cfg(t: &mut Tape) -> GenCfg {
    let mut c = GenCfg::base();
    c.opt = t.pick(&[6, 0, 3, 10, 16]);
    c.noise = t.pick(&[4, 0, 12]);
    c.share = t.pick(&[6, 0, 12]);
    c.budget = t.pick(&[12, 30, 60]);
    c.stretch = 8;
    c
}
pub fn wire_cfg(t: &mut Tape) -> WireCfg {
    match t.n(4) {
        0 => WireCfg::PLAIN,
        3 => WireCfg::ALL,
        _ => WireCfg::MILD,
    }
}
pub fn sample(v: &V) -> String {
    let s = format!("{v:?}");
    s.chars().take(400).collect()
}

pub fn run_focus(cx: &mut Cx, f: &Focus) -> R {
    let cfg = (f.cfg)(&mut cx.x);
    let doc = gen_section(&mut cx.m, &cfg, &mut []);
    let wc = wire_cfg(&mut cx.x);
    let enc = encode(&doc.file, &mut cx.w, wc);
    let want = want_for(&doc, "a.one");
    let cl = (f.classes)(&want);
    let fail = |sig: String, msg: String| Err(Fail::new(sig, msg).file("case.one", &enc.bytes).file("expected.txt", format!("{want:#?}").as_bytes()));
    match buffer_v(&enc.bytes, "a.one") {
        P::Ok(got) => {
            if let Some(d) = diff(&want, &got).into_iter().find(|d| (f.owns)(d.tag, d.field) || d.kinds.iter().any(|k| f.kinds.contains(k))) {
                return fail(format!("{}.{}", d.tag, d.field), format!("{}: {}", d.path, d.what));
            }
        }
        p => {
            // a well-formed document with such content has to be read
            if cl.is_some() {
                let e = p.bad().unwrap();
                return fail("not read".into(), format!("a well-formed section is not read: {e}"));
            }
        }
    }
    Ok(match cl {
        None => Stat::trivial(),
        Some(cl) => {
            let mut s = Stat::new(want.hash(), sample(&want));
            s.classes = cl.into_iter().map(|c| c.to_string()).collect();
            if doc.long > 0 {
                s.classes.push("one long list".into());
            }
            if doc.long > 255 {
                s.classes.push("a list of more than 255".into());
            }
            s
        }
    })
}

macro_rules! focus {
    ($name:ident, $id:expr, $cfg:expr, $owns:expr, $kinds:expr, $classes:expr) => {
        fn $name(cx: &mut Cx) -> R {
            const F: Focus = Focus { id: $id, cfg: $cfg, owns: $owns, kinds: &$kinds, classes: $classes };
            run_focus(cx, &F)
        }
    };
}
/// Collects the classes whose condition holds; None if the first one does not.
fn classes(l: &[(&'static str, bool)]) -> Option<Vec<&'static str>> {
    if !l[0].1 {
        return None;
    }
    Some(l.iter().filter(|x| x.1).map(|x| x.0).collect())
}
fn any(v: &V, p: &mut dyn FnMut(&V) -> bool) -> bool {
    let mut r = false;
    v.visit(&mut |n| r = r || p(n));
    r
}
fn max_of(v: &V, tag: &str, g: &dyn Fn(&V) -> usize) -> usize {
    let mut r = 0;
    v.visit(&mut |n| {
        if n.tag() == tag {
            r = r.max(g(n))
        }
    });
    r
}

focus!(
    c05,
    "C05",
    |t| {
        let mut c = base_cfg(t);
        c.long = &[long::PAGES, long::SERIES, long::CONTENTS, long::TITLE, long::TEXT];
        c.pages = t.pick(&[3, 1, 6, 12]);
        c.series = t.pick(&[2, 1, 5, 9]);
        c.budget = t.pick(&[4, 10, 20]);
        c.fan = t.pick(&[4, 2, 9]);
        c.title = t.pick(&[8, 14, 2]);
        c.w_page = t.pick(&[[8, 2, 1, 1, 1], [1, 1, 1, 1, 1], [2, 6, 3, 1, 0]]);
        c
    },
    |tag, f| match tag {
        "section" => f != "display_name",
        "series" | "page" | "title" => true,
        _ => false,
    },
    ["series", "page", "title"],
    |v| classes(&[
        ("page with contents or title", any(v, &mut |n| n.tag() == "page" && (!n.get("contents").list().is_empty() || *n.get("title") != V::N))),
        (">= 2 series", v.count("series") >= 2),
        (">= 3 pages", v.count("page") >= 3),
        ("empty series", any(v, &mut |n| n.tag() == "series" && n.get("pages").list().is_empty())),
        ("title", has(v, "title")),
        (">= 4 contents on a page", max_of(v, "page", &|n| n.get("contents").list().len()) >= 4),
        ("section colour", *v.get("color") != V::N),
    ])
);
focus!(
    c06,
    "C06",
    |t| {
        let mut c = base_cfg(t);
        c.long = &[long::RUNS, long::TEXT, long::LATIN, long::ELEM_CONTENTS];
        c.max_runs = t.pick(&[4, 1, 8, 20]);
        c.max_text = t.pick(&[12, 3, 60, 300]);
        c.w_page = [10, 0, 0, 0, 0];
        c.w_elem = [16, 1, 0, 0, 0, 1];
        c.tags = 1;
        c.lists = 1;
        c.embedded = t.pick(&[1, 0, 4]);
        c.math = t.pick(&[2, 0, 4]);
        c
    },
    |tag, f| match tag {
        "richtext" => !matches!(f, "note_tags" | "embedded" | "math"),
        "style" => true,
        _ => false,
    },
    ["richtext", "style"],
    |v| classes(&[
        ("richtext", has(v, "richtext")),
        ("text", any(v, &mut |n| n.tag() == "richtext" && n.get("text").str() != Some(""))),
        (">= 2 runs", max_of(v, "richtext", &|n| n.get("runs").list().len()) >= 2),
        (">= 6 runs", max_of(v, "richtext", &|n| n.get("runs").list().len()) >= 6),
        ("style with charset", any(v, &mut |n| n.tag() == "style" && *n.get("charset") != V::N)),
        ("math style", any(v, &mut |n| n.tag() == "style" && *n.get("math") == V::B(true))),
        ("spacing", any(v, &mut |n| n.tag() == "richtext" && *n.get("line_spacing") != V::N)),
    ])
);
fn tagged(v: &V) -> bool {
    has(v, "tag")
}
focus!(
    c07,
    "C07",
    |t| {
        let mut c = base_cfg(t);
        c.long = &[long::TAGS, long::RUNS];
        c.tags = t.pick(&[8, 4, 14]);
        c.w_page = [6, 3, 3, 0, 0];
        c.w_elem = [6, 3, 3, 3, 1, 1];
        c.embedded = t.pick(&[1, 4]);
        c.lists = 2;
        c
    },
    |tag, f| f == "note_tags" || tag == "tag" || tag == "definition",
    ["tag", "definition"],
    |v| classes(&[
        ("tag", tagged(v)),
        (">= 2 tags on one element", any(v, &mut |n| n.get("note_tags").list().len() >= 2)),
        (">= 2 definitions", {
            let mut d = std::collections::BTreeSet::new();
            v.visit(&mut |n| {
                if n.tag() == "definition" {
                    d.insert(n.hash());
                }
            });
            d.len() >= 2
        }),
        ("tag without definition", any(v, &mut |n| n.tag() == "tag" && *n.get("definition") == V::N)),
        ("tagged richtext", any(v, &mut |n| n.tag() == "richtext" && !n.get("note_tags").list().is_empty())),
        ("tagged image", any(v, &mut |n| n.tag() == "image" && !n.get("note_tags").list().is_empty())),
        ("tagged file", any(v, &mut |n| n.tag() == "file" && !n.get("note_tags").list().is_empty())),
        ("tagged table", any(v, &mut |n| n.tag() == "table" && !n.get("note_tags").list().is_empty())),
        ("tagged richtext with runs", any(v, &mut |n| n.tag() == "richtext"
            && n.get("note_tags").list().len() >= 2
            && !n.get("runs").list().is_empty())),
    ])
);
focus!(
    c08,
    "C08",
    |t| {
        let mut c = base_cfg(t);
        c.long = long::IN_TABLE;
        c.w_page = [10, 0, 0, 0, 0];
        c.w_elem = [4, 10, 1, 1, 1, 1];
        c.fan = t.pick(&[4, 2, 7]);
        c.tags = 1;
        c.pages = 2;
        c.depth = t.pick(&[3, 2, 6]);
        c
    },
    |tag, f| matches!(tag, "table" | "row" | "cell") && f != "note_tags",
    ["table", "row", "cell"],
    |v| classes(&[
        ("table", has(v, "table")),
        ("table >= 2x2", any(v, &mut |n| n.tag() == "table"
            && n.get("contents").list().len() >= 2
            && n.get("contents").list()[0].get("cells").list().len() >= 2)),
        ("nested table", any(v, &mut |n| n.tag() == "table" && n.count("table") >= 2)),
        ("locked columns", any(v, &mut |n| n.tag() == "table" && *n.get("cols_locked") != V::Y(vec![]))),
        ("column widths", any(v, &mut |n| n.tag() == "table" && !n.get("col_widths").list().is_empty())),
        ("hidden borders", any(v, &mut |n| n.tag() == "table" && *n.get("borders") == V::B(false))),
        ("cell background", any(v, &mut |n| n.tag() == "cell" && *n.get("background") != V::N)),
        ("cell with >= 2 elements", max_of(v, "cell", &|n| n.get("contents").list().len()) >= 2),
    ])
);
focus!(
    c09,
    "C09",
    |t| {
        let mut c = base_cfg(t);
        c.long = &[long::EMBEDS, long::NAME, long::CONTENTS];
        c.w_page = [5, 5, 5, 0, 0];
        c.w_elem = [2, 1, 6, 6, 0, 1];
        c.tags = 1;
        c.big_blobs = t.chance(1, 12);
        if c.big_blobs {
            c.budget = 8;
        }
        c
    },
    |tag, f| matches!(tag, "image" | "file" | "iframe") && f != "note_tags",
    ["image", "file", "iframe"],
    |v| classes(&[
        ("image or file", has(v, "image") || has(v, "file")),
        ("image", has(v, "image")),
        ("file", has(v, "file")),
        ("image without picture", any(v, &mut |n| n.tag() == "image" && *n.get("data") == V::N)),
        ("web embed", has(v, "iframe")),
        ("blob >= 16 KiB", any(v, &mut |n| matches!(n, V::Y(y) if y.len() >= 16384))),
        ("empty blob", any(v, &mut |n| n.get("data") == &V::Y(vec![]))),
        (">= 3 different blobs", {
            let mut d = std::collections::BTreeSet::new();
            v.visit(&mut |n| {
                if let V::Y(y) = n.get("data") {
                    d.insert(fnv(y));
                }
            });
            d.len() >= 3
        }),
    ])
);
focus!(
    c10,
    "C10",
    |t| {
        let mut c = base_cfg(t);
        c.long = &[long::STROKES, long::POINTS, long::DIMS, long::EMBEDDED];
        c.w_page = [6, 0, 0, 6, 0];
        c.w_elem = [6, 1, 0, 0, 6, 1];
        c.embedded = t.pick(&[8, 4, 14]);
        c.max_runs = t.pick(&[4, 8]);
        c.tags = 1;
        c.lists = 1;
        c
    },
    |tag, f| matches!(tag, "ink" | "stroke" | "bbox" | "ink_word" | "ink_space") || (tag == "richtext" && f == "embedded"),
    ["ink", "stroke", "bbox", "ink_word", "ink_space"],
    |v| classes(&[
        ("stroke or embedded object", has(v, "stroke") || has(v, "ink_space") || has(v, "ink_word")),
        (">= 2 strokes", max_of(v, "ink", &|n| n.get("strokes").list().len()) >= 2),
        (">= 3 points", max_of(v, "stroke", &|n| n.get("path").list().len()) >= 3),
        ("bounding box", any(v, &mut |n| n.tag() == "ink" && *n.get("bbox") != V::N)),
        ("ink word", has(v, "ink_word")),
        ("ink word with own box", any(v, &mut |n| n.tag() == "ink_word" && *n.get("bbox") != V::N)),
        ("ink space", has(v, "ink_space")),
        ("line break", any(v, &mut |n| n.str() == Some("InkLineBreak"))),
        ("drawing", any(v, &mut |n| n.tag() == "ink" && *n.get("offset_h") != V::N)),
    ])
);
focus!(
    c11,
    "C11",
    |t| {
        let mut c = base_cfg(t);
        c.long = &[long::ITEMS, long::DEEP, long::INDENTS, long::MARKERS, long::FORMAT, long::ELEM_CONTENTS];
        c.w_page = [12, 0, 0, 0, 0];
        c.w_item = t.pick(&[[4, 1], [1, 1], [2, 3]]);
        c.depth = t.pick(&[4, 8, 2, 14]);
        c.fan = t.pick(&[4, 2, 8]);
        c.budget = t.pick(&[30, 60, 120]);
        c.lists = t.pick(&[6, 2, 12]);
        c.tags = 1;
        c
    },
    |tag, _| matches!(tag, "outline" | "group" | "element" | "list"),
    ["outline", "group", "element", "list"],
    |v| {
        fn depth(v: &V) -> usize {
            match v.tag() {
                "outline" | "group" | "element" => 1 + v.get("items").list().iter().map(depth).max().unwrap_or(0),
                _ => 0,
            }
        }
        classes(&[
            ("outline with items", any(v, &mut |n| n.tag() == "outline" && !n.get("items").list().is_empty())),
            ("depth >= 4", max_of(v, "outline", &depth) >= 4),
            ("depth >= 7", max_of(v, "outline", &depth) >= 7),
            ("group", has(v, "group")),
            ("group among elements", any(v, &mut |n| {
                let l = n.get("items").list();
                l.iter().any(|x| x.tag() == "group") && l.iter().any(|x| x.tag() == "element")
            })),
            ("list marker", has(v, "list")),
            ("two list markers", max_of(v, "element", &|n| n.get("lists").list().len()) >= 2),
            ("indents", any(v, &mut |n| n.tag() == "outline" && !n.get("indents").list().is_empty())),
            (">= 4 items", max_of(v, "element", &|n| n.get("items").list().len()) >= 4),
        ])
    }
);
focus!(
    c12,
    "C12",
    |t| {
        let mut c = base_cfg(t);
        c.long = &[long::MATH, long::RUNS];
        c.w_page = [10, 0, 0, 0, 0];
        c.w_elem = [16, 1, 0, 0, 0, 0];
        c.math = t.pick(&[10, 5, 16]);
        c.embedded = t.pick(&[0, 2]);
        c.max_runs = t.pick(&[4, 8, 16]);
        c.tags = t.pick(&[0, 3]);
        c.lists = 0;
        c
    },
    |tag, f| tag == "math" || (tag == "richtext" && f == "math"),
    ["math"],
    |v| classes(&[
        ("math object", has(v, "math")),
        (">= 3 math objects in a paragraph", max_of(v, "richtext", &|n| n.get("math").list().len()) >= 3),
        ("math and other runs mixed", any(v, &mut |n| n.tag() == "richtext"
            && !n.get("math").list().is_empty()
            && n.get("runs").list().iter().any(|r| *r.get("math") == V::B(false)))),
        ("operator characters", any(v, &mut |n| n.tag() == "math" && (*n.get("char1") != V::N || *n.get("char2") != V::N))),
        ("first run not math", any(v, &mut |n| n.tag() == "richtext"
            && !n.get("math").list().is_empty()
            && *n.get("runs").list()[0].get("math") == V::B(false))),
    ])
);

pub const TAPES: &[usize] = &[3000, 2500, 40];

pub fn checks() -> Vec<Check> {
    let mk = |id, what: &'static str, f: fn(&mut Cx) -> R, q: u64| Check {
        id,
        rule: what,
        parts: vec![part("content", TAPES, q, q * 12, f)],
        assumptions: &["the container writer in harness/src/wire.rs and the generator in gen.rs represent the documented format"],
    };
    vec![
        mk("C05", "proptest-generated section (objects and expected report side by side), written by an independent writer with generated encoding choices; non-trivial: a page with contents or a title", c05, 60000),
        mk("C06", "generated section leaning towards paragraphs with runs and styles; non-trivial: contains a paragraph", c06, 60000),
        mk("C07", "generated section leaning towards tagged paragraphs, images, files and tables with shared and own definitions; non-trivial: contains a note tag", c07, 60000),
        mk("C08", "generated section leaning towards (nested) tables; non-trivial: contains a table", c08, 60000),
        mk("C09", "generated section leaning towards images and attachments with blobs of 0 bytes to 300 kB; non-trivial: contains an image or attachment", c09, 60000),
        mk("C10", "generated section leaning towards ink drawings and embedded ink; non-trivial: contains a stroke, ink word or ink space", c10, 60000),
        mk("C11", "generated section leaning towards deep outlines, groups and list markers; non-trivial: an outline with items", c11, 60000),
        mk("C12", "generated section leaning towards math runs mixed with other runs; non-trivial: contains a math object", c12, 60000),
    ]
}
