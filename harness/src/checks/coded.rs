//! C21 (title text), C23 (coded values), C25 (text decoding).
use super::content::{base_cfg, sample, wire_cfg};
use crate::extract;
use crate::r#gen::*;
use crate::hostile;
use crate::pp::*;
use crate::run::*;
use crate::v::*;
use crate::wire::*;

// ---- C21 -----------------------------------------------------------------------
fn leading_text(outline: &V) -> Option<&str> {
    let el = outline.get("items").list().first()?;
    if el.tag() != "element" {
        return None;
    }
    let p = el.get("contents").list().first()?;
    if p.tag() != "richtext" {
        return None;
    }
    p.get("text").str().filter(|s| !s.is_empty())
}
fn title_text(page: &V) -> Option<&str> {
    let from_title = page.get("title").get("contents").list().first().and_then(leading_text);
    from_title.or_else(|| page.get("contents").list().iter().filter(|c| c.tag() == "outline").find_map(leading_text))
}
fn c21(cx: &mut Cx) -> R {
    let mut c = base_cfg(&mut cx.x);
    c.title = cx.x.pick(&[10, 5, 14]);
    c.max_text = cx.x.pick(&[3, 1, 12]);
    c.w_page = cx.x.pick(&[[8, 2, 1, 1, 1], [12, 0, 0, 0, 0]]);
    c.w_item = cx.x.pick(&[[4, 1], [2, 1], [1, 0]]);
    c.w_elem = cx.x.pick(&[[10, 2, 2, 1, 1, 1], [3, 1, 1, 1, 1, 1], [1, 0, 0, 0, 0, 0]]);
    c.fan = cx.x.pick(&[3, 2, 5]);
    c.budget = cx.x.pick(&[12, 30]);
    c.max_runs = 2;
    c.pages = 4;
    let doc = gen_section(&mut cx.m, &c, &mut []);
    let e = encode(&doc.file, &mut cx.w, WireCfg::PLAIN);
    let P::Ok((v, got)) = buffer(&e.bytes, "a.one", |s| (extract::section(s), extract::title_texts(s))) else { return Ok(Stat::trivial()) };
    let pages: Vec<&V> = v.get("series").list().iter().flat_map(|s| s.get("pages").list()).collect();
    let mut cls = std::collections::BTreeSet::new();
    let mut key = 0;
    for (i, (p, g)) in pages.iter().zip(&got).enumerate() {
        let w = title_text(p);
        if w != g.as_deref() {
            return Err(Fail::new("title text", format!("page {i}: expected {w:?}, got {g:?}")).file("case.one", &e.bytes));
        }
        let from_title = p.get("title").get("contents").list().first().and_then(leading_text).is_some();
        let outlines: Vec<bool> = p.get("contents").list().iter().filter(|c| c.tag() == "outline").map(|o| leading_text(o).is_some()).collect();
        cls.insert(match (w, from_title) {
            (None, _) => "no title text",
            (_, true) => "from the title",
            _ if outlines[0] => "from the first outline",
            _ => "from a later outline",
        });
        if from_title && outlines.contains(&true) {
            cls.insert("title and outline text");
        }
        if *p.get("title") != V::N && !from_title {
            cls.insert("title without text");
        }
        if *p.get("title") != V::N || !outlines.is_empty() {
            key ^= p.hash();
        }
    }
    if key == 0 {
        return Ok(Stat::trivial());
    }
    let mut s = Stat::new(key, format!("{got:?} of {}", sample(&v)));
    s.classes = cls.into_iter().map(|c| c.to_string()).collect();
    Ok(s)
}

// ---- C23 -----------------------------------------------------------------------
enum Want {
    /// This field of the report has this value.
    Is(V),
    /// The file is refused.
    Refused,
}
fn set(o: &mut Obj, id: u32, v: PV) {
    o.props.retain(|p| p.0 & 0x3ff_ffff != id & 0x3ff_ffff);
    o.props.push((id, v));
}
/// A page with one of everything; ids by kind.
fn showcase() -> Vec<Obj> {
    use hostile::{element, ex, obj};
    let mut text = obj(20, jc::RICHTEXT, &[]);
    set(&mut text, pid::TEXT, PV::Vec(utf16("x")));
    set(&mut text, pid::RUN_FORMATTING, PV::Objs(vec![ex(21)]));
    set(
        &mut text,
        pid::NOTE_TAGS,
        PV::Sets(0x44000811, vec![vec![(pid::TAG_DEF, PV::Obj(ex(22))), (pid::TAG_CREATED, PV::U32(1)), (pid::TAG_STATUS, PV::U16(0))]]),
    );
    let style = obj(21, jc::STYLE, &[]);
    let mut def = obj(22, jc::TAGDEF, &[]);
    for (i, v) in [
        (pid::TAGDEF_LABEL, PV::Vec(utf16("l"))),
        (pid::TAGDEF_STATUS, PV::U32(0)),
        (pid::TAGDEF_SHAPE, PV::U16(0)),
        (pid::TAGDEF_TYPE, PV::U16(0)),
    ] {
        set(&mut def, i, v);
    }
    let table = obj(23, jc::TABLE, &[24]);
    let row = obj(24, jc::ROW, &[25]);
    let cell = obj(25, jc::CELL, &[]);
    let image = obj(26, jc::IMAGE, &[]);
    let mut file = obj(27, jc::FILE, &[]);
    set(&mut file, pid::LAST_MODIFIED, PV::U32(1));
    set(&mut file, pid::FILE_NAME, PV::Vec(utf16("f")));
    set(&mut file, pid::FILE_CONTAINER, PV::Obj(ex(28)));
    let mut cont = obj(28, jc::FILE_CONTAINER, &[]);
    cont.blob = Some(ex(99));
    let ink = obj(29, jc::INK, &[30]);
    let data = obj(30, jc::INK_DATA, &[31]);
    let stroke = obj(31, jc::STROKE, &[]);
    // a paragraph with one math run
    let mut mtext = obj(32, jc::RICHTEXT, &[]);
    set(&mut mtext, pid::RUN_FORMATTING, PV::Objs(vec![ex(33)]));
    set(&mut mtext, pid::RUN_DATA, PV::Sets(0x44000811, vec![vec![(pid::MATH_TYPE, PV::U32(10))]]));
    let mut mstyle = obj(33, jc::STYLE, &[]);
    set(&mut mstyle, pid::MATH_FORMAT, PV::Bool(true));
    let mut el = element(10, &[20, 23, 26, 27, 29, 32], &[]);
    set(&mut el, pid::LIST_NODES, PV::Objs(vec![ex(34)]));
    let mut list = obj(34, jc::LIST, &[]);
    set(&mut list, pid::LAST_MODIFIED, PV::U32(1));
    set(&mut list, pid::LIST_FORMAT, PV::Vec(vec![0, 0]));
    let outline = obj(5, jc::OUTLINE, &[10]);
    vec![text, style, def, table, row, cell, image, file, cont, ink, data, stroke, mtext, mstyle, el, list, outline]
}
/// Walks "a.b.3.c" from the page.
fn at<'a>(v: &'a V, path: &str) -> &'a V {
    let mut v = v;
    for k in path.split('.') {
        v = match k.parse::<usize>() {
            Ok(i) => v.list().get(i).unwrap_or(&V::N),
            _ => v.get(k),
        };
    }
    v
}
const TEXT: &str = "contents.0.items.0.contents.0";
fn c23(cx: &mut Cx) -> R {
    let t = &mut cx.x;
    let el = "contents.0.items.0";
    let code8 = |t: &mut crate::tape::Tape| if t.flip() { t.below(256) as u8 } else { t.u8b() };
    let code16 = |t: &mut crate::tape::Tape, hi: u64| {
        match t.n(3) {
            0 | 1 => t.below(hi) as u16,
            _ => t.raw() as u16,
        }
    };
    let code32 = |t: &mut crate::tape::Tape| match t.n(4) {
        0 => t.below(8) as u32,
        1 => t.u32b(),
        2 => 0xff00_0000 | t.below(1 << 24) as u32,
        _ => t.raw(),
    };
    // (name, object, property, value, report path, expected)
    let (name, obj, prop, val, path, want): (&str, u32, u32, PV, String, Want) = match t.n(16) {
        0 => {
            let c = code8(t);
            let w = CHARSETS.iter().find(|x| x.0 == c).map(|x| Want::Is(s(x.1))).unwrap_or(Want::Refused);
            if t.flip() {
                ("charset of a run", 21, pid::CHARSET, PV::U8(c), format!("{TEXT}.runs.0.charset"), w)
            } else {
                ("charset of a paragraph", 2, pid::CHARSET, PV::U8(c), format!("{TEXT}.style.charset"), w)
            }
        }
        1 => {
            let c = code8(t);
            ("alignment of a style", 21, pid::PARA_ALIGN, PV::U8(c), format!("{TEXT}.runs.0.alignment"), Want::Is(s(para_align(c))))
        }
        2 => {
            let c = code8(t);
            ("alignment of a paragraph", 20, pid::PARA_ALIGN, PV::U8(c), format!("{TEXT}.alignment"), Want::Is(s(para_align(c))))
        }
        3 => {
            let c = match t.n(4) {
                0 => t.below(8) as u32,
                1 => t.below(1 << 20) as u32,
                2 => t.raw() & 0x7fff_ffff,
                _ => t.raw(),
            };
            let w = layout_align(c).map(Want::Is).unwrap_or(Want::Refused);
            let (p, f) = t.pick(&[(pid::ALIGN_PARENT, "align_parent"), (pid::ALIGN_SELF, "align_self")]);
            let (o, at) = t.pick(&[(5, "contents.0".to_string()), (20, TEXT.into()), (23, format!("{el}.contents.1")), (26, format!("{el}.contents.2"))]);
            ("layout alignment", o, p, PV::U32(c), format!("{at}.{f}"), w)
        }
        4 | 5 => {
            let c = match t.n(3) {
                0 => t.below(1 << 24) as u32,
                _ => code32(t),
            };
            let w = color_ref(c).map(Want::Is).unwrap_or(Want::Refused);
            let (o, p, at) = t.pick(&[
                (21, pid::FONT_COLOR, format!("{TEXT}.runs.0.font_color")),
                (21, pid::HIGHLIGHT, format!("{TEXT}.runs.0.highlight")),
                (22, pid::TAGDEF_HIGHLIGHT, format!("{TEXT}.note_tags.0.definition.highlight")),
                (22, pid::TAGDEF_TEXT, format!("{TEXT}.note_tags.0.definition.text_color")),
                (34, pid::FONT_COLOR, format!("{el}.lists.0.font_color")),
            ]);
            ("colour reference", o, p, PV::U32(c), at, w)
        }
        6 => {
            let c = code32(t);
            ("cell colour", 25, pid::CELL_COLOR, PV::U32(c), format!("{el}.contents.1.contents.0.cells.0.background"), Want::Is(color(c)))
        }
        7 => {
            let c = code32(t);
            ("section colour", 0, pid::SECTION_COLOR, PV::U32(c), "color".into(), Want::Is(color(c)))
        }
        8 | 9 => {
            let c = code16(t, 200);
            let w = SHAPES.get(c as usize).map(|n| Want::Is(s(n))).unwrap_or(Want::Refused);
            if let (Want::Is(_), true) = (&w, t.flip()) {
                ("checkable", 22, pid::TAGDEF_SHAPE, PV::U16(c), format!("{TEXT}.note_tags.0.definition.checkable"), Want::Is(V::B(checkable(c))))
            } else {
                ("tag icon", 22, pid::TAGDEF_SHAPE, PV::U16(c), format!("{TEXT}.note_tags.0.definition.shape"), w)
            }
        }
        10 => {
            let c = code16(t, 120);
            ("task type", 22, pid::TAGDEF_TYPE, PV::U16(c), format!("{TEXT}.note_tags.0.definition.item_type"), Want::Is(s(item_type(c))))
        }
        11 => {
            let c = if t.flip() { t.below(1 << 12) as u32 } else { t.raw() };
            let w = l([0, 1, 2, 3, 6, 7, 8, 9, 10, 11], |b| V::B(c >> b & 1 == 1));
            ("tag property status", 22, pid::TAGDEF_STATUS, PV::U32(c), format!("{TEXT}.note_tags.0.definition.status"), Want::Is(w))
        }
        12 => {
            let c = code16(t, 16);
            let (bit, f) = t.pick(&[(0, "completed"), (1, "disabled"), (2, "task_tag")]);
            let set = vec![vec![(pid::TAG_DEF, PV::Obj(hostile::ex(22))), (pid::TAG_CREATED, PV::U32(1)), (pid::TAG_STATUS, PV::U16(c))]];
            ("tag status", 20, pid::NOTE_TAGS, PV::Sets(0x44000811, set), format!("{TEXT}.note_tags.0.{f}"), Want::Is(V::B(c >> bit & 1 == 1)))
        }
        13 => {
            let c = code32(t);
            let w = match c {
                1 => Want::Is(s("Audio")),
                2 => Want::Is(s("Video")),
                _ => Want::Refused,
            };
            ("media type", 27, pid::MEDIA, PV::U32(c), format!("{el}.contents.3.type"), w)
        }
        14 => {
            let c = match t.n(4) {
                0..=2 => t.below(40) as u32,
                _ => t.pick(&[0x9000_0000, 0x8fff_ffff, 0x9000_0001, 0x1000_0000, 255, 256, 266]),
            };
            let w = MATH_TYPES.iter().find(|x| x.0 == c).map(|x| Want::Is(s(x.1))).unwrap_or(Want::Refused);
            let set = vec![vec![(pid::MATH_TYPE, PV::U32(c))]];
            ("math type", 32, pid::RUN_DATA, PV::Sets(0x44000811, set), format!("{el}.contents.5.math.0.type"), w)
        }
        _ => {
            let c = code8(t);
            let w = if c <= 2 { Want::Is(l([0], |_| V::N)) } else { Want::Refused };
            ("ink bias", 31, pid::INK_BIAS, PV::U8(c), String::new(), w)
        }
    };
    let mut objs = showcase();
    let pv = val.clone();
    let mut f = if obj == 0 {
        let mut f = hostile::one_page(objs, &[5]);
        for o in f.root.objs_mut().filter(|o| o.jcid == jc::SECTION_META) {
            set(o, prop, pv.clone());
        }
        f
    } else if obj == 2 {
        let mut f = hostile::one_page(objs, &[5]);
        for o in f.spaces[0].objs_mut().filter(|o| o.id == hostile::ex(2)) {
            set(o, prop, pv.clone());
        }
        f
    } else {
        let o = objs.iter_mut().find(|o| o.id == hostile::ex(obj)).unwrap();
        set(o, prop, pv);
        hostile::one_page(objs, &[5])
    };
    f.blobs.insert(hostile::ex(99), vec![1, 2, 3]);
    let wc = wire_cfg(&mut cx.x);
    let e = encode(&f, &mut cx.w, wc);
    let fail = |m: String| Err(Fail::new(name, m).file("case.one", &e.bytes));
    let mut s = match (&want, buffer_v(&e.bytes, "a.one")) {
        (Want::Refused, P::Err(_)) => Stat::default().class("refused"),
        (Want::Refused, P::Ok(v)) => {
            let page = at(&v, "series.0.pages.0");
            let got = at(if obj == 0 { &v } else { page }, &path);
            return fail(format!("{name}: the undefined code {val:?} is reported as {got:?}"));
        }
        (Want::Is(w), P::Ok(v)) => {
            let page = at(&v, "series.0.pages.0");
            let got = if path.is_empty() { w.clone() } else { at(if obj == 0 { &v } else { page }, &path).clone() };
            if got != *w {
                return fail(format!("{name}: code {val:?}: expected {w:?}, got {got:?}"));
            }
            Stat::default().class("defined")
        }
        (_, p) => return fail(format!("{name}: code {val:?}: {}", p.bad().unwrap())),
    };
    s.key = Some(fnv(format!("{name} {val:?} {path}").as_bytes()));
    s.sample = format!("{name} at {path}: code {val:?}");
    Ok(s.class(name))
}

// ---- C25 -----------------------------------------------------------------------
fn text_field(tag: &str, f: &str) -> bool {
    matches!(
        (tag, f),
        ("richtext", "text")
            | ("style", "font" | "next_style" | "style_id")
            | ("list", "list_font" | "font")
            | ("image", "alt_text" | "filename" | "text" | "link" | "extension")
            | ("file", "filename")
            | ("iframe", "url")
            | ("page", "author")
            | ("definition", "label")
            | ("section", "display_name")
    )
}
fn texts_cfg(cx: &mut Cx) -> GenCfg {
    let mut c = base_cfg(&mut cx.x);
    c.opt = cx.x.pick(&[16, 8]);
    c.max_text = cx.x.pick(&[12, 40, 4, 400]);
    c.w_page = [6, 3, 3, 0, 0];
    c.w_elem = [8, 1, 3, 3, 0, 0];
    c.tags = 4;
    c.lists = 4;
    c.budget = 20;
    c.pages = 2;
    c
}
fn c25_exact(cx: &mut Cx) -> R {
    let c = texts_cfg(cx);
    let doc = gen_section(&mut cx.m, &c, &mut []);
    let wc = wire_cfg(&mut cx.x);
    let e = encode(&doc.file, &mut cx.w, wc);
    let want = want_for(&doc, "a.one");
    let (mut n, mut astral, mut latin, mut long) = (0u32, false, false, false);
    want.visit(&mut |v| {
        if let V::M(t, m) = v {
            for (f, x) in m {
                if let (true, Some(x)) = (text_field(t, f), x.str()) {
                    if !x.is_ascii() {
                        n += 1;
                    }
                    astral |= x.chars().any(|c| c as u32 > 0xffff);
                    latin |= !x.is_ascii() && x.chars().all(|c| (c as u32) < 256);
                    long |= x.len() > 200;
                }
            }
        }
    });
    let fail = |sig: String, m: String| Err(Fail::new(sig, m).file("case.one", &e.bytes));
    match buffer_v(&e.bytes, "a.one") {
        P::Ok(got) => {
            if let Some(d) = diff(&want, &got).into_iter().find(|d| text_field(d.tag, d.field) && d.kinds.iter().all(|k| k.is_empty())) {
                return fail(format!("{}.{}", d.tag, d.field), format!("{}: {}", d.path, d.what));
            }
        }
        p if n > 0 => return fail("not read".into(), format!("valid text is not read: {}", p.bad().unwrap())),
        _ => {}
    }
    if n == 0 {
        return Ok(Stat::trivial());
    }
    let mut s = Stat::new(want.hash(), format!("{n} non-ASCII texts: {}", sample(&want)));
    for (k, b) in [("beyond the basic plane", astral), ("Latin-1 range", latin), ("long", long)] {
        if b {
            s = s.class(k);
        }
    }
    Ok(s)
}
const TEXT_PROPS: [(u32, u32); 20] = [
    (jc::RICHTEXT, pid::TEXT),
    (jc::STYLE, pid::FONT),
    (jc::STYLE, 0x1C00348A),
    (jc::STYLE, 0x1C00345A),
    (jc::LIST, 0x1C001C52),
    (jc::LIST, pid::FONT),
    (jc::IMAGE, 0x1C001E58),
    (jc::IMAGE, 0x1C001DD7),
    (jc::IMAGE, pid::TEXT),
    (jc::IMAGE, 0x1C001E20),
    (jc::PICTURE, pid::PICTURE_EXT),
    (jc::XPS, pid::PICTURE_EXT),
    (jc::FILE, pid::FILE_NAME),
    (jc::IFRAME, pid::IFRAME_URL),
    (jc::PAGE, pid::AUTHOR),
    (jc::TAGDEF, pid::TAGDEF_LABEL),
    (jc::SECTION_META, pid::SECTION_NAME),
    (jc::AUTHOR, pid::AUTHOR),
    (jc::PAGE_META, pid::CACHED_TITLE),
    (jc::IMAGE, 0x1C001D9D),
];
/// One reported text is made invalid: an error, never altered text.
fn c25_invalid(cx: &mut Cx) -> R {
    let c = texts_cfg(cx);
    let mut doc = gen_section(&mut cx.m, &c, &mut []).file;
    // candidate places
    let mut at: Vec<(usize, Ex, usize, u32)> = vec![];
    let spaces = |d: &FileModel| -> Vec<Space> { d.spaces.iter().chain([&d.root]).cloned().collect() };
    for (i, s) in spaces(&doc).iter().enumerate() {
        for o in s.objs() {
            for (k, p) in o.props.iter().enumerate() {
                if TEXT_PROPS.iter().any(|x| x.0 == o.jcid && x.1 & 0x3ff_ffff == p.0 & 0x3ff_ffff) {
                    at.push((i, o.id, k, o.jcid));
                }
            }
        }
    }
    if at.is_empty() {
        return Ok(Stat::trivial());
    }
    let (si, id, k, jcid) = cx.x.pick(&at);
    let n = doc.spaces.len();
    let mut put = |v: Vec<u8>| -> u32 {
        let s = if si == n { &mut doc.root } else { &mut doc.spaces[si] };
        let o = s.objs_mut().find(|o| o.id == id).unwrap();
        o.props[k].1 = PV::Vec(v);
        let p = o.props[k].0;
        let _ = n;
        p
    };
    let mark = "\u{1}\u{2}mark\u{3}";
    let p = put(utf16(mark));
    let e = encode(&doc, &mut cx.w.clone(), WireCfg::PLAIN);
    let mut shown = false;
    if let P::Ok(v) = buffer_v(&e.bytes, "a.one") {
        v.visit(&mut |x| shown |= x.str() == Some(mark));
    }
    if !shown {
        // not part of the report (or nothing is reported)
        return Ok(Stat::trivial().class("not reported"));
    }
    let t = &mut cx.x;
    let hi = |t: &mut crate::tape::Tape| 0xd800 + t.below(0x400) as u16;
    let lo = |t: &mut crate::tape::Tape| 0xdc00 + t.below(0x400) as u16;
    let pre = t.text(4);
    let post = t.text(4);
    let (what, bad): (&str, Vec<u16>) = match t.n(5) {
        0 => ("lone high surrogate", vec![hi(t), 0x41]),
        1 => ("lone low surrogate", vec![lo(t)]),
        2 => ("swapped pair", vec![lo(t), hi(t), 0x20]),
        3 => ("two high surrogates", vec![hi(t), hi(t), lo(t)]),
        _ => ("high surrogate at the end", vec![hi(t)]),
    };
    let mut b = utf16(&pre);
    b.extend(bad.iter().flat_map(|x| x.to_le_bytes()));
    if what != "high surrogate at the end" {
        b.extend(utf16(&post));
    }
    if t.flip() {
        b.extend([0, 0]);
    }
    doc = {
        let mut d = doc;
        let s = if si == n { &mut d.root } else { &mut d.spaces[si] };
        let o = s.objs_mut().find(|o| o.id == id).unwrap();
        o.props[k].1 = PV::Vec(b.clone());
        d
    };
    let e = encode(&doc, &mut cx.w, WireCfg::PLAIN);
    match buffer_v(&e.bytes, "a.one") {
        P::Ok(v) => Err(Fail::new(
            format!("invalid text accepted {jcid:#x} {p:#x}"),
            format!("object kind {jcid:#x}, property {p:#x}: text with a {what} ({b:02x?}) is accepted: {}", sample(&v)),
        )
        .file("case.one", &e.bytes)),
        P::Panic(m) => Err(Fail::new(format!("panic {jcid:#x} {p:#x}"), format!("object kind {jcid:#x}, property {p:#x}: {what}: panic: {m}")).file("case.one", &e.bytes)),
        P::Err(_) => Ok(Stat::new(fnv(&b) ^ (jcid as u64) << 32 ^ p as u64, format!("{what} in property {p:#x} of object kind {jcid:#x}: {b:02x?}"))
            .class(what)
            .class(format!("property {p:#x} of {jcid:#x}"))),
    }
}
/// Every text of one unit (or surrogate pair), and every 8-bit byte.
fn c25_units(cx: &mut Cx) -> R {
    let t = &mut cx.x;
    let ascii = t.chance(1, 4);
    let n = 1 + t.n(24);
    let (val, want) = if ascii {
        let b: Vec<u8> = (0..n).map(|_| t.range(1, 255) as u8).collect();
        let w: String = b.iter().map(|c| char::from_u32(*c as u32).unwrap()).collect();
        ((pid::ASCII, PV::Vec(b)), w)
    } else {
        let w: String = (0..n)
            .map(|_| loop {
                let c = match t.n(5) {
                    0 => t.range(1, 0xffff) as u32,
                    1 => t.range(0x10000, 0x10ffff) as u32,
                    2 => t.range(1, 0x2ff) as u32,
                    3 => t.pick(&[0xfeff, 0xfffe, 0xffff, 0xfffd, 0xd7ff, 0xe000, 0x10000, 0x10ffff, 1, 0xffff, 0x100, 0xff, 0x80, 0x7f]),
                    _ => t.range(0x2000, 0x20ff) as u32,
                };
                if let Some(c) = char::from_u32(c) {
                    break c;
                }
                if t.exhausted() {
                    break 'x';
                }
            })
            .collect();
        let mut b = utf16(&w);
        match t.n(3) {
            0 => {}
            1 => b.extend([0, 0]),
            _ => {
                b.extend([0, 0]);
                let k = 2 * t.n(4);
                b.extend(t.bytes(k));
            }
        }
        ((pid::TEXT, PV::Vec(b)), w)
    };
    let mut objs = showcase();
    let o = objs.iter_mut().find(|o| o.id == hostile::ex(20)).unwrap();
    o.props.retain(|p| p.0 != pid::TEXT && p.0 != pid::ASCII);
    o.props.push(val.clone());
    let mut f = hostile::one_page(objs, &[5]);
    f.blobs.insert(hostile::ex(99), vec![]);
    let e = encode(&f, &mut cx.w, WireCfg::PLAIN);
    match buffer_v(&e.bytes, "a.one") {
        P::Ok(v) => {
            let got = at(at(&v, "series.0.pages.0"), &format!("{TEXT}.text"));
            if got.str() != Some(&want) {
                return Err(Fail::new("characters", format!("stored {:02x?}: expected {want:?}, got {got:?}", val.1)).file("case.one", &e.bytes));
            }
        }
        p => return Err(Fail::new("characters", format!("stored {:02x?}: {}", val.1, p.bad().unwrap())).file("case.one", &e.bytes)),
    }
    Ok(Stat::new(fnv(want.as_bytes()) ^ ascii as u64, format!("{:?} -> {want:?}", val.1)).class(if ascii { "8-bit" } else { "UTF-16" }))
}

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C21",
            rule: "generated pages with and without titles, empty and non-empty leading paragraphs, groups and other contents first; the title text is recomputed from the reported page by an independent reading of the rule; non-trivial: a page with a title or an outline",
            parts: vec![part("title", &[1500, 200, 20], 100000, 1200000, c21)],
            assumptions: &["the contents reported for the page are taken as they are (C05, C06 and C11 decide those)"],
        },
        Check {
            id: "C23",
            rule: "one coded value of a page with one of everything set to a generated code (whole range of the field, defined codes emphasised), expected meaning from tables written down independently; non-trivial: every case, distinct by field and code",
            parts: vec![part("codes", &[0, 400, 40], 120000, 1500000, c23)],
            assumptions: &["the code tables in gen.rs are those of [MS-ONE]"],
        },
        Check {
            id: "C25",
            rule: "exact: generated sections with texts of all planes in all text attributes; characters: one paragraph of boundary characters or 8-bit text; invalid: one text that is shown to be reported is replaced by text that is not UTF-16; non-trivial: a non-ASCII text, resp. the replaced text is reported",
            parts: vec![
                part("exact", &[2500, 600, 20], 40000, 500000, c25_exact),
                part("characters", &[0, 10, 120], 40000, 400000, c25_units),
                part("invalid", &[1500, 100, 60], 50000, 600000, c25_invalid),
            ],
            assumptions: &["text properties that are stored but not reported are outside the property"],
        },
    ]
}
