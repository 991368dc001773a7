//! C18: one fault in a well-formed document. The table below says which
//! references of each kind of object are followed and which attributes it has;
//! every fault is injected at a place the document structure leads to.
use super::content::base_cfg;
use super::robust::walk;
use super::wire::some_wire;
use crate::damage::{self, KNOWN};
use crate::r#gen::*;
use crate::pp::*;
use crate::run::*;
use crate::tape::Tape;
use crate::v::*;
use crate::wire::*;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Copy, PartialEq, Debug)]
enum T {
    Bool,
    U8,
    U16,
    U32,
    U64,
    Vec,
    Obj,
    Objs,
    Spaces,
    Sets,
}
/// Values an attribute cannot have.
#[derive(Clone, Copy, PartialEq, Debug)]
enum X {
    Any,
    Text,
    Guid,
    Charset,
    ColorRef,
    Align,
    PageSize,
    Media,
    Shape,
    Bias,
    Indents,
    ListFormat,
    MathType,
    Char,
    EmbType,
}
struct A(u32, T, X, bool);
/// A reference: attribute, only the first entry counts, kinds it may lead to
/// (none: any known kind).
struct Ref(u32, bool, &'static [u32]);
struct K {
    jc: u32,
    refs: &'static [Ref],
    attrs: &'static [A],
}
const O: bool = false;
const M: bool = true;
const F: T = T::U32;

macro_rules! opt {
    ($t:expr, $x:expr, $($p:expr),*) => { [$(A($p, $t, $x, O)),*] };
}
static OFFSETS: [A; 2] = opt!(F, X::Any, pid::OFFSET_H, pid::OFFSET_V);
static ALIGNS: [A; 2] = opt!(F, X::Align, pid::ALIGN_PARENT, pid::ALIGN_SELF);
static TAGS: [A; 1] = opt!(T::Sets, X::Any, pid::NOTE_TAGS);
static SIZES: [A; 2] = opt!(F, X::Any, pid::MAX_W, pid::MAX_H);
/// Groups of attributes several kinds share.
fn shared(jc: u32) -> Vec<&'static A> {
    let mut v: Vec<&'static A> = vec![];
    if [jc::OUTLINE, jc::IMAGE, jc::FILE, jc::INK].contains(&jc) {
        v.extend(&OFFSETS);
    }
    if [jc::OUTLINE, jc::TITLE, jc::TABLE, jc::IMAGE, jc::RICHTEXT].contains(&jc) {
        v.extend(&ALIGNS);
    }
    if [jc::TABLE, jc::IMAGE, jc::FILE, jc::RICHTEXT].contains(&jc) {
        v.extend(&TAGS);
    }
    if [jc::OUTLINE, jc::IMAGE, jc::FILE].contains(&jc) {
        v.extend(&SIZES);
    }
    v
}
const ITEMS: &[u32] = &[jc::ELEMENT, jc::GROUP];
static KINDS: &[K] = &[
    K {
        jc: jc::SECTION,
        refs: &[Ref(pid::ELEMENT_CHILDREN, false, &[jc::SERIES])],
        attrs: &[A(pid::ENTITY_GUID, T::Vec, X::Guid, M), A(pid::TOPOLOGY_TIME, T::U64, X::Any, M), A(pid::ELEMENT_CHILDREN, T::Objs, X::Any, O)],
    },
    K {
        jc: jc::SECTION_META,
        refs: &[],
        attrs: &[A(pid::SCHEMA_READ, T::U32, X::Any, M), A(pid::SCHEMA_WRITE, T::U32, X::Any, M), A(pid::SECTION_NAME, T::Vec, X::Text, O), A(pid::SECTION_COLOR, T::U32, X::Any, O)],
    },
    K { jc: jc::SERIES, refs: &[], attrs: &[A(pid::ENTITY_GUID, T::Vec, X::Guid, M), A(pid::CHILD_SPACES, T::Spaces, X::Any, O)] },
    K { jc: jc::PAGE_MANIFEST, refs: &[Ref(pid::CONTENT_CHILDREN, true, &[jc::PAGE])], attrs: &[A(pid::CONTENT_CHILDREN, T::Objs, X::Any, M)] },
    K {
        jc: jc::PAGE_META,
        refs: &[],
        attrs: &[A(pid::ENTITY_GUID, T::Vec, X::Guid, M), A(pid::CACHED_TITLE, T::Vec, X::Text, M), A(pid::TOPOLOGY_TIME, T::U64, X::Any, M), A(pid::PAGE_LEVEL, T::U32, X::Any, O)],
    },
    K {
        jc: jc::PAGE,
        refs: &[Ref(pid::ELEMENT_CHILDREN, false, &[]), Ref(pid::STRUCTURE_CHILDREN, true, &[jc::TITLE])],
        attrs: &[
            A(pid::ELEMENT_CHILDREN, T::Objs, X::Any, O),
            A(pid::STRUCTURE_CHILDREN, T::Objs, X::Any, O),
            A(pid::AUTHOR, T::Vec, X::Text, O),
            A(pid::PAGE_HEIGHT, F, X::Any, O),
            A(pid::PAGE_SIZE, T::U32, X::PageSize, O),
        ],
    },
    K {
        jc: jc::TITLE,
        refs: &[Ref(pid::ELEMENT_CHILDREN, false, &[jc::OUTLINE])],
        attrs: &[A(pid::LAST_MODIFIED, T::U32, X::Any, M), A(pid::ELEMENT_CHILDREN, T::Objs, X::Any, M), A(pid::OFFSET_H, F, X::Any, M), A(pid::OFFSET_V, F, X::Any, M)],
    },
    K {
        jc: jc::OUTLINE,
        refs: &[Ref(pid::ELEMENT_CHILDREN, false, ITEMS)],
        attrs: &[
            A(pid::LAST_MODIFIED, T::U32, X::Any, M),
            A(pid::ELEMENT_CHILDREN, T::Objs, X::Any, O),
            A(pid::CHILD_LEVEL, T::U8, X::Any, M),
            A(pid::INDENTS, T::Vec, X::Indents, M),
            A(pid::LIST_SPACING, F, X::Any, O),
            A(0x14001CDB, F, X::Any, O),
            A(0x14001CEC, F, X::Any, O),
            A(0x08001CBD, T::Bool, X::Any, O),
        ],
    },
    K {
        jc: jc::GROUP,
        refs: &[Ref(pid::ELEMENT_CHILDREN, false, ITEMS)],
        attrs: &[A(pid::LAST_MODIFIED, T::U32, X::Any, M), A(pid::ELEMENT_CHILDREN, T::Objs, X::Any, O), A(pid::CHILD_LEVEL, T::U8, X::Any, M)],
    },
    K {
        jc: jc::ELEMENT,
        refs: &[Ref(pid::ELEMENT_CHILDREN, false, ITEMS), Ref(pid::CONTENT_CHILDREN, false, &[]), Ref(pid::LIST_NODES, false, &[jc::LIST])],
        attrs: &[
            A(pid::CREATION_TIME, T::U32, X::Any, M),
            A(pid::LAST_MODIFIED, T::U32, X::Any, M),
            A(pid::CHILD_LEVEL, T::U8, X::Any, M),
            A(pid::AUTHOR_ORIGINAL, T::Obj, X::Any, M),
            A(pid::AUTHOR_RECENT, T::Obj, X::Any, M),
            A(pid::LIST_SPACING, F, X::Any, O),
            A(pid::ELEMENT_CHILDREN, T::Objs, X::Any, O),
            A(pid::CONTENT_CHILDREN, T::Objs, X::Any, O),
            A(pid::LIST_NODES, T::Objs, X::Any, O),
        ],
    },
    K {
        jc: jc::LIST,
        refs: &[],
        attrs: &[
            A(pid::LAST_MODIFIED, T::U32, X::Any, M),
            A(pid::LIST_FORMAT, T::Vec, X::ListFormat, M),
            A(0x1C001C52, T::Vec, X::Text, O),
            A(0x14001CB7, T::U32, X::Any, O),
            A(pid::BOLD, T::Bool, X::Any, O),
            A(pid::ITALIC, T::Bool, X::Any, O),
            A(pid::FONT, T::Vec, X::Text, O),
            A(pid::FONT_SIZE, T::U16, X::Any, O),
            A(pid::FONT_COLOR, T::U32, X::ColorRef, O),
        ],
    },
    K {
        jc: jc::RICHTEXT,
        refs: &[Ref(pid::RUN_FORMATTING, false, &[jc::STYLE]), Ref(pid::PARA_STYLE, false, &[jc::STYLE]), Ref(pid::RUN_DATA_OBJECT, false, &[jc::INK_DATA])],
        attrs: &[
            A(pid::LAST_MODIFIED, T::U32, X::Any, M),
            A(pid::PARA_STYLE, T::Obj, X::Any, M),
            A(pid::RUN_FORMATTING, T::Objs, X::Any, O),
            A(pid::RUN_DATA_OBJECT, T::Objs, X::Any, O),
            A(pid::RUN_INDEX, T::Vec, X::Any, O),
            A(pid::RUN_DATA, T::Sets, X::Any, O),
            A(pid::TEXT, T::Vec, X::Text, O),
            A(0x1400342E, F, X::Any, O),
            A(0x1400342F, F, X::Any, O),
            A(0x14003430, F, X::Any, O),
            A(pid::PARA_ALIGN, T::U8, X::Any, O),
        ],
    },
    K {
        jc: jc::STYLE,
        refs: &[],
        attrs: &[
            A(pid::CHARSET, T::U8, X::Charset, O),
            A(pid::BOLD, T::Bool, X::Any, O),
            A(pid::ITALIC, T::Bool, X::Any, O),
            A(0x08001C06, T::Bool, X::Any, O),
            A(0x08001C07, T::Bool, X::Any, O),
            A(0x08001C08, T::Bool, X::Any, O),
            A(0x08001C09, T::Bool, X::Any, O),
            A(pid::FONT, T::Vec, X::Text, O),
            A(pid::FONT_SIZE, T::U16, X::Any, O),
            A(pid::FONT_COLOR, T::U32, X::ColorRef, O),
            A(pid::HIGHLIGHT, T::U32, X::ColorRef, O),
            A(0x1C00348A, T::Vec, X::Text, O),
            A(0x1C00345A, T::Vec, X::Text, O),
            A(pid::PARA_ALIGN, T::U8, X::Any, O),
            A(0x1400342E, F, X::Any, O),
            A(0x1400342F, F, X::Any, O),
            A(0x14003430, F, X::Any, O),
            A(0x14001C3B, T::U32, X::Any, O),
            A(pid::MATH_FORMAT, T::Bool, X::Any, O),
            A(0x08001E14, T::Bool, X::Any, O),
            A(pid::IS_EMBEDDED, T::Bool, X::Any, O),
            A(pid::EMB_TYPE, T::U32, X::Any, O),
        ],
    },
    K {
        jc: jc::TAGDEF,
        refs: &[],
        attrs: &[
            A(pid::TAGDEF_LABEL, T::Vec, X::Text, M),
            A(pid::TAGDEF_STATUS, T::U32, X::Any, M),
            A(pid::TAGDEF_SHAPE, T::U16, X::Shape, M),
            A(pid::TAGDEF_TYPE, T::U16, X::Any, M),
            A(pid::TAGDEF_HIGHLIGHT, T::U32, X::ColorRef, O),
            A(pid::TAGDEF_TEXT, T::U32, X::ColorRef, O),
        ],
    },
    K {
        jc: jc::TABLE,
        refs: &[Ref(pid::ELEMENT_CHILDREN, false, &[jc::ROW])],
        attrs: &[
            A(pid::LAST_MODIFIED, T::U32, X::Any, M),
            A(pid::ELEMENT_CHILDREN, T::Objs, X::Any, M),
            A(pid::ROW_COUNT, T::U32, X::Any, M),
            A(pid::COL_COUNT, T::U32, X::Any, M),
            A(pid::COLS_LOCKED, T::Vec, X::Any, O),
            A(pid::COL_WIDTHS, T::Vec, X::Any, O),
            A(pid::BORDERS, T::Bool, X::Any, O),
        ],
    },
    K { jc: jc::ROW, refs: &[Ref(pid::ELEMENT_CHILDREN, false, &[jc::CELL])], attrs: &[A(pid::ELEMENT_CHILDREN, T::Objs, X::Any, M)] },
    K {
        jc: jc::CELL,
        refs: &[Ref(pid::ELEMENT_CHILDREN, false, &[jc::ELEMENT])],
        attrs: &[A(pid::ELEMENT_CHILDREN, T::Objs, X::Any, M), A(pid::INDENTS, T::Vec, X::Indents, M), A(pid::MAX_W, F, X::Any, O), A(pid::CELL_COLOR, T::U32, X::Any, O)],
    },
    K {
        jc: jc::IMAGE,
        refs: &[Ref(pid::PICTURE, false, &[jc::PICTURE, jc::XPS]), Ref(pid::CONTENT_CHILDREN, false, &[jc::IFRAME])],
        attrs: &[
            A(pid::PICTURE, T::Obj, X::Any, O),
            A(pid::CONTENT_CHILDREN, T::Objs, X::Any, O),
            A(0x1C001E58, T::Vec, X::Text, O),
            A(0x1C001DD7, T::Vec, X::Text, O),
            A(0x14003480, T::U32, X::Any, O),
            A(pid::TEXT, T::Vec, X::Text, O),
            A(0x10001CFE, T::U16, X::Any, O),
            A(0x140034CD, F, X::Any, O),
            A(0x140034CE, F, X::Any, O),
            A(0x1C001E20, T::Vec, X::Text, O),
            A(0x08001D13, T::Bool, X::Any, O),
        ],
    },
    K { jc: jc::PICTURE, refs: &[], attrs: &[A(pid::PICTURE_EXT, T::Vec, X::Text, O)] },
    K { jc: jc::XPS, refs: &[], attrs: &[A(pid::PICTURE_EXT, T::Vec, X::Text, O)] },
    K { jc: jc::IFRAME, refs: &[], attrs: &[A(pid::IFRAME_URL, T::Vec, X::Text, M), A(pid::IFRAME_TYPE, T::U32, X::Any, O)] },
    K {
        jc: jc::FILE,
        refs: &[Ref(pid::FILE_CONTAINER, false, &[jc::FILE_CONTAINER])],
        attrs: &[
            A(pid::LAST_MODIFIED, T::U32, X::Any, M),
            A(pid::FILE_CONTAINER, T::Obj, X::Any, M),
            A(pid::FILE_NAME, T::Vec, X::Text, M),
            A(pid::MEDIA, T::U32, X::Media, O),
        ],
    },
    K { jc: jc::FILE_CONTAINER, refs: &[], attrs: &[] },
    K { jc: jc::INK, refs: &[Ref(pid::INK_DATA, false, &[jc::INK_DATA])], attrs: &[A(pid::INK_DATA, T::Obj, X::Any, O), A(pid::INK_SX, F, X::Any, O), A(pid::INK_SY, F, X::Any, O)] },
    K { jc: jc::INK_DATA, refs: &[Ref(pid::INK_STROKES, false, &[jc::STROKE])], attrs: &[A(pid::INK_STROKES, T::Objs, X::Any, M), A(pid::INK_BBOX, T::Vec, X::Any, O)] },
    K {
        jc: jc::STROKE,
        refs: &[Ref(pid::INK_PROPS, false, &[jc::PEN])],
        attrs: &[A(pid::INK_PATH, T::Vec, X::Any, M), A(pid::INK_BIAS, T::U8, X::Bias, M), A(pid::INK_PROPS, T::Obj, X::Any, M)],
    },
    K {
        jc: jc::PEN,
        refs: &[],
        attrs: &[
            A(pid::INK_HEIGHT, F, X::Any, M),
            A(pid::INK_WIDTH, F, X::Any, M),
            A(pid::INK_DIMS, T::Vec, X::Any, M),
            A(pid::INK_TIP, T::U8, X::Any, O),
            A(pid::INK_TRANSP, T::U8, X::Any, O),
            A(pid::INK_COLOR, T::U32, X::Any, O),
        ],
    },
    K {
        jc: jc::TOC,
        refs: &[Ref(pid::TOC_CHILDREN, false, &[jc::TOC])],
        attrs: &[A(pid::TOC_CHILDREN, T::Objs, X::Any, O), A(pid::TOC_NAME, T::Vec, X::Text, O), A(pid::TOC_ORDER, T::U32, X::Any, O), A(pid::SECTION_COLOR, T::U32, X::Any, O)],
    },
];
static TAG: [A; 3] = [A(pid::TAG_CREATED, T::U32, X::Any, M), A(pid::TAG_STATUS, T::U16, X::Any, M), A(pid::TAG_COMPLETED, T::U32, X::Any, O)];
static MATH: [A; 7] = [
    A(pid::MATH_TYPE, T::U32, X::MathType, O),
    A(pid::MATH_COUNT, T::U32, X::Any, O),
    A(pid::MATH_COL, T::U8, X::Any, O),
    A(pid::MATH_ALIGN, T::U8, X::Any, O),
    A(pid::MATH_CHAR, T::U16, X::Char, O),
    A(pid::MATH_CHAR + 1, T::U16, X::Char, O),
    A(pid::MATH_CHAR + 2, T::U16, X::Char, O),
];
static WORD: [A; 6] = opt!(F, X::Any, 0x1400349E, 0x1400349F, 0x140034A0, 0x140034A1, 0x140034A2, 0x140034A3);
static GAP: [A; 2] = [A(pid::SPACE_W, F, X::Any, M), A(pid::SPACE_H, F, X::Any, M)];

/// A place in the document: object, and within it an attribute, possibly of a
/// nested set.
#[derive(Clone, Copy, Debug, PartialEq)]
struct At {
    sp: usize,
    id: Ex,
    set: Option<(u32, usize)>,
}
fn space(f: &FileModel, sp: usize) -> &Space {
    if sp == usize::MAX { &f.root } else { &f.spaces[sp] }
}
fn space_mut(f: &mut FileModel, sp: usize) -> &mut Space {
    if sp == usize::MAX { &mut f.root } else { &mut f.spaces[sp] }
}
fn obj(f: &FileModel, sp: usize, id: Ex) -> Option<&Obj> {
    space(f, sp).objs().find(|o| o.id == id)
}
fn get(o: &Obj, p: u32) -> Option<&PV> {
    prop(&o.props, p)
}
fn prop(l: &[(u32, PV)], p: u32) -> Option<&PV> {
    l.iter().find(|x| x.0 & 0x3ff_ffff == p & 0x3ff_ffff).map(|x| &x.1)
}
impl At {
    fn props<'a>(&self, f: &'a mut FileModel) -> &'a mut Vec<(u32, PV)> {
        let o = space_mut(f, self.sp).objs_mut().find(|o| o.id == self.id).expect("object");
        match self.set {
            None => &mut o.props,
            Some((p, i)) => match o.props.iter_mut().find(|x| x.0 & 0x3ff_ffff == p & 0x3ff_ffff) {
                Some((_, PV::Sets(_, s))) => &mut s[i],
                _ => panic!("set"),
            },
        }
    }
}
fn truth(o: &Obj, p: u32) -> bool {
    get(o, p) == Some(&PV::Bool(true))
}

#[derive(Default)]
struct Map {
    objs: Vec<(usize, Ex)>,
    /// (place, attribute, index in the list, kinds)
    refs: Vec<(At, u32, usize, &'static [u32])>,
    attrs: Vec<(At, &'static A, u32)>,
    spaces: Vec<(At, usize)>,
    /// styles of runs with data that must be one of the known object types
    emb: Vec<(usize, Ex)>,
    roots: Vec<(usize, u32, u32)>,
}
fn chart(f: &FileModel) -> Map {
    let mut m = Map::default();
    let toc = f.schema == guid(TOC_SCHEMA);
    let mut seen: BTreeSet<(usize, [u8; 16], u32)> = BTreeSet::new();
    let mut todo: Vec<(usize, Ex)> = vec![];
    let start = |m: &mut Map, sp: usize, roles: &[(u32, u32)], todo: &mut Vec<(usize, Ex)>| {
        let s = space(f, sp);
        for (role, jc) in roles {
            if let Some(id) = s.revs.iter().rev().flat_map(|r| &r.roots).find(|r| r.0 == *role).map(|r| r.1) {
                m.roots.push((sp, *role, *jc));
                todo.push((sp, id));
            }
        }
    };
    if toc {
        start(&mut m, usize::MAX, &[(1, jc::TOC)], &mut todo);
    } else {
        start(&mut m, usize::MAX, &[(1, jc::SECTION), (2, jc::SECTION_META)], &mut todo);
    }
    while let Some((sp, id)) = todo.pop() {
        if !seen.insert((sp, id.g, id.v)) {
            continue;
        }
        let Some(o) = obj(f, sp, id) else { continue };
        m.objs.push((sp, id));
        let Some(k) = KINDS.iter().find(|k| k.jc == o.jcid) else { continue };
        let at = At { sp, id, set: None };
        for a in k.attrs.iter().chain(shared(k.jc)) {
            m.attrs.push((at, a, k.jc));
        }
        if k.jc == jc::TOC && get(o, pid::TOC_NAME).is_some() {
            // children of a named entry are not looked at
            continue;
        }
        // items of kinds that have no representation here are not looked at
        let shown = |p: u32, x: Ex| {
            let l: &[u32] = match (k.jc, p) {
                (jc::PAGE, pid::ELEMENT_CHILDREN) => &[jc::OUTLINE, jc::IMAGE, jc::FILE, jc::INK],
                (jc::ELEMENT, pid::CONTENT_CHILDREN) => &[jc::RICHTEXT, jc::TABLE, jc::IMAGE, jc::FILE, jc::INK],
                _ => return true,
            };
            obj(f, sp, x).is_some_and(|o| l.contains(&o.jcid))
        };
        for r in k.refs {
            match get(o, r.0) {
                Some(PV::Obj(x)) => {
                    m.refs.push((at, r.0, 0, r.2));
                    if shown(r.0, *x) {
                        todo.push((sp, *x));
                    }
                }
                Some(PV::Objs(l)) => {
                    for (i, x) in l.iter().enumerate().take(if r.1 { 1 } else { l.len() }) {
                        m.refs.push((at, r.0, i, r.2));
                        if shown(r.0, *x) {
                            todo.push((sp, *x));
                        }
                    }
                }
                _ => {}
            }
        }
        if k.jc == jc::SERIES {
            if let Some(PV::Spaces(l)) = get(o, pid::CHILD_SPACES) {
                for (i, c) in l.iter().enumerate() {
                    m.spaces.push((at, i));
                    if let Some(sp) = f.spaces.iter().position(|s| s.cell == *c) {
                        start(&mut m, sp, &[(1, jc::PAGE_MANIFEST), (2, jc::PAGE_META)], &mut todo);
                    }
                }
            }
        }
        if let (true, Some(PV::Sets(_, s))) = (shared(k.jc).iter().any(|a| a.0 == pid::NOTE_TAGS), get(o, pid::NOTE_TAGS)) {
            for (i, set) in s.iter().enumerate() {
                let at = At { sp, id, set: Some((pid::NOTE_TAGS, i)) };
                for a in &TAG {
                    m.attrs.push((at, a, k.jc));
                }
                if let Some(PV::Obj(x)) = prop(set, pid::TAG_DEF) {
                    m.refs.push((at, pid::TAG_DEF, 0, &[jc::TAGDEF]));
                    todo.push((sp, *x));
                }
            }
        }
        if let (jc::RICHTEXT, Some(PV::Sets(_, s)), Some(PV::Objs(l))) = (k.jc, get(o, pid::RUN_DATA), get(o, pid::RUN_FORMATTING)) {
            for (i, sid) in l.iter().enumerate().take(s.len()) {
                let Some(st) = obj(f, sp, *sid) else { continue };
                let at = At { sp, id, set: Some((pid::RUN_DATA, i)) };
                let mut add = |l: &'static [A]| {
                    for a in l {
                        m.attrs.push((at, a, k.jc));
                    }
                };
                if truth(st, pid::MATH_FORMAT) {
                    add(&MATH);
                }
                if truth(st, pid::IS_EMBEDDED) {
                    add(&WORD);
                    if get(st, pid::EMB_TYPE) == Some(&PV::U32(0x20026)) {
                        add(&GAP);
                    }
                    m.emb.push((sp, *sid));
                }
            }
        }
    }
    m
}

fn bad_value(t: &mut Tape, x: X) -> Option<PV> {
    Some(match x {
        X::Any | X::EmbType => return None,
        X::Text => {
            // half of a surrogate pair
            let mut v = utf16(&t.text(4));
            let lone = if t.flip() { 0xd800 + t.below(0x400) as u16 } else { 0xdc00 + t.below(0x400) as u16 };
            v.extend(lone.to_le_bytes());
            if t.flip() {
                v.extend(utf16("a"));
            }
            PV::Vec(v)
        }
        X::Guid => {
            let n = t.n(16);
            PV::Vec(t.bytes(n))
        }
        X::Charset => {
            let mut c = t.raw() as u8;
            while CHARSETS.iter().any(|x| x.0 == c) {
                c = c.wrapping_add(1);
            }
            PV::U8(c)
        }
        X::ColorRef => PV::U32((1 + t.below(254) as u32) << 24 | t.raw() & 0xff_ffff),
        X::Align => PV::U32((6 + t.below(2) as u32) | t.raw() & 0x7fff_fff8),
        X::PageSize => PV::U32(16 + t.u32b() % 0xffff_ff00),
        X::Media => PV::U32(t.pick(&[0u32, 3, 4, 255, 256, 257, 258, 0x8000_0001, u32::MAX])),
        X::Shape => PV::U16(144 + t.below(65536 - 144) as u16),
        X::Bias => PV::U8(3 + t.below(253) as u8),
        X::Indents => {
            let n = 1 + t.n(255);
            let mut v = vec![n as u8, 0, 0, 0];
            let k = t.n(n * 4);
            v.extend(t.bytes(k));
            if t.chance(1, 4) {
                v.truncate(t.n(4));
            }
            PV::Vec(v)
        }
        X::ListFormat => PV::Vec(if t.flip() { vec![] } else { vec![5] }),
        X::MathType => {
            let mut c = t.u32b();
            while MATH_TYPES.iter().any(|x| x.0 == c) {
                c += 1;
            }
            PV::U32(c)
        }
        X::Char => PV::U16(0xd800 + t.below(0x800) as u16),
    })
}
fn other_type(t: &mut Tape, ty: T, ids: &[Ex], cells: &[Cell]) -> PV {
    // the stored bits stay plausible, only the type is another
    let mut l = vec![
        (T::Bool, PV::Bool(t.flip())),
        (T::U8, PV::U8(t.n(3) as u8)),
        (T::U16, PV::U16(t.n(3) as u16)),
        (T::U32, PV::U32(t.n(3) as u32)),
        (T::U64, PV::U64(t.n(3) as u64)),
        (T::Vec, PV::Vec(t.pick(&[vec![], vec![0, 0], vec![1, 0, 0, 0], vec![0x41, 0, 0, 0], vec![0; 16]]))),
        (T::Sets, PV::Sets(0x44000811, vec![vec![]])),
    ];
    if !ids.is_empty() {
        l.push((T::Obj, PV::Obj(t.pick(ids))));
        l.push((T::Objs, PV::Objs(vec![t.pick(ids)])));
    }
    if !cells.is_empty() {
        l.push((T::Spaces, PV::Spaces(vec![t.pick(cells)])));
    }
    let mut l: Vec<PV> = l.into_iter().filter(|x| x.0 != ty).map(|x| x.1).collect();
    l.push(PV::None);
    if !ids.is_empty() {
        l.push(PV::Set(vec![]));
    }
    t.pick(&l)
}
const MISSING: Ex = Ex { g: [0xEE; 16], v: 0x7777 };

/// Injects one fault; says which.
fn inject(t: &mut Tape, f: &mut FileModel, m: &Map) -> Option<String> {
    let cells: Vec<Cell> = f.spaces.iter().map(|s| s.cell).collect();
    let kind_of = |f: &FileModel, sp: usize, id: Ex| obj(f, sp, id).map_or("?".into(), |o| format!("{:#x}", o.jcid));
    let set_ref = |f: &mut FileModel, r: &(At, u32, usize, &[u32]), to: Ex| {
        let l = r.0.props(f);
        let v = l.iter_mut().find(|x| x.0 & 0x3ff_ffff == r.1 & 0x3ff_ffff).unwrap();
        match &mut v.1 {
            PV::Obj(x) => *x = to,
            PV::Objs(l) => l[r.2] = to,
            _ => unreachable!(),
        }
    };
    Some(match t.weighted(&[3, 2, 3, 3, 5, 6, 5, 2, 2, 2, 2, 1, 4, 1, 2]) {
        0 => {
            let (sp, id) = m.objs[t.n(m.objs.len())];
            let k = kind_of(f, sp, id);
            for r in &mut space_mut(f, sp).revs {
                for g in &mut r.groups {
                    g.retain(|o| o.id != id);
                }
            }
            format!("object missing: {k}")
        }
        1 => {
            let r = m.refs.get(t.n(m.refs.len().max(1)))?;
            let k = kind_of(f, r.0.sp, r.0.id);
            set_ref(f, r, MISSING);
            format!("dangling reference: {:#x} of {k}", r.1)
        }
        2 => {
            // to an object of another kind
            let strict: Vec<_> = m.refs.iter().filter(|r| !r.3.is_empty()).collect();
            if strict.is_empty() {
                return None;
            }
            let r = strict[t.n(strict.len())];
            let others: Vec<Ex> = space(f, r.0.sp).objs().filter(|o| !r.3.contains(&o.jcid)).map(|o| o.id).collect();
            if others.is_empty() {
                return None;
            }
            let to = t.pick(&others);
            let k = kind_of(f, r.0.sp, r.0.id);
            let k2 = kind_of(f, r.0.sp, to);
            set_ref(f, r, to);
            format!("wrong kind: {:#x} of {k} leads to {k2}", r.1)
        }
        3 => {
            let strict: Vec<_> = m.refs.iter().filter(|r| !r.3.is_empty()).collect();
            if strict.is_empty() {
                return None;
            }
            let r = strict[t.n(strict.len())];
            let to = match prop(r.0.props(f), r.1)? {
                PV::Obj(x) => *x,
                PV::Objs(l) => l[r.2],
                _ => return None,
            };
            let ks: Vec<u32> = KNOWN.iter().copied().filter(|k| !r.3.contains(k)).collect();
            let k2 = t.pick(&ks);
            let k = kind_of(f, r.0.sp, r.0.id);
            space_mut(f, r.0.sp).objs_mut().filter(|o| o.id == to).for_each(|o| o.jcid = k2);
            format!("changed kind: target of {:#x} of {k} becomes {k2:#x}", r.1)
        }
        4 => {
            let mut l: Vec<_> = m.attrs.iter().filter(|a| a.1.3).collect();
            // the order number of a listed name is mandatory
            let toc: Vec<_> = m.attrs.iter().filter(|a| a.1.0 == pid::TOC_ORDER && space(f, a.0.sp).objs().any(|o| o.id == a.0.id && get(o, pid::TOC_NAME).is_some())).collect();
            l.extend(toc);
            // pens: both dimensions are needed only by strokes; all charted pens have strokes
            if l.is_empty() {
                return None;
            }
            let a = l[t.n(l.len())];
            let p = a.1.0;
            a.0.props(f).retain(|x| x.0 & 0x3ff_ffff != p & 0x3ff_ffff);
            format!("missing attribute: {p:#x} of {:#x}", a.2)
        }
        5 => {
            let l: Vec<_> = m.attrs.iter().filter(|a| prop(a.0.props(f), a.1.0).is_some()).collect();
            if l.is_empty() {
                return None;
            }
            let a = l[t.n(l.len())];
            let ids: Vec<Ex> = space(f, a.0.sp).objs().map(|o| o.id).collect();
            let v = other_type(t, a.1.1, &ids, &cells);
            let what = format!("{:?} becomes type {}", a.1.1, v.type_code());
            let p = a.1.0;
            let l = a.0.props(f);
            for x in l.iter_mut() {
                if x.0 & 0x3ff_ffff == p & 0x3ff_ffff {
                    x.1 = v.clone();
                }
            }
            format!("wrong type: {p:#x} of {:#x}: {what}", a.2)
        }
        6 => {
            let l: Vec<_> = m.attrs.iter().filter(|a| a.1.2 != X::Any).collect();
            if l.is_empty() {
                return None;
            }
            let a = l[t.n(l.len())];
            let v = bad_value(t, a.1.2)?;
            let p = a.1.0;
            let l = a.0.props(f);
            l.retain(|x| x.0 & 0x3ff_ffff != p & 0x3ff_ffff);
            l.push((p, v.clone()));
            format!("impossible value: {p:#x} of {:#x} ({:?})", a.2, a.1.2)
        }
        7 => {
            let (sp, role, jc) = m.roots[t.n(m.roots.len())];
            let others: Vec<Ex> = space(f, sp).objs().filter(|o| o.jcid != jc).map(|o| o.id).collect();
            let k = t.n(3);
            for r in &mut space_mut(f, sp).revs {
                match k {
                    0 => r.roots.retain(|x| x.0 != role),
                    1 => r.roots.iter_mut().filter(|x| x.0 == role).for_each(|x| x.1 = MISSING),
                    _ => {
                        if others.is_empty() {
                            return None;
                        }
                        let to = t.pick(&others);
                        r.roots.iter_mut().filter(|x| x.0 == role).for_each(|x| x.1 = to)
                    }
                }
            }
            format!("root {role} of {jc:#x}: {}", ["absent", "dangling", "wrong kind"][k])
        }
        8 => {
            if m.spaces.is_empty() {
                return None;
            }
            let (at, i) = m.spaces[t.n(m.spaces.len())];
            let l = at.props(f);
            let v = l.iter_mut().find(|x| x.0 & 0x3ff_ffff == pid::CHILD_SPACES & 0x3ff_ffff).unwrap();
            let PV::Spaces(c) = &mut v.1 else { return None };
            let k = t.n(3);
            let old = c[i];
            match k {
                0 => c[i] = (MISSING, MISSING),
                1 => c[i].1 = MISSING,
                _ => f.spaces.retain(|s| s.cell != old),
            }
            format!("page space missing ({k})")
        }
        9 => {
            // a pen without one of the two dimensions
            let l: Vec<_> = m.objs.iter().filter(|(sp, id)| obj(f, *sp, *id).is_some_and(|o| o.jcid == jc::PEN)).copied().collect();
            if l.is_empty() {
                return None;
            }
            let (sp, id) = l[t.n(l.len())];
            let g = if t.flip() { guid("598a6a8f-52c0-4ba0-93af-af357411a561") } else { guid("b53f9f75-04e0-4498-a7ee-c30dbb5a9011") };
            let remove = t.flip();
            let at = At { sp, id, set: None };
            for x in at.props(f).iter_mut() {
                if let (pid::INK_DIMS, PV::Vec(b)) = (x.0, &mut x.1) {
                    let i = b.chunks(32).position(|c| c[..16] == g)?;
                    if remove {
                        b.drain(i * 32..i * 32 + 32);
                    } else {
                        b[i * 32 + 3] ^= 1;
                    }
                }
            }
            "pen without a dimension".into()
        }
        10 => {
            // binary data
            let l: Vec<_> = m
                .objs
                .iter()
                .filter(|(sp, id)| obj(f, *sp, *id).is_some_and(|o| o.blob.is_some() && [jc::PICTURE, jc::XPS, jc::FILE_CONTAINER].contains(&o.jcid)))
                .copied()
                .collect();
            if l.is_empty() {
                return None;
            }
            let (sp, id) = l[t.n(l.len())];
            let o = space_mut(f, sp).objs_mut().find(|o| o.id == id).unwrap();
            let (k, b) = (o.jcid, o.blob.unwrap());
            if k == jc::FILE_CONTAINER && t.flip() {
                o.blob = None;
                "attachment without data".into()
            } else if t.flip() {
                o.blob = Some(MISSING);
                format!("dangling binary data of {k:#x}")
            } else {
                f.blobs.remove(&b);
                format!("binary data missing of {k:#x}")
            }
        }
        12 => {
            // the stored object contradicts itself
            let (sp, id) = m.objs[t.n(m.objs.len())];
            let k = 1 + t.n(FAULTS.len());
            let o = space_mut(f, sp).objs_mut().find(|o| o.id == id).unwrap();
            if k == 2 && !o.props.iter().any(|x| x.1.has_spaces()) {
                return None;
            }
            o.fault = k as u8;
            format!("stored object: {}", FAULTS[k - 1])
        }
        13 => {
            let (sp, _, _) = m.roots[t.n(m.roots.len())];
            let role = t.pick(&[0, 5, 6, 255, 256, 257, 65537, u32::MAX]);
            let s = space_mut(f, sp);
            let k = t.n(s.revs.len());
            let x = s.revs[k].roots.first().map_or(MISSING, |r| r.1);
            let at = t.n(s.revs[k].roots.len() + 1);
            s.revs[k].roots.insert(at, (role, x));
            "root: unknown role".into()
        }
        14 => {
            // more embedded drawings than there is ink data
            let l: Vec<_> = m
                .objs
                .iter()
                .filter_map(|&(sp, id)| {
                    let o = obj(f, sp, id).filter(|o| o.jcid == jc::RICHTEXT)?;
                    let (Some(PV::Sets(_, s)), Some(PV::Objs(l)), Some(PV::Objs(d))) = (get(o, pid::RUN_DATA), get(o, pid::RUN_FORMATTING), get(o, pid::RUN_DATA_OBJECT)) else { return None };
                    let need = l.iter().take(s.len()).filter_map(|x| obj(f, sp, *x)).filter(|s| truth(s, pid::IS_EMBEDDED) && get(s, pid::EMB_TYPE).is_none()).count();
                    (need >= 2 && d.len() >= need).then_some((sp, id, need))
                })
                .collect();
            if l.is_empty() {
                return None;
            }
            let (sp, id, need) = l[t.n(l.len())];
            let left = 1 + t.n(need - 1);
            for x in (At { sp, id, set: None }).props(f) {
                if let (true, PV::Objs(d)) = (x.0 & 0x3ff_ffff == pid::RUN_DATA_OBJECT & 0x3ff_ffff, &mut x.1) {
                    d.truncate(left);
                }
            }
            "embedded drawing without ink data".into()
        }
        _ => {
            if m.emb.is_empty() {
                return None;
            }
            let (sp, id) = m.emb[t.n(m.emb.len())];
            let mut v = t.u32b();
            if v == 0x20026 || v == 0x20027 {
                v = 0;
            }
            let l = At { sp, id, set: None }.props(f);
            l.retain(|x| x.0 != pid::EMB_TYPE);
            l.push((pid::EMB_TYPE, PV::U32(v)));
            "unknown embedded object type".into()
        }
    })
}
/// Spreads objects over revisions without changing the final state.
fn spread(t: &mut Tape, f: &mut FileModel) {
    for s in f.spaces.iter_mut().chain([&mut f.root]) {
        let n = 1 + t.n(3);
        if n == 1 {
            continue;
        }
        let mut revs = vec![Rev::default(); n];
        revs.iter_mut().for_each(|r| r.groups.push(vec![]));
        for r in &s.revs {
            for x in &r.roots {
                revs[t.n(n)].roots.push(*x);
            }
            for o in r.groups.iter().flatten() {
                revs[t.n(n)].groups[0].push(o.clone());
            }
        }
        revs.iter_mut().for_each(|r| r.groups.retain(|g| !g.is_empty()));
        s.revs = revs;
    }
}
fn document(cx: &mut Cx, toc: bool) -> FileModel {
    let mut cfg = base_cfg(&mut cx.x);
    cfg.w_elem = cx.x.pick(&[[6, 3, 3, 3, 3, 1], [10, 2, 1, 1, 1, 1], [3, 8, 1, 1, 1, 1]]);
    cfg.w_page = cx.x.pick(&[[8, 2, 1, 1, 1], [4, 4, 4, 4, 1]]);
    cfg.tags = cx.x.pick(&[4, 10]);
    cfg.lists = 5;
    cfg.math = cx.x.pick(&[2, 6]);
    cfg.embedded = cx.x.pick(&[2, 6]);
    cfg.budget = cx.x.pick(&[12, 30]);
    let mut f = if toc {
        let node = super::wire::gen_toc(&mut cx.m, &["a.one", "b.one", "g"]);
        toc_file(&mut cx.m, &node, &cfg)
    } else {
        gen_section(&mut cx.m, &cfg, &mut []).file
    };
    if cx.x.chance(1, 3) {
        spread(&mut cx.x, &mut f);
    }
    f
}
fn read(cx: &Cx, toc: bool, b: &[u8]) -> P<V> {
    if toc {
        let p = damage::notebook_dir(&cx.dir).join("t.onetoc2");
        std::fs::write(&p, b).expect("scratch");
        notebook_v(&p)
    } else {
        buffer_v(b, "a.one")
    }
}
fn c18(cx: &mut Cx) -> R {
    let toc = cx.x.chance(1, 12);
    let f = document(cx, toc);
    let mut wc = if cx.x.flip() { WireCfg::PLAIN } else { some_wire(&mut cx.x) };
    // an element with the identifier that is meant to be missing
    wc.extra_elements = false;
    let a = encode(&f, &mut cx.w.clone(), wc).bytes;
    if !read(cx, toc, &a).is_ok() {
        return Ok(Stat::trivial());
    }
    let m = chart(&f);
    let mut g = f.clone();
    let Some(what) = inject(&mut cx.x, &mut g, &m) else { return Ok(Stat::trivial()) };
    let b = encode(&g, &mut cx.w, wc).bytes;
    let class: String = what.split(':').next().unwrap().into();
    match read(cx, toc, &b) {
        P::Err(e) => Ok(Stat::new(fnv(&b), format!("{what}: {e}")).class(class).class(if toc { "table of contents" } else { "section" })),
        r => {
            let ext = if toc { "onetoc2" } else { "one" };
            Err(Fail::new(format!("fault: {what}"), format!("{what}: {}", r.bad().unwrap_or("the document is read".into()))).file(format!("whole.{ext}").as_str(), &a).file(format!("fault.{ext}").as_str(), &b))
        }
    }
}

/// Removes elements of the package itself.
fn c18_elements(cx: &mut Cx) -> R {
    let toc = cx.x.chance(1, 8);
    let f = document(cx, toc);
    let mut wc = some_wire(&mut cx.x);
    wc.extra_elements = false;
    wc.fragments = false;
    wc.widths = false;
    wc.meta_blocks = false;
    let e = encode(&f, &mut cx.w, wc);
    let b = e.bytes;
    if !read(cx, toc, &b).is_ok() {
        return Ok(Stat::trivial());
    }
    let Some(l) = elements(&b) else { return Ok(Stat::trivial()) };
    let (from, to, ty) = l[cx.x.n(l.len())];
    let mut c = b.clone();
    c.drain(from..to);
    let name = BTreeMap::from([(1, "storage index"), (2, "storage manifest"), (3, "cell manifest"), (4, "revision manifest"), (5, "object group"), (10, "binary data")]);
    let n = name.get(&ty).copied().unwrap_or("other");
    match read(cx, toc, &c) {
        P::Err(e) => Ok(Stat::new(fnv(&c), format!("{n} removed: {e}")).class(format!("{n} removed"))),
        r => Err(Fail::new(format!("element: {n}"), format!("{n} (bytes {from}..{to}) removed: {}", r.bad().unwrap_or("the document is read".into()))).file("whole.one", &b).file("fault.one", &c)),
    }
}
/// The data elements of a package written with minimal integers: where each
/// starts, where it ends, its type.
fn elements(b: &[u8]) -> Option<Vec<(usize, usize, u64)>> {
    let (_, marks) = walk(b)?;
    let mut out = vec![];
    let mut open: Option<(usize, u64)> = None;
    for &at in &marks {
        let Some(&h) = b.get(at) else { continue };
        if open.is_none() && h & 7 == 4 && at >= 68 {
            let v = u16::from_le_bytes([h, *b.get(at + 1)?]);
            if v >> 3 & 0x3f == 1 {
                let n = (v >> 9) as usize;
                let body = b.get(at + 2..at + 2 + n)?;
                // the type is the last integer
                let ty = *body.last()? >> 1;
                open = Some((at, ty as u64));
            }
        } else if let (Some((from, ty)), 0x05) = (open, h) {
            out.push((from, at + 1, ty));
            open = None;
        }
    }
    (!out.is_empty()).then_some(out)
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C18",
        rule: "one fault injected into a document that is read without it, at a place its structure leads to; anything but an error is a violation; non-trivial: the fault was injected",
        parts: vec![
            part("faults", &[1500, 1500, 200], 150000, 2000000, c18),
            part("elements", &[800, 1200, 120], 30000, 400000, c18_elements),
        ],
        assumptions: &[],
    }]
}
