//! Generates documents: the stored objects and, side by side, what a reader of
//! the format must report for them.
use crate::tape::Tape;
use crate::v::*;
use crate::wire::*;
use std::collections::BTreeMap;

pub mod jc {
    pub const SECTION: u32 = 0x00060007;
    pub const SERIES: u32 = 0x00060008;
    pub const SECTION_META: u32 = 0x00020031;
    pub const PAGE_META: u32 = 0x00020030;
    pub const PAGE_MANIFEST: u32 = 0x00060037;
    pub const PAGE: u32 = 0x0006000B;
    pub const TITLE: u32 = 0x0006002C;
    pub const OUTLINE: u32 = 0x0006000C;
    pub const ELEMENT: u32 = 0x0006000D;
    pub const GROUP: u32 = 0x00060019;
    pub const RICHTEXT: u32 = 0x0006000E;
    pub const STYLE: u32 = 0x0012004D;
    pub const TAGDEF: u32 = 0x00120043;
    pub const TABLE: u32 = 0x00060022;
    pub const ROW: u32 = 0x00060023;
    pub const CELL: u32 = 0x00060024;
    pub const IMAGE: u32 = 0x00060011;
    pub const PICTURE: u32 = 0x00080039;
    pub const XPS: u32 = 0x0008003A;
    pub const IFRAME: u32 = 0x00060058;
    pub const FILE: u32 = 0x00060035;
    pub const FILE_CONTAINER: u32 = 0x00080036;
    pub const INK: u32 = 0x00060014;
    pub const INK_DATA: u32 = 0x0002003B;
    pub const STROKE: u32 = 0x00020047;
    pub const PEN: u32 = 0x00120048;
    pub const LIST: u32 = 0x00060012;
    pub const AUTHOR: u32 = 0x00120001;
    pub const TOC: u32 = 0x00020001;
    pub const REVMETA: u32 = 0x00020044;
}
pub mod pid {
    pub const LAST_MODIFIED: u32 = 0x14001D7A;
    pub const ELEMENT_CHILDREN: u32 = 0x24001C20;
    pub const CONTENT_CHILDREN: u32 = 0x24001C1F;
    pub const STRUCTURE_CHILDREN: u32 = 0x24001D5F;
    pub const CHILD_SPACES: u32 = 0x2C001D63;
    pub const CHILD_LEVEL: u32 = 0x0C001C03;
    pub const INDENTS: u32 = 0x1C001C12;
    pub const ENTITY_GUID: u32 = 0x1C001C30;
    pub const TOPOLOGY_TIME: u32 = 0x18001C65;
    pub const SECTION_NAME: u32 = 0x1C00349B;
    pub const SECTION_COLOR: u32 = 0x14001CBE;
    pub const SCHEMA_READ: u32 = 0x14001D82;
    pub const SCHEMA_WRITE: u32 = 0x1400348B;
    pub const CACHED_TITLE: u32 = 0x1C001CF3;
    pub const PAGE_LEVEL: u32 = 0x14001DFF;
    pub const AUTHOR: u32 = 0x1C001D75;
    pub const PAGE_HEIGHT: u32 = 0x14001C02;
    pub const PAGE_SIZE: u32 = 0x14001C8B;
    pub const OFFSET_H: u32 = 0x14001C14;
    pub const OFFSET_V: u32 = 0x14001C15;
    pub const ALIGN_PARENT: u32 = 0x14001C3E;
    pub const ALIGN_SELF: u32 = 0x14001C84;
    pub const MAX_W: u32 = 0x14001C1B;
    pub const MAX_H: u32 = 0x14001C1C;
    pub const LIST_SPACING: u32 = 0x14001CCB;
    pub const CREATION_TIME: u32 = 0x14001D09;
    pub const AUTHOR_ORIGINAL: u32 = 0x20001D78;
    pub const AUTHOR_RECENT: u32 = 0x20001D79;
    pub const LIST_NODES: u32 = 0x24001C26;
    pub const RUN_FORMATTING: u32 = 0x24001E13;
    pub const RUN_INDEX: u32 = 0x1C001E12;
    pub const RUN_DATA: u32 = 0x40003499;
    pub const RUN_DATA_OBJECT: u32 = 0x24003458;
    pub const PARA_STYLE: u32 = 0x2000342C;
    pub const TEXT: u32 = 0x1C001C22;
    pub const ASCII: u32 = 0x1C003498;
    pub const NOTE_TAGS: u32 = 0x40003489;
    pub const TAG_DEF: u32 = 0x20003488;
    pub const TAG_CREATED: u32 = 0x1400346E;
    pub const TAG_COMPLETED: u32 = 0x1400346F;
    pub const TAG_STATUS: u32 = 0x10003470;
    pub const TAGDEF_LABEL: u32 = 0x1C003468;
    pub const TAGDEF_STATUS: u32 = 0x14003467;
    pub const TAGDEF_SHAPE: u32 = 0x10003464;
    pub const TAGDEF_HIGHLIGHT: u32 = 0x14003465;
    pub const TAGDEF_TEXT: u32 = 0x14003466;
    pub const TAGDEF_TYPE: u32 = 0x10003463;
    pub const ROW_COUNT: u32 = 0x14001D57;
    pub const COL_COUNT: u32 = 0x14001D58;
    pub const COLS_LOCKED: u32 = 0x1C001D7D;
    pub const COL_WIDTHS: u32 = 0x1C001D66;
    pub const BORDERS: u32 = 0x08001D5E;
    pub const CELL_COLOR: u32 = 0x14001E26;
    pub const PICTURE: u32 = 0x20001C3F;
    pub const FILE_CONTAINER: u32 = 0x20001D9B;
    pub const FILE_NAME: u32 = 0x1C001D9C;
    pub const MEDIA: u32 = 0x14001D24;
    pub const PICTURE_EXT: u32 = 0x24003424;
    pub const INK_DATA: u32 = 0x20003415;
    pub const INK_STROKES: u32 = 0x24003416;
    pub const INK_PATH: u32 = 0x1C00340B;
    pub const INK_BIAS: u32 = 0x0C00341C;
    pub const INK_PROPS: u32 = 0x20003409;
    pub const INK_DIMS: u32 = 0x1C00340A;
    pub const INK_HEIGHT: u32 = 0x1400340C;
    pub const INK_WIDTH: u32 = 0x1400340D;
    pub const INK_COLOR: u32 = 0x1400340F;
    pub const INK_TIP: u32 = 0x0C003412;
    pub const INK_TRANSP: u32 = 0x0C003414;
    pub const INK_SX: u32 = 0x14001C46;
    pub const INK_SY: u32 = 0x14001C47;
    pub const INK_BBOX: u32 = 0x1C003418;
    pub const CHARSET: u32 = 0x0C001D01;
    pub const FONT_COLOR: u32 = 0x14001C0C;
    pub const HIGHLIGHT: u32 = 0x14001C0D;
    pub const FONT: u32 = 0x1C001C0A;
    pub const FONT_SIZE: u32 = 0x10001C0B;
    pub const BOLD: u32 = 0x08001C04;
    pub const ITALIC: u32 = 0x08001C05;
    pub const PARA_ALIGN: u32 = 0x0C003477;
    pub const IS_EMBEDDED: u32 = 0x08001E22;
    pub const EMB_TYPE: u32 = 0x14003457;
    pub const MATH_FORMAT: u32 = 0x08003401;
    pub const MATH_TYPE: u32 = 0x1400344F;
    pub const MATH_COUNT: u32 = 0x14003450;
    pub const MATH_COL: u32 = 0x0C003451;
    pub const MATH_ALIGN: u32 = 0x0C003452;
    pub const MATH_CHAR: u32 = 0x10003453;
    pub const LIST_FORMAT: u32 = 0x1C001C1A;
    pub const IFRAME_TYPE: u32 = 0x140035F2;
    pub const IFRAME_URL: u32 = 0x1C0035F3;
    pub const TOC_CHILDREN: u32 = 0x24001CF6;
    pub const TOC_NAME: u32 = 0x1C001D6B;
    pub const TOC_ORDER: u32 = 0x14001CB9;
    pub const SPACE_W: u32 = 0x14001C27;
    pub const SPACE_H: u32 = 0x14001C28;
}

pub const CHARSETS: [(u8, &str); 19] = [
    (0, "Ansi"),
    (1, "Default"),
    (2, "Symbol"),
    (77, "Mac"),
    (128, "ShiftJis"),
    (129, "Hangul"),
    (130, "Johab"),
    (134, "Gb2312"),
    (136, "ChineseBig5"),
    (161, "Greek"),
    (162, "Turkish"),
    (163, "Vietnamese"),
    (177, "Hebrew"),
    (178, "Arabic"),
    (186, "Baltic"),
    (204, "Russian"),
    (222, "Thai"),
    (238, "EastEurope"),
    (255, "Oem"),
];
pub const SHAPES: [&str; 144] = [
    "NoIcon", "GreenCheckBox", "YellowCheckBox", "BlueCheckBox", "GreenStarCheckBox", "YellowStarCheckBox", "BlueStarCheckBox",
    "GreenExclamationCheckBox", "YellowExclamationCheckBox", "BlueExclamationCheckBox", "GreenRightArrowCheckBox",
    "YellowRightArrowCheckBox", "BlueRightArrowCheckBox", "YellowStar", "BlueFollowUpFlag", "QuestionMark", "BlueRightArrow",
    "HighPriority", "ContactInformation", "Meeting", "TimeSensitive", "LightBulb", "Pushpin", "Home", "CommentBubble", "SmilingFace",
    "AwardRibbon", "YellowKey", "BlueCheckBox1", "BlueCircle1", "BlueCheckBox2", "BlueCircle2", "BlueCheckBox3", "BlueCircle3",
    "BlueEightPointStar", "BlueCheckMark", "BlueCircle", "BlueDownArrow", "BlueLeftArrow", "BlueSolidTarget", "BlueStar", "BlueSun",
    "BlueTarget", "BlueTriangle", "BlueUmbrella", "BlueUpArrow", "BlueXWithDots", "BlueX", "GreenCheckBox1", "GreenCircle1",
    "GreenCheckBox2", "GreenCircle2", "GreenCheckBox3", "GreenCircle3", "GreenEightPointStar", "GreenCheckMark", "GreenCircle",
    "GreenDownArrow", "GreenLeftArrow", "GreenRightArrow", "GreenSolidArrow", "GreenStar", "GreenSun", "GreenTarget", "GreenTriangle",
    "GreenUmbrella", "GreenUpArrow", "GreenXWithDots", "GreenX", "YellowCheckBox1", "YellowCircle1", "YellowCheckBox2",
    "YellowCircle2", "YellowCheckBox3", "YellowCircle3", "YellowEightPointStar", "YellowCheckMark", "YellowCircle", "YellowDownArrow",
    "YellowLeftArrow", "YellowRightArrow", "YellowSolidTarget", "YellowSun", "YellowTarget", "YellowTriangle", "YellowUmbrella",
    "YellowUpArrow", "YellowXWithDots", "YellowX", "FollowUpTodayFlag", "FollowUpTomorrowFlag", "FollowUpThisWeekFlag",
    "FollowUpNextWeekFlag", "NoFollowUpDateFlag", "BluePersonCheckBox", "YellowPersonCheckBox", "GreenPersonCheckBox",
    "BlueFlagCheckBox", "RedFlagCheckBox", "GreenFlagCheckBox", "RedSquare", "YellowSquare", "BlueSquare", "GreenSquare",
    "OrangeSquare", "PinkSquare", "EMailMessage", "ClosedEnvelope", "OpenEnvelope", "MobilePhone", "TelephoneWithClock",
    "QuestionBalloon", "PaperClip", "FrowningFace", "InstantMessagingContactPerson", "PersonWithExclamationMark", "TwoPeople",
    "ReminderBell", "Contact", "RoseOnAStem", "CalendarDateWithClock", "MusicalNote", "MovieClip", "QuotationMark", "Globe",
    "HyperlinkGlobe", "Laptop", "Plane", "Car", "Binoculars", "PresentationSlide", "Padlock", "OpenBook", "NotebookWithClock",
    "BlankPaperWithLines", "Research", "Pen", "DollarSign", "CoinsWithAWindowBackdrop", "ScheduledTask", "LightningBolt", "Cloud",
    "Heart", "Sunflower",
];
/// Icons the format lists as checkable: every check box variant (coloured,
/// star, exclamation, arrow, numbered, person, flag) and the follow-up flags.
pub fn checkable(code: u16) -> bool {
    matches!(code, 1..=12 | 28 | 30 | 32 | 48 | 50 | 52 | 69 | 71 | 73 | 89..=99)
}
pub const MATH_TYPES: [(u32, &str); 26] = [
    (0, "SimpleText"), (10, "Accent"), (11, "Box"), (12, "BoxedFormula"), (13, "Brackets"), (14, "BracketsWithSeps"),
    (15, "EquationArray"), (16, "Fraction"), (17, "FunctionApply"), (18, "LeftSubSup"), (19, "LowerLimit"), (20, "Matrix"),
    (21, "Nary"), (22, "OpChar"), (23, "Overbar"), (24, "Phantom"), (25, "Radical"), (26, "SlashedFraction"), (27, "Stack"),
    (28, "StretchStack"), (29, "Subscript"), (30, "SubSup"), (31, "Superscript"), (32, "Underbar"), (33, "UpperLimit"),
    (0x90000000, "PlainText"),
];
pub fn item_type(code: u16) -> String {
    match code {
        0..=99 => format!("Numeric({code})"),
        100 => "DueToday".into(),
        101 => "DueTomorrow".into(),
        102 => "DueThisWeek".into(),
        103 => "DueNextWeek".into(),
        104 => "NoDueDate".into(),
        105 => "CustomDueDate".into(),
        _ => "Unknown".into(),
    }
}
pub fn para_align(code: u8) -> &'static str {
    match code {
        0 => "Left",
        1 => "Center",
        2 => "Right",
        _ => "Unknown",
    }
}
/// None: invalid code; Some(N): reported as absent.
pub fn layout_align(v: u32) -> Option<V> {
    if v >> 31 == 1 {
        return Some(V::N);
    }
    let h = ["Unknown", "Left", "Center", "Right", "BiDiNormal", "BiDiReverse"].get((v & 7) as usize)?;
    Some(m(
        "align",
        vec![
            ("h", s(h)),
            ("hm", s(["Right", "Left"][(v >> 3 & 1) as usize])),
            ("v", s(["Bottom", "Top"][(v >> 16 & 1) as usize])),
            ("vm", s(["Bottom", "Top"][(v >> 19 & 1) as usize])),
        ],
    ))
}
pub fn color_ref(v: u32) -> Option<V> {
    let b = v.to_le_bytes();
    match b[3] {
        0xff => Some(s("Auto")),
        0 => Some(V::Y(b[..3].to_vec())),
        _ => None,
    }
}
pub fn color(v: u32) -> V {
    let b = v.to_le_bytes();
    V::Y(vec![b[0], b[1], b[2], 255 - b[3]])
}
pub fn utf16(x: &str) -> Vec<u8> {
    x.encode_utf16().flat_map(|c| c.to_le_bytes()).collect()
}
/// Kinds of lists that may be made unusually long.
pub mod long {
    pub const CONTENTS: u8 = 1;
    pub const ITEMS: u8 = 2;
    pub const ELEM_CONTENTS: u8 = 3;
    pub const MARKERS: u8 = 4;
    pub const RUNS: u8 = 5;
    pub const TAGS: u8 = 6;
    pub const ROWS: u8 = 7;
    pub const CELLS: u8 = 8;
    pub const STROKES: u8 = 9;
    pub const POINTS: u8 = 10;
    pub const INDENTS: u8 = 11;
    pub const TEXT: u8 = 12;
    pub const LATIN: u8 = 13;
    pub const PAGES: u8 = 14;
    pub const SERIES: u8 = 15;
    pub const EMBEDS: u8 = 16;
    pub const DEEP: u8 = 17;
    pub const TITLE: u8 = 18;
    pub const DIMS: u8 = 19;
    pub const NAME: u8 = 20;
    pub const FORMAT: u8 = 21;
    pub const CELL_ITEMS: u8 = 22;
    pub const EMBEDDED: u8 = 23;
    pub const MATH: u8 = 24;
    pub const LAST: u8 = 24;
    pub const IN_TEXT: &[u8] = &[RUNS, TEXT, LATIN, EMBEDDED, MATH];
    pub const IN_TABLE: &[u8] = &[ROWS, CELLS, CELL_ITEMS];
    pub const IN_INK: &[u8] = &[STROKES, POINTS, DIMS];
    pub const IN_IMAGE: &[u8] = &[EMBEDS, NAME];
    pub const IN_ELEMENT: &[u8] = &[
        ELEM_CONTENTS, MARKERS, FORMAT, TAGS, RUNS, TEXT, LATIN, EMBEDDED, MATH, ROWS, CELLS, CELL_ITEMS, STROKES, POINTS, DIMS, EMBEDS, NAME,
    ];
    pub const IN_OUTLINE: &[u8] = &[
        ITEMS, INDENTS, DEEP, ELEM_CONTENTS, MARKERS, FORMAT, TAGS, RUNS, TEXT, LATIN, EMBEDDED, MATH, ROWS, CELLS, CELL_ITEMS, STROKES, POINTS,
        DIMS, EMBEDS, NAME,
    ];
    pub const IN_PAGE: &[u8] = &[
        CONTENTS, TITLE, ITEMS, INDENTS, DEEP, ELEM_CONTENTS, MARKERS, FORMAT, TAGS, RUNS, TEXT, LATIN, EMBEDDED, MATH, ROWS, CELLS, CELL_ITEMS,
        STROKES, POINTS, DIMS, EMBEDS, NAME,
    ];
}
pub fn jcid_unknown_content() -> [u32; 12] {
    // known kinds that are not supported as page or element content
    [
        jc::TITLE, jc::LIST, jc::GROUP, jc::ELEMENT, jc::STYLE, jc::AUTHOR, jc::TAGDEF, jc::ROW, jc::CELL, jc::PAGE_MANIFEST, jc::REVMETA,
        jc::IFRAME,
    ]
}

#[derive(Clone, Debug)]
pub struct GenCfg {
    pub pages: usize,
    pub series: usize,
    /// number of content objects, roughly
    pub budget: i32,
    pub fan: usize,
    pub depth: u32,
    /// page level: outline, image, file, ink, unknown
    pub w_page: [u64; 5],
    /// element level: text, table, image, file, ink, unknown
    pub w_elem: [u64; 6],
    /// outline items: element, group
    pub w_item: [u64; 2],
    /// /16
    pub tags: u64,
    pub lists: u64,
    pub math: u64,
    pub embedded: u64,
    pub opt: u64,
    pub noise: u64,
    pub share: u64,
    pub title: u64,
    pub max_text: usize,
    pub max_runs: usize,
    pub reuse_ids: bool,
    /// occasional large blobs
    pub big_blobs: bool,
    pub section_name: bool,
    /// /256: one list of the document is unusually long
    pub stretch: u64,
    /// the kinds of lists it may be (empty: any)
    pub long: &'static [u8],
}
impl GenCfg {
    pub fn base() -> GenCfg {
        GenCfg {
            pages: 3,
            series: 2,
            budget: 40,
            fan: 4,
            depth: 4,
            w_page: [8, 2, 1, 1, 1],
            w_elem: [10, 2, 2, 1, 1, 1],
            w_item: [4, 1],
            tags: 3,
            lists: 3,
            math: 2,
            embedded: 2,
            opt: 6,
            noise: 4,
            share: 6,
            title: 8,
            max_text: 12,
            max_runs: 4,
            reuse_ids: true,
            big_blobs: false,
            section_name: true,
            stretch: 0,
            long: &[],
        }
    }
}

pub struct Node {
    pub jcid: u32,
    pub props: Vec<(u32, PV)>,
    pub out: Vec<(&'static str, V)>,
    pub blob: Option<Ex>,
}
pub struct G<'a> {
    pub t: &'a mut Tape,
    pub c: &'a GenCfg,
    pub objs: Vec<Obj>,
    pub blobs: &'a mut BTreeMap<Ex, Vec<u8>>,
    bases: Vec<[u8; 16]>,
    n: u32,
    step: u32,
    budget: i32,
    /// how many more times a list may name one of its objects again
    repeats: u32,
    /// items still to be nested one inside the other
    chain: u32,
    styles: Vec<(Ex, V)>,
    tagdefs: Vec<(Ex, V)>,
    authors: Vec<Ex>,
    pictures: Vec<(Ex, V, V)>,
    files: Vec<(Ex, V)>,
    pens: Vec<(Ex, Pen)>,
    inks: Vec<(Ex, Vec<RawStroke>, Option<[u32; 4]>)>,
}
#[derive(Clone, Debug)]
struct Pen {
    dims: usize,
    x: usize,
    y: usize,
    v: [V; 5],
}
#[derive(Clone, Debug)]
struct RawStroke {
    pts: Vec<(i64, i64)>,
    pen: Pen,
}

impl Node {
    pub fn new(jcid: u32) -> Node {
        Node { jcid, props: vec![], out: vec![], blob: None }
    }
    pub fn p(&mut self, id: u32, v: PV) -> &mut Node {
        self.props.push((id, v));
        self
    }
    pub fn o(&mut self, k: &'static str, v: V) -> &mut Node {
        self.out.push((k, v));
        self
    }
}

impl<'a> G<'a> {
    pub fn new(t: &'a mut Tape, c: &'a GenCfg, blobs: &'a mut BTreeMap<Ex, Vec<u8>>, shared_base: [u8; 16]) -> G<'a> {
        let mut bases = vec![if c.reuse_ids && !t.chance(1, 4) { shared_base } else { t.guid() }];
        if t.chance(1, 3) {
            bases.push(t.guid())
        }
        let step = 1 + t.weighted(&[3, 1, 1]) as u32 * 5000;
        G {
            t,
            c,
            objs: vec![],
            blobs,
            bases,
            n: 0,
            step,
            budget: c.budget,
            repeats: 3,
            chain: 0,
            styles: vec![],
            tagdefs: vec![],
            authors: vec![],
            pictures: vec![],
            files: vec![],
            pens: vec![],
            inks: vec![],
        }
    }
    pub fn id(&mut self) -> Ex {
        self.n += self.step;
        let g = self.bases[self.t.n(self.bases.len())];
        Ex { g, v: self.n }
    }
    pub fn add(&mut self, n: Node) -> Ex {
        let id = self.id();
        self.add_at(id, n);
        id
    }
    fn add_at(&mut self, id: Ex, mut n: Node) {
        // drop duplicated ids (noise must not shadow a real property)
        let mut seen = std::collections::HashSet::new();
        n.props.retain(|(i, _)| seen.insert(i & 0x3ff_ffff));
        self.objs.push(Obj { id, jcid: n.jcid, props: n.props, blob: n.blob, fixed: false, fault: 0 });
    }
    fn opt(&mut self) -> bool {
        self.t.chance(self.c.opt, 16)
    }
    fn p16(&mut self, x: u64) -> bool {
        self.t.chance(x, 16)
    }
    // ---- attribute helpers: store and expect -------------------------------
    fn f(&mut self, n: &mut Node, id: u32, k: &'static str) {
        let v = if self.opt() {
            let x = self.t.f32v();
            n.p(id, PV::U32(x.to_bits()));
            f(x)
        } else {
            V::N
        };
        n.o(k, v);
    }
    fn freq(&mut self, n: &mut Node, id: u32, k: &'static str) {
        let x = self.t.f32v();
        n.p(id, PV::U32(x.to_bits())).o(k, f(x));
    }
    fn b(&mut self, n: &mut Node, id: u32, k: &'static str, default: bool) {
        let v = if self.opt() {
            let x = self.t.flip() != default;
            n.p(id, PV::Bool(x));
            x
        } else {
            default
        };
        n.o(k, V::B(v));
    }
    fn u16(&mut self, n: &mut Node, id: u32, k: &'static str) {
        let v = if self.opt() {
            let x = self.t.u16b();
            n.p(id, PV::U16(x));
            u(x)
        } else {
            V::N
        };
        n.o(k, v);
    }
    fn u8(&mut self, n: &mut Node, id: u32, k: &'static str) {
        let v = if self.opt() {
            let x = self.t.u8b();
            n.p(id, PV::U8(x));
            u(x)
        } else {
            V::N
        };
        n.o(k, v);
    }
    fn u32(&mut self, n: &mut Node, id: u32, k: &'static str) {
        let v = if self.opt() {
            let x = self.t.u32b();
            n.p(id, PV::U32(x));
            u(x)
        } else {
            V::N
        };
        n.o(k, v);
    }
    /// Stored spelling of a text: bare, terminated, or terminated with slack.
    pub fn stored_text(&mut self, x: &str) -> PV {
        let mut b = utf16(x);
        match self.t.weighted(&[3, 3, 1]) {
            0 => {}
            1 => b.extend([0, 0]),
            _ => {
                b.extend([0, 0]);
                let n = self.t.n(6) * 2;
                let junk = self.t.bytes(n);
                b.extend(junk);
            }
        }
        PV::Vec(b)
    }
    pub fn text(&mut self) -> String {
        self.t.text(self.c.max_text)
    }
    fn s(&mut self, n: &mut Node, id: u32, k: &'static str) {
        let v = if self.opt() {
            let x = self.text();
            let p = self.stored_text(&x);
            n.p(id, p);
            s(x)
        } else {
            V::N
        };
        n.o(k, v);
    }
    fn sreq(&mut self, n: &mut Node, id: u32, k: &'static str) {
        let x = self.text();
        let p = self.stored_text(&x);
        n.p(id, p).o(k, s(x));
    }
    /// Red, green and blue: any, or black, white and the like.
    fn hue(&mut self) -> u32 {
        match self.t.n(4) {
            0 => (0..3).fold(0, |a, _| a << 8 | self.t.pick(&[0u32, 0xff, 0xff, 0x80])),
            1 => self.t.pick(&[0xff_ffffu32, 0, 0xff, 0xff00, 0xff_0000, 0xffff, 0xff_ff00]),
            _ => self.t.below(1 << 24) as u32,
        }
    }
    fn cref(&mut self, n: &mut Node, id: u32, k: &'static str) {
        let v = if self.opt() {
            let x = if self.t.chance(1, 3) { 0xff00_0000 | self.hue() } else { self.hue() };
            n.p(id, PV::U32(x));
            color_ref(x).unwrap()
        } else {
            V::N
        };
        n.o(k, v);
    }
    fn color(&mut self, n: &mut Node, id: u32, k: &'static str) {
        let v = if self.opt() {
            let x = match self.t.n(3) {
                0 => 0xff00_0000 | self.hue(),
                1 => self.hue(),
                _ => self.t.raw(),
            };
            n.p(id, PV::U32(x));
            color(x)
        } else {
            V::N
        };
        n.o(k, v);
    }
    fn align(&mut self, n: &mut Node, id: u32, k: &'static str) {
        let v = if self.opt() {
            let h = self.t.below(6) as u32;
            let other = match self.t.n(3) {
                0 => 0,
                1 => (self.t.below(2) as u32) << 3 | (self.t.below(2) as u32) << 16 | (self.t.below(2) as u32) << 19,
                _ => self.t.raw() & !7,
            };
            n.p(id, PV::U32(h | other));
            layout_align(h | other).unwrap()
        } else {
            V::N
        };
        n.o(k, v);
    }
    fn aligns(&mut self, n: &mut Node) {
        self.align(n, pid::ALIGN_PARENT, "align_parent");
        self.align(n, pid::ALIGN_SELF, "align_self");
    }
    fn offsets(&mut self, n: &mut Node) {
        self.f(n, pid::OFFSET_H, "offset_h");
        self.f(n, pid::OFFSET_V, "offset_v");
    }
    fn time(&mut self, n: &mut Node) {
        let x = self.t.u32b();
        n.p(pid::LAST_MODIFIED, PV::U32(x));
    }
    /// Properties that are stored but not reported (some are decoded by the
    /// parser all the same, so their types must be right).
    fn noise(&mut self, n: &mut Node, bools: &[u32], words: &[u32], texts: &[u32], objs: &[u32]) {
        if !self.p16(self.c.noise) {
            return;
        }
        for &i in bools {
            if self.t.flip() {
                let b = self.t.flip();
                n.p(i, PV::Bool(b));
            }
        }
        for &i in words {
            if self.t.flip() {
                let v = self.t.u32b();
                n.p(i, PV::U32(v));
            }
        }
        for &i in texts {
            if self.t.flip() {
                let x = self.text();
                let v = self.stored_text(&x);
                n.p(i, v);
            }
        }
        for &i in objs {
            if self.t.flip() && !self.objs.is_empty() {
                let k = self.t.n(self.objs.len());
                let x = self.objs[k].id;
                n.p(i, PV::Obj(x));
            }
        }
        if self.t.chance(1, 4) {
            let ids: Vec<Ex> = self.objs.iter().map(|o| o.id).collect();
            let v = junk_value(self.t, 2, &ids, &[]);
            n.p(0x3900 + self.t.below(16) as u32, v);
        }
    }
    fn spend(&mut self) -> bool {
        self.budget -= 1;
        self.budget >= 0
    }
    /// Sometimes names an object of a list a second time.
    fn again<T: Clone>(&mut self, ids: &mut Vec<Ex>, vs: &mut Vec<T>) {
        if self.repeats == 0 || ids.is_empty() || ids.len() > 50 || self.t.stretched > 0 || !self.t.chance(1, 24) {
            return;
        }
        self.repeats -= 1;
        let from = self.t.n(ids.len());
        let to = if self.t.flip() { from } else { self.t.n(ids.len() + 1) };
        ids.insert(to, ids[from]);
        vs.insert(to, vs[from].clone());
    }
    fn fan(&mut self) -> usize {
        self.t.count(self.c.fan)
    }
    /// The length of a list, and whether its elements are outside the budget:
    /// long if a list of this kind is to be; at least one if something inside
    /// it is to be.
    fn len(&mut self, kind: u8, inside: &[u8], max: usize) -> (usize, bool) {
        let k = self.fan();
        match self.t.grant(kind, max) {
            Some(k) => (k, true),
            None if self.t.wants(inside) => (k.max(1), true),
            None => (k, false),
        }
    }
    /// Varied text of about `n` characters from few choices.
    fn long_text(&mut self, n: usize) -> String {
        let part: Vec<char> = self.t.text(40).chars().chain("ab".chars()).collect();
        let b = self.t.bytes(n);
        b.iter().map(|x| part[*x as usize % part.len()]).collect()
    }
    // ---- page ---------------------------------------------------------------
    pub fn page(&mut self) -> (Vec<(u32, Ex)>, V) {
        let mut n = Node::new(jc::PAGE);
        let (k, free) = self.len(long::CONTENTS, long::IN_PAGE, 66000);
        let mut kids = vec![];
        let mut vs = vec![];
        for _ in 0..k {
            if !self.spend() && !free {
                break;
            }
            let choice = self.t.weighted(&self.c.w_page.clone());
            let choice = match () {
                _ if self.t.wants(long::IN_INK) && self.t.flip() => 3,
                _ if self.t.wants(long::IN_IMAGE) && self.t.flip() => 1,
                _ if self.t.wants(&[long::TAGS]) => self.t.pick(&[0, 1, 2]),
                _ if self.t.wants(long::IN_OUTLINE) => 0,
                _ => choice,
            };
            let (id, v) = match choice {
                0 => self.outline(),
                1 => self.image(),
                2 => self.file(),
                3 => self.ink(),
                _ => self.unknown(),
            };
            kids.push(id);
            vs.push(v);
        }
        self.again(&mut kids, &mut vs);
        if !kids.is_empty() || self.t.flip() {
            n.p(pid::ELEMENT_CHILDREN, PV::Objs(kids));
        }
        n.o("contents", V::L(vs));
        let title = if self.p16(self.c.title) || self.t.wants(&[long::TITLE]) {
            let (id, v) = self.title();
            let mut ids = vec![id];
            if self.t.chance(1, 8) {
                // only the first structure element is the title
                let (x, _) = self.unknown();
                ids.push(x);
            }
            n.p(pid::STRUCTURE_CHILDREN, PV::Objs(ids));
            v
        } else {
            V::N
        };
        n.o("title", title);
        self.s(&mut n, pid::AUTHOR, "author");
        self.f(&mut n, pid::PAGE_HEIGHT, "height");
        if self.t.chance(1, 6) {
            let k = self.t.below(16) as u32;
            n.p(pid::PAGE_SIZE, PV::U32(k));
        }
        self.noise(
            &mut n,
            &[0x08001C8E, 0x08001C92],
            &[0x14001C01, 0x14001C4D, 0x14001C4E, 0x14001D0F, 0x14001D10, 0x14001C4F, 0x14001C4C, pid::LAST_MODIFIED],
            &[0x1C001D3C],
            &[],
        );
        // metadata
        let mut md = Node::new(jc::PAGE_META);
        let g = self.t.guid();
        md.p(pid::ENTITY_GUID, PV::Vec(g.to_vec()));
        let x = self.text();
        let tv = self.stored_text(&x);
        md.p(pid::CACHED_TITLE, tv);
        let tm = self.t.u64b();
        md.p(pid::TOPOLOGY_TIME, PV::U64(tm));
        let level = if self.t.chance(3, 4) {
            let v = if self.t.chance(1, 6) { self.t.u32b() } else { self.t.below(6) as u32 };
            md.p(pid::PAGE_LEVEL, PV::U32(v));
            v as i32
        } else {
            0
        };
        n.o("level", V::I(level as i64));
        self.noise(&mut md, &[], &[pid::SCHEMA_READ, pid::SCHEMA_WRITE], &[], &[]);
        let out = m("page", std::mem::take(&mut n.out));
        let page = self.add(n);
        let mut man = Node::new(jc::PAGE_MANIFEST);
        man.p(pid::CONTENT_CHILDREN, PV::Objs(vec![page]));
        self.noise(&mut man, &[], &[], &[], &[0x20003950]);
        let man = self.add(man);
        let md = self.add(md);
        let mut roots = vec![(1, man), (2, md)];
        if self.t.chance(1, 3) {
            let mut rm = Node::new(jc::REVMETA);
            let v = self.t.u64b();
            rm.p(0x18001D77, PV::U64(v));
            let rm = self.add(rm);
            roots.push((4, rm));
        }
        self.t.shuffle(&mut roots);
        (roots, out)
    }
    fn title(&mut self) -> (Ex, V) {
        let mut n = Node::new(jc::TITLE);
        self.time(&mut n);
        let k = self.t.weighted(&[6, 1, 1]);
        let cnt = self.t.grant(long::TITLE, 260).unwrap_or([1, 0, 2][k]);
        let (mut ids, mut vs) = (vec![], vec![]);
        for _ in 0..cnt {
            let (i, v) = self.outline();
            ids.push(i);
            vs.push(v);
        }
        self.again(&mut ids, &mut vs);
        n.p(pid::ELEMENT_CHILDREN, PV::Objs(ids));
        n.o("contents", V::L(vs));
        self.freq(&mut n, pid::OFFSET_H, "offset_h");
        self.freq(&mut n, pid::OFFSET_V, "offset_v");
        self.aligns(&mut n);
        let out = m("title", std::mem::take(&mut n.out));
        (self.add(n), out)
    }
    fn unknown(&mut self) -> (Ex, V) {
        let j = self.t.pick(&jcid_unknown_content());
        let mut n = Node::new(j);
        let ids: Vec<Ex> = self.objs.iter().map(|o| o.id).collect();
        let k = self.t.n(4);
        for i in 0..k {
            let v = junk_value(self.t, 1, &ids, &[]);
            n.p(0x3a00 + i as u32, v);
        }
        (self.add(n), s("Unknown"))
    }
    // ---- outlines -------------------------------------------------------------
    fn child_level(&mut self, n: &mut Node) {
        let v = self.t.u8b();
        n.p(pid::CHILD_LEVEL, PV::U8(v)).o("child_level", u(v));
    }
    fn indents(&mut self, n: &mut Node) {
        let k = self.t.count(6);
        let k = self.t.grant(long::INDENTS, 255).unwrap_or(k);
        let mut b = vec![k as u8];
        let pad = self.t.bytes(3);
        b.extend(pad);
        let mut vs = vec![];
        for _ in 0..k {
            let x = self.t.f32v();
            b.extend(x.to_bits().to_le_bytes());
            vs.push(f(x));
        }
        n.p(pid::INDENTS, PV::Vec(b)).o("indents", V::L(vs));
    }
    pub fn outline(&mut self) -> (Ex, V) {
        let mut n = Node::new(jc::OUTLINE);
        self.time(&mut n);
        self.items(&mut n, self.c.depth);
        self.child_level(&mut n);
        self.f(&mut n, pid::LIST_SPACING, "list_spacing");
        self.indents(&mut n);
        self.aligns(&mut n);
        self.f(&mut n, pid::MAX_H, "max_h");
        self.f(&mut n, pid::MAX_W, "max_w");
        self.f(&mut n, 0x14001CDB, "reserved_w");
        self.f(&mut n, 0x14001CEC, "min_w");
        self.b(&mut n, 0x08001CBD, "size_by_user", false);
        self.offsets(&mut n);
        self.noise(
            &mut n,
            &[0x08001CFF, 0x08001D0C, 0x08001CB5, 0x08001CB2, 0x08001CB4, 0x08001CDE, 0x08001CF9, 0x08001C00],
            &[0x14001CF1],
            &[],
            &[],
        );
        let out = m("outline", std::mem::take(&mut n.out));
        (self.add(n), out)
    }
    fn items(&mut self, n: &mut Node, depth: u32) {
        let (k, free) = if depth == 0 { (0, false) } else { self.len(long::ITEMS, long::IN_OUTLINE, 66000) };
        let k = if n.jcid == jc::ELEMENT && self.t.wants(long::IN_ELEMENT) { 0 } else { k };
        let mut depth = depth;
        if depth > 0 && self.t.stretch == long::DEEP {
            // a chain of items, one inside the other
            depth = self.t.grant(long::DEEP, 45).unwrap() as u32;
            self.chain = depth;
        }
        let k = if self.chain > 0 && depth > 0 { k.max(1) } else { k };
        let (mut ids, mut vs) = (vec![], vec![]);
        for _ in 0..k {
            let chained = self.chain > 0;
            self.chain = self.chain.saturating_sub(1);
            if !self.spend() && !free && !chained {
                break;
            }
            let (i, v) = if self.t.weighted(&self.c.w_item.clone()) == 0 || (self.t.wants(long::IN_ELEMENT) && depth < 2) {
                self.element(depth - 1)
            } else {
                let mut g = Node::new(jc::GROUP);
                self.time(&mut g);
                self.child_level(&mut g);
                self.items(&mut g, depth - 1);
                let out = m("group", std::mem::take(&mut g.out));
                (self.add(g), out)
            };
            ids.push(i);
            vs.push(v);
        }
        self.again(&mut ids, &mut vs);
        if !ids.is_empty() || self.t.flip() {
            n.p(pid::ELEMENT_CHILDREN, PV::Objs(ids));
        }
        n.o("items", V::L(vs));
    }
    fn author(&mut self) -> Ex {
        if self.authors.is_empty() || self.t.chance(1, 4) {
            let mut n = Node::new(jc::AUTHOR);
            let x = self.text();
            let v = self.stored_text(&x);
            n.p(pid::AUTHOR, v);
            let id = self.add(n);
            self.authors.push(id);
        }
        let k = self.t.n(self.authors.len());
        self.authors[k]
    }
    pub fn element(&mut self, depth: u32) -> (Ex, V) {
        let mut n = Node::new(jc::ELEMENT);
        self.time(&mut n);
        let v = self.t.u32b();
        n.p(pid::CREATION_TIME, PV::U32(v));
        let a = self.author();
        let b = self.author();
        n.p(pid::AUTHOR_ORIGINAL, PV::Obj(a));
        n.p(pid::AUTHOR_RECENT, PV::Obj(b));
        self.child_level(&mut n);
        self.f(&mut n, pid::LIST_SPACING, "list_spacing");
        // contents
        let k = self.t.weighted(&[8, 1, 1, 1]);
        let k = [1, 0, 2, 3][k];
        let g = self.t.grant(long::ELEM_CONTENTS, 66000);
        let k = g.unwrap_or(if self.t.wants(long::IN_ELEMENT) { k.max(1) } else { k });
        let (mut ids, mut vs) = (vec![], vec![]);
        for _ in 0..k {
            if !self.spend() && g.is_none() && !self.t.wants(long::IN_ELEMENT) {
                break;
            }
            let mut w = self.c.w_elem;
            if depth == 0 {
                w[1] = 0;
            }
            let choice = self.t.weighted(&w);
            let choice = match () {
                _ if self.t.wants(&[long::TAGS]) => self.t.pick(&[0, 1, 2, 3]),
                _ if self.t.wants(long::IN_TEXT) => 0,
                _ if self.t.wants(long::IN_TABLE) => 1,
                _ if self.t.wants(long::IN_IMAGE) => 2,
                _ if self.t.wants(long::IN_INK) => 4,
                _ => choice,
            };
            let choice = if choice == 1 && depth == 0 { 0 } else { choice };
            let (i, v) = match choice {
                0 => self.rich_text(),
                1 => self.table(depth - 1),
                2 => self.image(),
                3 => self.file(),
                4 => self.ink(),
                _ => self.unknown(),
            };
            ids.push(i);
            vs.push(v);
        }
        self.again(&mut ids, &mut vs);
        if !ids.is_empty() || self.t.flip() {
            n.p(pid::CONTENT_CHILDREN, PV::Objs(ids));
        }
        n.o("contents", V::L(vs));
        // list markers
        let k = if self.p16(self.c.lists) { 1 + self.t.n(2) } else { 0 };
        let k = self.t.grant(long::MARKERS, 66000).unwrap_or(if self.t.wants(&[long::FORMAT]) { k.max(1) } else { k });
        let (mut ids, mut vs) = (vec![], vec![]);
        for _ in 0..k {
            let (i, v) = self.list();
            ids.push(i);
            vs.push(v);
        }
        self.again(&mut ids, &mut vs);
        if k > 0 || self.t.chance(1, 4) {
            n.p(pid::LIST_NODES, PV::Objs(ids));
        }
        n.o("lists", V::L(vs));
        self.items(&mut n, depth);
        self.noise(&mut n, &[0x08001C34, 0x08001D0C, 0x08001CB2, 0x08001CB4], &[], &[], &[]);
        let out = m("element", std::mem::take(&mut n.out));
        (self.add(n), out)
    }
    fn list(&mut self) -> (Ex, V) {
        let mut n = Node::new(jc::LIST);
        self.time(&mut n);
        self.s(&mut n, 0x1C001C52, "list_font");
        let v = if self.opt() {
            let x = self.t.u32b();
            n.p(0x14001CB7, PV::U32(x));
            V::I(x as i32 as i64)
        } else {
            V::N
        };
        n.o("restart", v);
        let fmt = {
            let mut x = match self.t.grant(long::FORMAT, 6000) {
                Some(k) => self.long_text(k * 8),
                None => self.t.text(5),
            };
            // real formats contain U+FFFD followed by a numbering code
            if self.t.flip() {
                x.insert(0, '\u{fffd}');
            }
            if self.t.chance(1, 6) {
                x.push('\0');
            }
            x
        };
        let mut b = ((fmt.encode_utf16().count()) as u16).to_le_bytes().to_vec();
        b.extend(utf16(&fmt));
        n.p(pid::LIST_FORMAT, PV::Vec(b)).o("format", s(fmt));
        self.b(&mut n, pid::BOLD, "bold", false);
        self.b(&mut n, pid::ITALIC, "italic", false);
        self.s(&mut n, pid::FONT, "font");
        self.u16(&mut n, pid::FONT_SIZE, "font_size");
        self.cref(&mut n, pid::FONT_COLOR, "font_color");
        self.noise(&mut n, &[], &[0x14001C3B], &[], &[]);
        let out = m("list", std::mem::take(&mut n.out));
        (self.add(n), out)
    }
    // ---- text -------------------------------------------------------------------
    /// kind: 0 plain, 1 math, 2 ink word, 3 ink space, 4 ink line break
    fn style(&mut self, kind: u8) -> (Ex, V) {
        if kind == 0 && !self.styles.is_empty() && self.p16(self.c.share) {
            let k = self.t.n(self.styles.len());
            return self.styles[k].clone();
        }
        let mut n = Node::new(jc::STYLE);
        let v = if self.opt() {
            let (c, name) = self.t.pick(&CHARSETS);
            n.p(pid::CHARSET, PV::U8(c));
            s(name)
        } else {
            V::N
        };
        n.o("charset", v);
        self.b(&mut n, pid::BOLD, "bold", false);
        self.b(&mut n, pid::ITALIC, "italic", false);
        self.b(&mut n, 0x08001C06, "underline", false);
        self.b(&mut n, 0x08001C07, "strikethrough", false);
        self.b(&mut n, 0x08001C08, "superscript", false);
        self.b(&mut n, 0x08001C09, "subscript", false);
        self.s(&mut n, pid::FONT, "font");
        self.u16(&mut n, pid::FONT_SIZE, "font_size");
        self.cref(&mut n, pid::FONT_COLOR, "font_color");
        self.cref(&mut n, pid::HIGHLIGHT, "highlight");
        self.s(&mut n, 0x1C00348A, "next_style");
        self.s(&mut n, 0x1C00345A, "style_id");
        let v = if self.opt() {
            let c = self.t.below(5) as u8;
            n.p(pid::PARA_ALIGN, PV::U8(c));
            s(para_align(c))
        } else {
            V::N
        };
        n.o("alignment", v);
        self.f(&mut n, 0x1400342E, "space_before");
        self.f(&mut n, 0x1400342F, "space_after");
        self.f(&mut n, 0x14003430, "line_spacing");
        self.u32(&mut n, 0x14001C3B, "language");
        if kind == 1 {
            n.p(pid::MATH_FORMAT, PV::Bool(true)).o("math", V::B(true));
        } else {
            if self.t.chance(1, 4) {
                n.p(pid::MATH_FORMAT, PV::Bool(false));
            }
            n.o("math", V::B(false));
        }
        self.b(&mut n, 0x08001E14, "hyperlink", false);
        if kind >= 2 {
            n.p(pid::IS_EMBEDDED, PV::Bool(true));
            if kind == 3 {
                n.p(pid::EMB_TYPE, PV::U32(0x20026));
            }
            if kind == 4 {
                n.p(pid::EMB_TYPE, PV::U32(0x20027));
            }
        } else if self.t.chance(1, 4) {
            n.p(pid::IS_EMBEDDED, PV::Bool(false));
        }
        self.noise(&mut n, &[0x08001E19, 0x08001E16], &[], &[], &[]);
        let out = m("style", std::mem::take(&mut n.out));
        let id = self.add(n);
        if kind == 0 {
            self.styles.push((id, out.clone()));
        }
        (id, out)
    }
    fn math_set(&mut self) -> (Vec<(u32, PV)>, V) {
        let mut n = Node::new(0);
        let ty = if self.t.chance(7, 8) {
            let (c, name) = self.t.pick(&MATH_TYPES);
            n.p(pid::MATH_TYPE, PV::U32(c));
            name
        } else {
            "SimpleText"
        };
        n.o("type", s(ty));
        let v = if self.t.chance(3, 4) {
            let x = self.t.u32b();
            n.p(pid::MATH_COUNT, PV::U32(x));
            x
        } else {
            0
        };
        n.o("args", u(v));
        self.u8(&mut n, pid::MATH_COL, "column");
        self.u8(&mut n, pid::MATH_ALIGN, "align");
        for (i, k) in ["char", "char1", "char2"].into_iter().enumerate() {
            let v = if self.t.flip() {
                let mut c = match self.t.n(3) {
                    0 => self.t.range(0x20, 0x7e),
                    1 => self.t.range(0x2200, 0x22ff),
                    _ => self.t.below(0x10000),
                } as u16;
                if (0xd800..0xe000).contains(&c) {
                    c -= 0x1000;
                }
                n.p(pid::MATH_CHAR + i as u32, PV::U16(c));
                s(char::from_u32(c as u32).unwrap().to_string())
            } else {
                V::N
            };
            n.o(k, v);
        }
        self.t.shuffle(&mut n.props);
        (n.props, m("math", n.out))
    }
    pub fn rich_text(&mut self) -> (Ex, V) {
        let mut n = Node::new(jc::RICHTEXT);
        self.time(&mut n);
        let embedded = self.p16(self.c.embedded) || self.t.wants(&[long::EMBEDDED]);
        let math = !embedded && (self.p16(self.c.math) || self.t.wants(&[long::MATH]));
        // text
        let text = if embedded {
            let x = if self.t.flip() { Some("\u{fffc}".repeat(1 + self.t.n(3))) } else { None };
            if let Some(x) = &x {
                let p = self.stored_text(x);
                n.p(pid::TEXT, p);
            }
            String::new()
        } else {
            let choice = self.t.weighted(&[8, 3, 1, 1]);
            let choice = match () {
                _ if self.t.wants(&[long::TEXT]) => 0,
                _ if self.t.wants(&[long::LATIN]) => 1,
                _ => choice,
            };
            match choice {
                0 => {
                    let x = match self.t.grant(long::TEXT, 6000) {
                        Some(k) => self.long_text(k * 100),
                        None => self.text(),
                    };
                    let p = self.stored_text(&x);
                    n.p(pid::TEXT, p);
                    x
                }
                1 => {
                    let k = self.t.count(self.c.max_text);
                    let full = self.t.flip();
                    let k = self.t.grant(long::LATIN, 6000).map_or(k, |k| k * 100);
                    let b: Vec<u8> = (0..k).map(|_| if full { self.t.range(1, 255) as u8 } else { self.t.range(0x20, 0x7e) as u8 }).collect();
                    n.p(pid::ASCII, PV::Vec(b.clone()));
                    b.iter().map(|c| *c as char).collect()
                }
                2 => {
                    // both forms: the Unicode one counts
                    let x = self.text();
                    let p = self.stored_text(&x);
                    n.p(pid::TEXT, p);
                    let k = self.t.n(5);
                    let b = self.t.bytes(k);
                    n.p(pid::ASCII, PV::Vec(b));
                    x
                }
                _ => String::new(),
            }
        };
        n.o("text", s(&text));
        // runs
        let runs = if embedded || math { 1 + self.t.n(self.c.max_runs + 1) } else { self.t.count(self.c.max_runs) };
        let runs = match () {
            _ if embedded => self.t.grant(long::EMBEDDED, 300).unwrap_or(runs),
            _ if math => self.t.grant(long::MATH, 66000).unwrap_or(runs),
            _ => self.t.grant(long::RUNS, 66000).unwrap_or(runs),
        };
        let kinds: Vec<u8> = (0..runs)
            .map(|i| {
                if embedded {
                    // at least one ink word, so that the ink objects list is used
                    if i == 0 { [2u8, 3, 4][self.t.weighted(&[4, 1, 1])] } else { [2u8, 3, 4, 0, 1][self.t.weighted(&[4, 2, 2, 1, 1])] }
                } else if math {
                    if self.t.chance(3, 4) { 1 } else { 0 }
                } else {
                    0
                }
            })
            .collect();
        let with_sets = embedded || math || self.t.chance(1, 6);
        let mut set_n = if with_sets { runs } else { 0 };
        if math && !embedded && self.t.chance(1, 8) {
            set_n = self.t.n(runs + 1);
        }
        let (mut styles, mut style_vs, mut sets, mut embs, mut maths, mut inks) = (vec![], vec![], vec![], vec![], vec![], vec![]);
        for (i, &k) in kinds.iter().enumerate() {
            let (id, v) = self.style(k);
            styles.push(id);
            style_vs.push(v);
            if i >= set_n {
                continue;
            }
            let mut set: Vec<(u32, PV)> = vec![];
            match k {
                0 | 1 => {
                    if k == 1 || self.t.chance(1, 4) {
                        let (p, v) = self.math_set();
                        set = p;
                        if k == 1 {
                            maths.push(v);
                        }
                    }
                }
                2 => {
                    let (id, strokes, bb) = self.ink_data();
                    inks.push(id);
                    let mut e = Node::new(0);
                    let all = self.t.chance(3, 4);
                    let names: [(u32, &'static str); 4] =
                        [(0x1400349E, "x"), (0x1400349F, "y"), (0x140034A1, "height"), (0x140034A0, "width")];
                    let mut present = 0;
                    for (p, nm) in names {
                        if all || self.t.flip() {
                            self.freq(&mut e, p, nm);
                            present += 1;
                        }
                    }
                    let display = if present == 4 { m("bbox", std::mem::take(&mut e.out)) } else { V::N };
                    e.out.clear();
                    self.f(&mut e, 0x140034A2, "offset_h");
                    self.f(&mut e, 0x140034A3, "offset_v");
                    let mut out = std::mem::take(&mut e.out);
                    out.push(("strokes", strokes_v(&strokes, 1.0, 1.0)));
                    out.push(("bbox", bbox_v(bb, 1.0, 1.0)));
                    set = e.props;
                    embs.push(m("ink_word", vec![("ink", m("ink", out)), ("bbox", display)]));
                }
                3 => {
                    let mut e = Node::new(0);
                    self.freq(&mut e, pid::SPACE_H, "height");
                    self.freq(&mut e, pid::SPACE_W, "width");
                    set = e.props;
                    embs.push(m("ink_space", e.out));
                }
                _ => embs.push(s("InkLineBreak")),
            }
            if self.t.chance(1, 8) {
                let junk = junk_value(self.t, 0, &[], &[]);
                // no references inside: they would have to be counted out
                if !junk.has_refs() {
                    set.push((0x3b00, junk));
                }
            }
            self.t.shuffle(&mut set);
            sets.push(set);
        }
        if runs > 0 || self.t.flip() {
            n.p(pid::RUN_FORMATTING, PV::Objs(styles));
        }
        if with_sets {
            n.p(pid::RUN_DATA, PV::Sets(0x44000811, sets));
        }
        if !inks.is_empty() {
            n.p(pid::RUN_DATA_OBJECT, PV::Objs(inks));
        }
        let ends: Vec<u32> = {
            let mut acc = 0;
            let k = if runs > 0 { runs - 1 + self.t.weighted(&[6, 1]) } else { 0 };
            (0..k)
                .map(|_| {
                    let d = if self.t.chance(1, 10) { self.t.u32b() >> 3 } else { self.t.below(5) as u32 };
                    acc = u32::saturating_add(acc, d);
                    acc
                })
                .collect()
        };
        if !ends.is_empty() || self.t.flip() {
            n.p(pid::RUN_INDEX, PV::Vec(ends.iter().flat_map(|x| x.to_le_bytes()).collect()));
        }
        n.o("run_ends", l(ends, |x| u(x)));
        n.o("runs", V::L(style_vs));
        n.o("embedded", V::L(embs));
        n.o("math", V::L(maths));
        let k = self.t.chance(1, 12) as u8;
        let (base, bv) = self.style(k);
        n.p(pid::PARA_STYLE, PV::Obj(base)).o("style", bv);
        for (p, k) in [(0x1400342E, "space_before"), (0x1400342F, "space_after")] {
            let x = if self.opt() {
                let x = self.t.f32v();
                n.p(p, PV::U32(x.to_bits()));
                x
            } else {
                0.0
            };
            n.o(k, f(x));
        }
        self.f(&mut n, 0x14003430, "line_spacing");
        let al = if self.opt() {
            let c = if self.t.chance(1, 8) { self.t.u8b() } else { self.t.below(3) as u8 };
            n.p(pid::PARA_ALIGN, PV::U8(c));
            para_align(c)
        } else {
            "Left"
        };
        n.o("alignment", s(al));
        self.aligns(&mut n);
        self.tags(&mut n);
        if self.t.chance(1, 4) {
            let x = self.t.u16b();
            n.p(0x10001CFE, PV::U16(x));
        }
        self.noise(&mut n, &[0x08001C00, 0x08001C87, 0x08001C88, 0x08001CB5, 0x08001CB4, 0x08003476], &[], &[], &[]);
        let out = m("richtext", std::mem::take(&mut n.out));
        (self.add(n), out)
    }
    // ---- tags ---------------------------------------------------------------------
    fn tagdef(&mut self) -> (Ex, V) {
        if !self.tagdefs.is_empty() && self.p16(self.c.share) {
            let k = self.t.n(self.tagdefs.len());
            return self.tagdefs[k].clone();
        }
        let mut n = Node::new(jc::TAGDEF);
        self.sreq(&mut n, pid::TAGDEF_LABEL, "label");
        let st = if self.t.flip() { self.t.below(1 << 12) as u32 } else { self.t.raw() };
        n.p(pid::TAGDEF_STATUS, PV::U32(st)).o("status", l([0, 1, 2, 3, 6, 7, 8, 9, 10, 11], |b| V::B(st >> b & 1 == 1)));
        let sh = self.t.below(144) as u16;
        n.p(pid::TAGDEF_SHAPE, PV::U16(sh)).o("shape", s(SHAPES[sh as usize])).o("checkable", V::B(checkable(sh)));
        self.cref(&mut n, pid::TAGDEF_HIGHLIGHT, "highlight");
        self.cref(&mut n, pid::TAGDEF_TEXT, "text_color");
        let ty = match self.t.n(3) {
            0 => self.t.below(100) as u16,
            1 => self.t.range(98, 108) as u16,
            _ => self.t.u16b(),
        };
        n.p(pid::TAGDEF_TYPE, PV::U16(ty)).o("item_type", s(item_type(ty)));
        let out = m("definition", std::mem::take(&mut n.out));
        let id = self.add(n);
        self.tagdefs.push((id, out.clone()));
        (id, out)
    }
    fn tags(&mut self, n: &mut Node) {
        if !self.p16(self.c.tags) && !self.t.wants(&[long::TAGS]) {
            n.o("note_tags", V::L(vec![]));
            return;
        }
        let k = self.t.weighted(&[3, 3, 2, 1, 1]);
        let k = self.t.grant(long::TAGS, 66000).unwrap_or([1, 2, 3, 0, 7][k]);
        let (mut sets, mut vs) = (vec![], vec![]);
        for _ in 0..k {
            let mut e = Node::new(0);
            let d = if self.t.chance(7, 8) {
                let (id, v) = self.tagdef();
                e.p(pid::TAG_DEF, PV::Obj(id));
                v
            } else {
                V::N
            };
            e.o("definition", d);
            let x = self.t.u32b();
            e.p(pid::TAG_CREATED, PV::U32(x));
            let c = if self.t.flip() {
                let x = self.t.u32b();
                e.p(pid::TAG_COMPLETED, PV::U32(x));
                s(format!("Time({x})"))
            } else {
                V::N
            };
            e.o("completed_at", c);
            let st = if self.t.flip() { self.t.below(8) as u16 } else { self.t.raw() as u16 };
            e.p(pid::TAG_STATUS, PV::U16(st));
            e.o("completed", V::B(st & 1 != 0)).o("disabled", V::B(st & 2 != 0)).o("task_tag", V::B(st & 4 != 0));
            if self.t.chance(1, 8) {
                let x = self.t.u32b();
                e.p(0x1400346B, PV::U32(x));
            }
            if self.t.chance(1, 10) && !self.objs.is_empty() {
                // another reference in the same state
                let i = self.t.n(self.objs.len());
                e.p(0x20003b77, PV::Obj(self.objs[i].id));
            }
            self.t.shuffle(&mut e.props);
            sets.push(e.props);
            vs.push(m("tag", e.out));
        }
        n.p(pid::NOTE_TAGS, PV::Sets(0x44000811, sets));
        n.o("note_tags", V::L(vs));
    }
    // ---- tables --------------------------------------------------------------------
    fn table(&mut self, depth: u32) -> (Ex, V) {
        let mut n = Node::new(jc::TABLE);
        self.time(&mut n);
        let rows = self.t.count(self.c.fan);
        let cols = 1 + self.t.n(self.c.fan);
        let rows = if self.t.wants(long::IN_ELEMENT) { rows.max(1) } else { rows };
        let (gr, gc) = (self.t.grant(long::ROWS, 66000), self.t.grant(long::CELLS, 66000));
        let rows = gr.or(gc.map(|_| 2)).unwrap_or(rows);
        let cols = gc.or(gr.map(|_| 1 + cols % 2)).unwrap_or(cols);
        let (mut rids, mut rvs) = (vec![], vec![]);
        for _ in 0..rows {
            if !self.spend() && gr.is_none() && gc.is_none() && !self.t.wants(long::IN_ELEMENT) {
                break;
            }
            let mut r = Node::new(jc::ROW);
            if self.t.flip() {
                self.time(&mut r);
            }
            let (mut cids, mut cvs) = (vec![], vec![]);
            // rows are reported as stored, whatever their length
            let here = if gr.is_none() && gc.is_none() && !self.t.wants(long::IN_ELEMENT) && self.t.chance(1, 8) { self.t.n(cols + 2) } else { cols };
            for _ in 0..here {
                let mut c = Node::new(jc::CELL);
                if self.t.flip() {
                    self.time(&mut c);
                }
                let k = self.t.weighted(&[4, 2, 1]);
                let (mut ids, mut vs) = (vec![], vec![]);
                let g = self.t.grant(long::CELL_ITEMS, 66000);
                for _ in 0..g.unwrap_or([1, 0, 2][k]) {
                    if !self.spend() && g.is_none() {
                        break;
                    }
                    let (i, v) = self.element(depth);
                    ids.push(i);
                    vs.push(v);
                }
                self.again(&mut ids, &mut vs);
                c.p(pid::ELEMENT_CHILDREN, PV::Objs(ids)).o("contents", V::L(vs));
                self.f(&mut c, pid::MAX_W, "max_w");
                self.indents(&mut c);
                self.color(&mut c, pid::CELL_COLOR, "background");
                let out = m("cell", std::mem::take(&mut c.out));
                cids.push(self.add(c));
                cvs.push(out);
            }
            self.again(&mut cids, &mut cvs);
            r.p(pid::ELEMENT_CHILDREN, PV::Objs(cids));
            rids.push(self.add(r));
            rvs.push(m("row", vec![("cells", V::L(cvs))]));
        }
        self.again(&mut rids, &mut rvs);
        // the stored counts are reported as stored
        let (rc, cc) = if self.t.chance(1, 8) { (self.t.u32b(), self.t.u32b()) } else { (rids.len() as u32, cols as u32) };
        n.p(pid::ELEMENT_CHILDREN, PV::Objs(rids)).o("contents", V::L(rvs));
        n.p(pid::ROW_COUNT, PV::U32(rc)).o("rows", u(rc));
        n.p(pid::COL_COUNT, PV::U32(cc)).o("cols", u(cc));
        let lock = if self.opt() {
            let k = if self.t.chance(1, 4) { self.t.n(40) } else { cols.div_ceil(8) };
            let mut b = self.t.bytes(k);
            match self.t.n(6) {
                // an all-clear tail is as much a part of the flags
                4 => b.iter_mut().rev().take(2).for_each(|x| *x = 0),
                5 => b.fill(0xff),
                _ => {}
            }
            let mut raw = vec![cols as u8];
            raw.extend(&b);
            n.p(pid::COLS_LOCKED, PV::Vec(raw));
            b
        } else {
            vec![]
        };
        n.o("cols_locked", V::Y(lock));
        let widths = if self.opt() {
            let mut raw = vec![cols as u8];
            let k = if self.t.chance(1, 8) { self.t.n(6) } else { cols & 0xff };
            let mut vs = vec![];
            for _ in 0..k {
                let x = self.t.f32v();
                raw.extend(x.to_bits().to_le_bytes());
                vs.push(f(x));
            }
            n.p(pid::COL_WIDTHS, PV::Vec(raw));
            vs
        } else {
            vec![]
        };
        n.o("col_widths", V::L(widths));
        self.b(&mut n, pid::BORDERS, "borders", true);
        self.aligns(&mut n);
        self.tags(&mut n);
        let out = m("table", std::mem::take(&mut n.out));
        (self.add(n), out)
    }
    // ---- images and files -----------------------------------------------------------
    pub fn blob(&mut self) -> (Ex, Vec<u8>) {
        let k = match self.t.weighted(&[2, 3, 2, if self.c.big_blobs { 3 } else { 0 }]) {
            0 => self.t.n(3),
            1 => self.t.n(300),
            2 => *[1usize, 127, 128, 255, 256, 16383, 16384, 32766, 32767, 32768].get(self.t.n(10)).unwrap(),
            _ => match self.t.weighted(&[40, 1]) {
                0 => self.t.n(300_000),
                // around the limits of three bytes, twenty bits
                _ => self.t.pick(&[1usize << 19, 1 << 20, 1 << 21]) - 3 + self.t.n(7),
            },
        };
        let b = self.t.bytes(k);
        let g = self.bases[0];
        let id = Ex { g, v: 0x7000_0000 + self.blobs.len() as u32 };
        self.blobs.insert(id, b.clone());
        (id, b)
    }
    pub fn image(&mut self) -> (Ex, V) {
        let mut n = Node::new(jc::IMAGE);
        let (data, ext) = if self.t.chance(7, 8) {
            let (id, d, x) = if !self.pictures.is_empty() && self.p16(self.c.share / 2) {
                let k = self.t.n(self.pictures.len());
                self.pictures[k].clone()
            } else {
                let mut c = Node::new(if self.t.chance(1, 4) { jc::XPS } else { jc::PICTURE });
                let (bid, b) = self.blob();
                c.blob = Some(bid);
                let x = if self.t.chance(3, 4) {
                    let x = match self.t.n(6) {
                        0 => String::new(),
                        1 | 2 => self.t.pick(&["png", ".png", ".jpg", "jpeg", ".", "..", "tar.gz", ".PNG", " .png "]).to_string(),
                        _ => self.t.text(6),
                    };
                    let p = self.stored_text(&x);
                    c.p(pid::PICTURE_EXT, p);
                    s(x)
                } else {
                    V::N
                };
                let r = (self.add(c), V::Y(b), x);
                self.pictures.push(r.clone());
                r
            };
            n.p(pid::PICTURE, PV::Obj(id));
            (d, x)
        } else {
            (V::N, V::N)
        };
        n.o("data", data).o("extension", ext);
        self.f(&mut n, pid::MAX_W, "max_w");
        self.f(&mut n, pid::MAX_H, "max_h");
        match self.t.grant(long::NAME, 6000) {
            Some(k) => {
                let x = self.long_text(k * 20);
                let p = self.stored_text(&x);
                n.p(0x1C001E58, p).o("alt_text", s(x));
            }
            None => self.s(&mut n, 0x1C001E58, "alt_text"),
        }
        self.aligns(&mut n);
        self.s(&mut n, 0x1C001DD7, "filename");
        self.u32(&mut n, 0x14003480, "page_number");
        self.s(&mut n, pid::TEXT, "text");
        self.u16(&mut n, 0x10001CFE, "text_lang");
        self.f(&mut n, 0x140034CD, "picture_w");
        self.f(&mut n, 0x140034CE, "picture_h");
        self.s(&mut n, 0x1C001E20, "link");
        self.offsets(&mut n);
        self.b(&mut n, 0x08001D13, "background", false);
        self.tags(&mut n);
        let k = if self.t.chance(1, 5) { self.t.n(4) } else { 0 };
        let k = self.t.grant(long::EMBEDS, 66000).unwrap_or(k);
        let (mut ids, mut vs) = (vec![], vec![]);
        for _ in 0..k {
            let mut c = Node::new(jc::IFRAME);
            self.u32(&mut c, pid::IFRAME_TYPE, "type");
            self.sreq(&mut c, pid::IFRAME_URL, "url");
            let out = m("iframe", std::mem::take(&mut c.out));
            ids.push(self.add(c));
            vs.push(out);
        }
        self.again(&mut ids, &mut vs);
        if k > 0 {
            n.p(pid::CONTENT_CHILDREN, PV::Objs(ids));
        }
        n.o("embeds", V::L(vs));
        self.noise(&mut n, &[0x08001CBD], &[pid::LAST_MODIFIED, 0x14001C3B, 0x140034CB], &[0x1C001D9D], &[0x200034C8]);
        let out = m("image", std::mem::take(&mut n.out));
        (self.add(n), out)
    }
    pub fn file(&mut self) -> (Ex, V) {
        let mut n = Node::new(jc::FILE);
        self.time(&mut n);
        let (id, data) = if !self.files.is_empty() && self.p16(self.c.share / 2) {
            let k = self.t.n(self.files.len());
            self.files[k].clone()
        } else {
            let mut c = Node::new(jc::FILE_CONTAINER);
            let (bid, b) = self.blob();
            c.blob = Some(bid);
            let r = (self.add(c), V::Y(b));
            self.files.push(r.clone());
            r
        };
        n.p(pid::FILE_CONTAINER, PV::Obj(id)).o("data", data);
        self.sreq(&mut n, pid::FILE_NAME, "filename");
        let k = self.t.n(3);
        if k > 0 {
            n.p(pid::MEDIA, PV::U32(k as u32));
        }
        n.o("type", s(["Unknown", "Audio", "Video"][k]));
        self.f(&mut n, pid::MAX_W, "max_w");
        self.f(&mut n, pid::MAX_H, "max_h");
        self.offsets(&mut n);
        self.tags(&mut n);
        if !self.pictures.is_empty() && self.t.flip() {
            let k = self.t.n(self.pictures.len());
            n.p(pid::PICTURE, PV::Obj(self.pictures[k].0));
        }
        self.noise(
            &mut n,
            &[0x08001CBD],
            &[0x140034CD, 0x140034CE],
            &[0x1C001D9D, pid::TEXT],
            &[],
        );
        let out = m("file", std::mem::take(&mut n.out));
        (self.add(n), out)
    }
    // ---- ink -------------------------------------------------------------------------
    fn pen(&mut self) -> (Ex, Pen) {
        if !self.pens.is_empty() && self.p16(self.c.share) && !self.t.wants(&[long::DIMS]) {
            let k = self.t.n(self.pens.len());
            return self.pens[k].clone();
        }
        let mut n = Node::new(jc::PEN);
        self.freq(&mut n, pid::INK_HEIGHT, "height");
        self.freq(&mut n, pid::INK_WIDTH, "width");
        self.u8(&mut n, pid::INK_TIP, "pen_tip");
        self.u8(&mut n, pid::INK_TRANSP, "transparency");
        self.u32(&mut n, pid::INK_COLOR, "color");
        let dims = 2 + self.t.weighted(&[3, 2, 1]);
        let dims = self.t.grant(long::DIMS, 300).unwrap_or(dims);
        let mut order: Vec<usize> = (0..dims).collect();
        self.t.shuffle(&mut order);
        let mut raw = vec![];
        for &k in &order {
            let g = match k {
                0 => guid("598a6a8f-52c0-4ba0-93af-af357411a561"),
                1 => guid("b53f9f75-04e0-4498-a7ee-c30dbb5a9011"),
                2 => guid("7307502d-f9f4-4e18-b3f2-2ce1b1a3610c"),
                _ => self.t.guid(),
            };
            raw.extend(g);
            let b = self.t.bytes(16);
            raw.extend(b);
        }
        n.p(pid::INK_DIMS, PV::Vec(raw));
        self.noise(&mut n, &[0x0800340E, 0x08003410, 0x08003411], &[], &[], &[]);
        let g = |k: &str| n.out.iter().find(|x| x.0 == k).unwrap().1.clone();
        let pen = Pen {
            dims,
            x: order.iter().position(|i| *i == 0).unwrap(),
            y: order.iter().position(|i| *i == 1).unwrap(),
            v: [g("height"), g("width"), g("pen_tip"), g("transparency"), g("color")],
        };
        let id = self.add(n);
        self.pens.push((id, pen.clone()));
        (id, pen)
    }
    fn coord(&mut self) -> i64 {
        let v = match self.t.n(3) {
            0 => self.t.below(64),
            1 => self.t.below(1 << 12),
            _ => {
                let k = self.t.below(13);
                (1u64 << k) - self.t.below(2)
            }
        } as i64;
        if self.t.chance(1, 3) { -v } else { v }
    }
    /// Up to 32 bits, with an exactly representable product with any scale.
    fn big_coord(&mut self) -> i64 {
        let v = (self.t.range(1, 32767) << self.t.range(0, 16)) as i64;
        if self.t.flip() { -v } else { v }
    }
    /// Beyond 32 bits, exactly representable.
    fn wide_coord(&mut self) -> i64 {
        let v = (self.t.range(1, 1023) << self.t.range(20, 51)) as i64;
        if self.t.flip() { -v } else { v }
    }
    fn ink_data(&mut self) -> (Ex, Vec<RawStroke>, Option<[u32; 4]>) {
        if !self.inks.is_empty() && self.p16(self.c.share / 3) && !self.t.wants(long::IN_INK) {
            let k = self.t.n(self.inks.len());
            return self.inks[k].clone();
        }
        let k = self.t.count(4);
        let k = if self.t.wants(long::IN_INK) { k.max(1) } else { k };
        let k = self.t.grant(long::STROKES, 66000).unwrap_or(k);
        let (mut ids, mut strokes) = (vec![], vec![]);
        for _ in 0..k {
            let (pid_, pen) = self.pen();
            let np = self.t.count(8);
            let np = self.t.grant(long::POINTS, 66000).map_or(np, |k| k * 10);
            let big = self.t.weighted(&[13, 2, 1]);
            let pts: Vec<(i64, i64)> = (0..np)
                .map(|_| match big {
                    0 => (self.coord(), self.coord()),
                    1 => (self.big_coord(), self.big_coord()),
                    _ => (self.wide_coord(), self.wide_coord()),
                })
                .collect();
            let mut flat = vec![];
            for d in 0..pen.dims {
                for p in &pts {
                    flat.push(if d == pen.x {
                        p.0
                    } else if d == pen.y {
                        p.1
                    } else {
                        self.t.below(1 << 15) as i64
                    });
                }
            }
            let mut n = Node::new(jc::STROKE);
            let odd = if self.t.chance(1, 12) { self.t.raw() } else { 0 };
            n.p(pid::INK_PATH, PV::Vec(multibyte_odd(&flat, odd)));
            let b = self.t.below(3) as u8;
            n.p(pid::INK_BIAS, PV::U8(b));
            n.p(pid::INK_PROPS, PV::Obj(pid_));
            self.noise(&mut n, &[], &[0x14001C3B, pid::LAST_MODIFIED], &[], &[]);
            ids.push(self.add(n));
            strokes.push(RawStroke { pts, pen });
        }
        self.again(&mut ids, &mut strokes);
        let mut n = Node::new(jc::INK_DATA);
        n.p(pid::INK_STROKES, PV::Objs(ids));
        let bb = if self.t.chance(3, 4) {
            let x0 = self.t.below(1 << 11) as u32;
            let y0 = self.t.below(1 << 11) as u32;
            let mut b = [x0, y0, x0 + self.t.below(1 << 11) as u32, y0 + self.t.below(1 << 11) as u32];
            match self.t.weighted(&[12, 2, 1, 1]) {
                1 => {
                    let k = self.t.range(1, 19);
                    b = b.map(|x| x << k);
                }
                // corners the wrong way round
                2 => b.swap(0, 2),
                3 => b.swap(1, 3),
                _ => {}
            }
            n.p(pid::INK_BBOX, PV::Vec(b.iter().flat_map(|x| x.to_le_bytes()).collect()));
            Some(b)
        } else {
            None
        };
        let id = self.add(n);
        let r = (id, strokes, bb);
        self.inks.push(r.clone());
        r
    }
    pub fn ink(&mut self) -> (Ex, V) {
        let mut n = Node::new(jc::INK);
        self.offsets(&mut n);
        let mut scale = [1.0f32; 2];
        for (i, p) in [pid::INK_SX, pid::INK_SY].into_iter().enumerate() {
            if self.t.chance(5, 8) {
                // exactly representable products (see bbox_v)
                scale[i] = if self.t.chance(1, 4) { 0.25 * 2f32.powi(self.t.n(4) as i32) } else { self.t.range(1, 511) as f32 / 32.0 };
                n.p(p, PV::U32(scale[i].to_bits()));
            }
        }
        let (st, bb) = if self.t.chance(9, 10) || self.t.wants(long::IN_INK) {
            let (id, st, bb) = self.ink_data();
            n.p(pid::INK_DATA, PV::Obj(id));
            (strokes_v(&st, scale[0], scale[1]), bbox_v(bb, scale[0], scale[1]))
        } else {
            (V::L(vec![]), V::N)
        };
        n.o("strokes", st).o("bbox", bb);
        self.noise(&mut n, &[], &[pid::LAST_MODIFIED], &[], &[]);
        let out = m("ink", std::mem::take(&mut n.out));
        (self.add(n), out)
    }
}
fn strokes_v(x: &[RawStroke], sx: f32, sy: f32) -> V {
    l(x, |k| {
        let [h, w, t, tr, c] = k.pen.v.clone();
        m(
            "stroke",
            vec![
                ("path", l(&k.pts, |p| V::L(vec![f(p.0 as f32 * sx), f(p.1 as f32 * sy)]))),
                ("height", h),
                ("width", w),
                ("pen_tip", t),
                ("transparency", tr),
                ("color", c),
            ],
        )
    })
}
fn bbox_v(b: Option<[u32; 4]>, sx: f32, sy: f32) -> V {
    o(b, |b| {
        m(
            "bbox",
            vec![
                ("x", f(b[0] as f32 * sx)),
                ("y", f(b[1] as f32 * sy)),
                ("width", f((b[2] as f32 - b[0] as f32) * sx)),
                ("height", f((b[3] as f32 - b[1] as f32) * sy)),
            ],
        )
    })
}
/// [MS-ISF] multi-byte signed coding, preceded by the (signed-coded) count.
pub fn multibyte(v: &[i64]) -> Vec<u8> {
    multibyte_odd(v, 0)
}
/// Like `multibyte`; a non-zero seed spells some numbers unusually (a zero with
/// a sign, more bytes than needed).
pub fn multibyte_odd(v: &[i64], odd: u32) -> Vec<u8> {
    fn put(mut x: u64, long: bool, o: &mut Vec<u8>) {
        loop {
            let b = (x & 0x7f) as u8;
            x >>= 7;
            if x == 0 {
                if long {
                    o.extend([b | 0x80, 0]);
                } else {
                    o.push(b);
                }
                break;
            }
            o.push(b | 0x80);
        }
    }
    let mut o = vec![];
    put((v.len() as u64) << 1, false, &mut o);
    for (i, x) in v.iter().enumerate() {
        let k = odd.rotate_left(i as u32 % 32);
        put(x.unsigned_abs() << 1 | (*x < 0 || *x == 0 && k & 1 == 1) as u64, k & 6 == 6 && *x < 1 << 40, &mut o);
    }
    o
}

// ---- whole files -----------------------------------------------------------------
#[derive(Clone, Debug)]
pub struct Doc {
    pub file: FileModel,
    /// Expected report; display_name is the stored name or N.
    pub want: V,
    /// Length of the unusually long list (0: there is none).
    pub long: usize,
}
pub const SHARED_BASE: [u8; 16] = [0x5a; 16];

/// A page in its own object space.
pub fn gen_page(t: &mut Tape, c: &GenCfg, blobs: &mut BTreeMap<Ex, Vec<u8>>, cell: Cell) -> (Space, V) {
    let mut g = G::new(t, c, blobs, SHARED_BASE);
    let (roots, v) = g.page();
    let objs = g.objs;
    (Space { cell, revs: vec![Rev { roots, groups: vec![objs], again: vec![] }] }, v)
}

/// `own`: tapes for the pages (page i uses own[i] while there is one).
pub fn gen_section(t: &mut Tape, c: &GenCfg, own: &mut [Tape]) -> Doc {
    let mut blobs = BTreeMap::new();
    let ctx_g = {
        let mut g = t.guid();
        g[14] ^= 0x11;
        g
    };
    let os_g = {
        let mut g = t.guid();
        g[14] ^= 0x22;
        g
    };
    if c.stretch > 0 && t.chance(c.stretch, 256) {
        t.stretch = if c.long.is_empty() { 1 + t.n(long::LAST as usize) as u8 } else { t.pick(c.long) };
        t.extend(60_000);
    }
    let scheme = t.weighted(&[6, 2, 2, 2, 2]);
    let first = t.pick(&[1, 0, 29, 1020, (1 << 17) - 3, u32::MAX - 2000]);
    let mut cells = 0u32;
    let mut cell = || {
        cells += 1;
        let (mut c, mut o) = (Ex { g: ctx_g, v: 1 }, Ex { g: os_g, v: cells });
        match scheme {
            0 => {}
            1 => c.v = cells,
            // two pages in one object space, told apart by their contexts
            2 => (c.v, o.v) = (cells, 1 + cells / 2),
            // the same number in each
            3 => {
                (c.v, o.v) = (first, first);
                o.g[3] = cells as u8;
                o.g[12] = (cells >> 8) as u8;
            }
            _ => (c.v, o.v) = (first, first + cells),
        }
        (c, o)
    };
    let root_cell = cell();
    let nseries = 1 + t.count(c.series.saturating_sub(1));
    let nseries = if t.wants(long::IN_PAGE) { nseries.max(1) } else { nseries };
    let nseries = t.grant(long::SERIES, 1100).unwrap_or(nseries);
    let mut spaces = vec![];
    let mut series = vec![];
    let (mut pageno, mut twice) = (0, false);
    for i in 0..nseries {
        let np = if own.is_empty() { t.weighted(&[4, 2, 1, 1]) } else if i + 1 == nseries { own.len() - pageno } else { (own.len() - pageno).min(1 + t.n(own.len() - pageno + 1)) };
        let np = if own.is_empty() { [1, 2, 0, c.pages][np].min(c.pages) } else { np };
        let np = if !own.is_empty() {
            np
        } else if t.stretched > 0 && nseries > 15 {
            np.min(1)
        } else if t.wants(long::IN_PAGE) {
            np.max(1)
        } else {
            t.grant(long::PAGES, 1100).unwrap_or(np)
        };
        let mut ps = vec![];
        for _ in 0..np {
            let cl = cell();
            if own.is_empty() && t.stretched == 0 && t.chance(1, 10) {
                // another version of the page, which nothing leads to
                let mut old = c.clone();
                old.budget = old.budget.min(3);
                let ctx = Ex { g: { let mut g = ctx_g; g[5] ^= 0x40; g }, v: 3 * spaces.len() as u32 + 1 + t.n(3) as u32 };
                spaces.push(gen_page(t, &old, &mut blobs, (ctx, cl.1)).0);
            }
            let (sp, v) = match own.get_mut(pageno) {
                Some(pt) => gen_page(pt, c, &mut blobs, cl),
                None => gen_page(t, c, &mut blobs, cl),
            };
            pageno += 1;
            spaces.push(sp);
            ps.push((cl, v));
        }
        if own.is_empty() && t.stretched == 0 && !ps.is_empty() && !twice && t.chance(1, 24) {
            // the same page again
            twice = true;
            let p = t.pick(&ps);
            ps.insert(t.n(ps.len() + 1), p);
        }
        series.push(ps);
    }
    // section space
    let mut g = G::new(t, c, &mut blobs, SHARED_BASE);
    let (mut sids, mut svs) = (vec![], vec![]);
    for ps in series {
        let mut n = Node::new(jc::SERIES);
        let x = g.t.guid();
        n.p(pid::ENTITY_GUID, PV::Vec(x.to_vec()));
        if !ps.is_empty() || g.t.flip() {
            n.p(pid::CHILD_SPACES, PV::Spaces(ps.iter().map(|x| x.0).collect()));
        }
        // cached page metadata, as real files have
        if g.t.chance(1, 3) {
            let mut mds = vec![];
            for _ in 0..ps.len() {
                let mut md = Node::new(jc::PAGE_META);
                let x = g.t.guid();
                md.p(pid::ENTITY_GUID, PV::Vec(x.to_vec()));
                let x = g.text();
                let p = g.stored_text(&x);
                md.p(pid::CACHED_TITLE, p);
                mds.push(g.add(md));
            }
            n.p(0x24003442, PV::Objs(mds));
        }
        if g.t.flip() {
            let x = g.t.u64b();
            n.p(pid::TOPOLOGY_TIME, PV::U64(x));
        }
        sids.push(g.add(n));
        svs.push(m("series", vec![("pages", V::L(ps.into_iter().map(|x| x.1).collect()))]));
    }
    let mut n = Node::new(jc::SECTION);
    let x = g.t.guid();
    n.p(pid::ENTITY_GUID, PV::Vec(x.to_vec()));
    let x = g.t.u64b();
    n.p(pid::TOPOLOGY_TIME, PV::U64(x));
    if !sids.is_empty() || g.t.flip() {
        n.p(pid::ELEMENT_CHILDREN, PV::Objs(sids));
    }
    let sec = g.add(n);
    let mut n = Node::new(jc::SECTION_META);
    let (a, b) = (g.t.u32b(), g.t.u32b());
    n.p(pid::SCHEMA_READ, PV::U32(a));
    n.p(pid::SCHEMA_WRITE, PV::U32(b));
    if c.section_name {
        g.s(&mut n, pid::SECTION_NAME, "display_name");
    } else {
        n.o("display_name", V::N);
    }
    g.color(&mut n, pid::SECTION_COLOR, "color");
    let mut out = std::mem::take(&mut n.out);
    let md = g.add(n);
    let mut roots = vec![(1, sec), (2, md)];
    g.t.shuffle(&mut roots);
    let objs = g.objs;
    out.push(("series", V::L(svs)));
    Doc {
        file: FileModel {
            schema: guid(SECTION_SCHEMA),
            root: Space { cell: root_cell, revs: vec![Rev { roots, groups: vec![objs], again: vec![] }] },
            spaces,
            blobs,
        },
        want: m("section", out),
        long: t.stretched,
    }
}
/// The documented display-name rule.
pub fn display_name(stored: Option<&str>, file_name: &str) -> String {
    stored.unwrap_or(file_name).trim_end_matches(".one").to_string()
}
/// Fills in the display name for a given file name.
pub fn want_for(doc: &Doc, file_name: &str) -> V {
    let mut w = doc.want.clone();
    let name = display_name(w.get("display_name").str(), file_name);
    *w.get_mut("display_name").unwrap() = s(name);
    w
}

// ---- tables of contents ------------------------------------------------------------
#[derive(Clone, Debug)]
pub struct TocNode {
    pub name: Option<String>,
    pub order: Option<u32>,
    pub color: Option<u32>,
    pub kids: Vec<TocNode>,
}
pub fn escape_name(x: &str) -> String {
    x.replace('+', "^M").replace(',', "^J")
}
pub fn toc_file(t: &mut Tape, root: &TocNode, c: &GenCfg) -> FileModel {
    let mut blobs = BTreeMap::new();
    let g0 = t.guid();
    let mut g = G::new(t, c, &mut blobs, SHARED_BASE);
    fn rec(g: &mut G, x: &TocNode) -> Ex {
        let kids: Vec<Ex> = x.kids.iter().map(|k| rec(g, k)).collect();
        let mut n = Node::new(jc::TOC);
        if !kids.is_empty() || g.t.chance(1, 4) {
            n.p(pid::TOC_CHILDREN, PV::Objs(kids));
        }
        if let Some(f) = &x.name {
            let p = g.stored_text(f);
            n.p(pid::TOC_NAME, p);
        }
        if let Some(o) = x.order {
            n.p(pid::TOC_ORDER, PV::U32(o));
        }
        if let Some(c) = x.color {
            n.p(pid::SECTION_COLOR, PV::U32(c));
        }
        if g.t.chance(1, 3) {
            let x = g.t.guid();
            n.p(0x1C001D94, PV::Vec(x.to_vec()));
        }
        g.add(n)
    }
    let root = rec(&mut g, root);
    let objs = g.objs;
    FileModel {
        schema: guid(TOC_SCHEMA),
        root: Space {
            cell: (Ex { g: g0, v: 1 }, Ex { g: g0, v: 2 }),
            revs: vec![Rev { roots: vec![(1, root)], groups: vec![objs], again: vec![] }],
        },
        spaces: vec![],
        blobs,
    }
}
