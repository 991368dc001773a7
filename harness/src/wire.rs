//! Independent writer for the FSSHTTPB packaging of a OneStore. It shares no
//! code with the crate under test; it follows [MS-FSSHTTPB], [MS-ONESTORE].
//! Every freedom the format leaves (integer widths, header widths, element and
//! property order, local id numbering, serial numbers, metadata blocks, ...) is
//! drawn from a tape.
use crate::tape::Tape;
use std::collections::{BTreeMap, HashMap};

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct Ex {
    pub g: [u8; 16],
    pub v: u32,
}
pub const NIL: Ex = Ex { g: [0; 16], v: 0 };
pub type Cell = (Ex, Ex);

/// Parses a textual GUID into its on-disk byte order.
pub fn guid(s: &str) -> [u8; 16] {
    let h: Vec<u8> = s.bytes().filter(|b| *b != b'-').collect();
    let mut r = [0u8; 16];
    for i in 0..16 {
        r[i] = u8::from_str_radix(std::str::from_utf8(&h[2 * i..2 * i + 2]).unwrap(), 16).unwrap();
    }
    r[0..4].reverse();
    r[4..6].reverse();
    r[6..8].reverse();
    r
}
pub const SECTION_SCHEMA: &str = "1F937CB4-B26F-445F-B9F8-17E20160E461";
pub const TOC_SCHEMA: &str = "E4DBFD38-E5C7-408B-A8A1-0E7B421E1F5F";

#[derive(Clone, Debug, PartialEq)]
pub enum PV {
    None,
    Bool(bool),
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    Vec(Vec<u8>),
    Obj(Ex),
    Objs(Vec<Ex>),
    Space(Cell),
    Spaces(Vec<Cell>),
    /// Context references: the context id; the cell is (ctx, own space id).
    Ctx(Ex),
    Ctxs(Vec<Ex>),
    Sets(u32, Vec<Vec<(u32, PV)>>),
    Set(Vec<(u32, PV)>),
    /// Any type code with any stored bytes (damaged files only).
    Raw(u32, Vec<u8>),
}
impl PV {
    pub fn type_code(&self) -> u32 {
        match self {
            PV::None => 1,
            PV::Bool(_) => 2,
            PV::U8(_) => 3,
            PV::U16(_) => 4,
            PV::U32(_) => 5,
            PV::U64(_) => 6,
            PV::Vec(_) => 7,
            PV::Obj(_) => 8,
            PV::Objs(_) => 9,
            PV::Space(_) => 0xA,
            PV::Spaces(_) => 0xB,
            PV::Ctx(_) => 0xC,
            PV::Ctxs(_) => 0xD,
            PV::Sets(..) => 0x10,
            PV::Set(_) => 0x11,
            PV::Raw(c, _) => *c & 31,
        }
    }
    /// Whether an object space or context is referred to.
    pub fn has_spaces(&self) -> bool {
        match self {
            PV::Space(_) | PV::Ctx(_) => true,
            PV::Spaces(l) => !l.is_empty(),
            PV::Ctxs(l) => !l.is_empty(),
            PV::Sets(_, s) => s.iter().any(|s| s.iter().any(|(_, v)| v.has_spaces())),
            PV::Set(s) => s.iter().any(|(_, v)| v.has_spaces()),
            _ => false,
        }
    }
    pub fn has_refs(&self) -> bool {
        match self {
            PV::Obj(_) | PV::Objs(_) | PV::Space(_) | PV::Spaces(_) | PV::Ctx(_) | PV::Ctxs(_) => true,
            PV::Sets(_, s) => s.iter().any(|s| s.iter().any(|(_, v)| v.has_refs())),
            PV::Set(s) => s.iter().any(|(_, v)| v.has_refs()),
            _ => false,
        }
    }
}

#[derive(Clone, Debug)]
pub struct Obj {
    pub id: Ex,
    pub jcid: u32,
    pub props: Vec<(u32, PV)>,
    /// File data: (blob element id)
    pub blob: Option<Ex>,
    /// Keep property order as given (no shuffling, no insertion).
    pub fixed: bool,
    /// A way in which the stored object contradicts itself (see `FAULTS`).
    pub fault: u8,
}
/// What `Obj::fault` (from 1) does to the stored object.
pub const FAULTS: [&str; 10] = [
    "one page space or context too many",
    "page spaces or contexts missing",
    "more references than local identifiers",
    "property data cut short",
    "declared but not stored",
    "stored but not declared",
    "property data under another partition",
    "kind under another partition",
    "property data excluded",
    "kind excluded",
];

#[derive(Clone, Debug, Default)]
pub struct Rev {
    pub roots: Vec<(u32, Ex)>,
    pub groups: Vec<Vec<Obj>>,
    /// Groups of older revisions that this one lists as well: (revision, group).
    pub again: Vec<(usize, usize)>,
}
#[derive(Clone, Debug)]
pub struct Space {
    pub cell: Cell,
    /// Oldest first.
    pub revs: Vec<Rev>,
}
impl Space {
    pub fn objs_mut(&mut self) -> impl Iterator<Item = &mut Obj> {
        self.revs.iter_mut().flat_map(|r| r.groups.iter_mut().flatten())
    }
    pub fn objs(&self) -> impl Iterator<Item = &Obj> {
        self.revs.iter().flat_map(|r| r.groups.iter().flatten())
    }
}
#[derive(Clone, Debug)]
pub struct FileModel {
    pub schema: [u8; 16],
    pub root: Space,
    pub spaces: Vec<Space>,
    /// blob element id -> bytes
    pub blobs: BTreeMap<Ex, Vec<u8>>,
}

#[derive(Clone, Copy, Debug)]
pub struct WireCfg {
    pub widths: bool,
    pub shuffle_props: bool,
    pub extra_props: bool,
    pub shuffle_elements: bool,
    pub renumber: bool,
    pub dup_local_ids: bool,
    pub extra_elements: bool,
    pub meta_blocks: bool,
    pub fragments: bool,
    pub packaging: bool,
    pub mapping_forms: bool,
    pub regroup: bool,
    pub trailing: bool,
    pub wide_serials: bool,
    /// Not a freedom of the format: writes damaged containers.
    pub chaos: bool,
    /// Neither: writes things more than once, so that some rule must choose.
    pub ambiguous: bool,
}
impl WireCfg {
    pub const PLAIN: WireCfg = WireCfg {
        widths: false,
        shuffle_props: false,
        extra_props: false,
        shuffle_elements: false,
        renumber: false,
        dup_local_ids: false,
        extra_elements: false,
        meta_blocks: false,
        fragments: false,
        packaging: false,
        mapping_forms: false,
        regroup: false,
        trailing: false,
        wide_serials: false,
        chaos: false,
        ambiguous: false,
    };
    /// Everything a conforming writer may vary.
    pub const ALL: WireCfg = WireCfg {
        widths: true,
        shuffle_props: true,
        extra_props: true,
        shuffle_elements: true,
        renumber: true,
        dup_local_ids: true,
        extra_elements: true,
        meta_blocks: true,
        fragments: true,
        packaging: true,
        mapping_forms: true,
        regroup: true,
        trailing: true,
        wide_serials: true,
        chaos: false,
        ambiguous: false,
    };
    /// Moderate variation for the content checks.
    pub const MILD: WireCfg = WireCfg {
        widths: true,
        shuffle_props: true,
        extra_props: false,
        shuffle_elements: true,
        renumber: true,
        dup_local_ids: false,
        extra_elements: false,
        meta_blocks: false,
        fragments: false,
        packaging: true,
        mapping_forms: false,
        regroup: true,
        trailing: false,
        wide_serials: true,
        chaos: false,
        ambiguous: false,
    };
}

/// What the encoder actually did (for non-triviality rules).
#[derive(Default, Debug, Clone)]
pub struct WireStats {
    pub wide_ints: u32,
    pub ex_forms: [u32; 5],
    pub hdr32: u32,
    pub serials: u32,
    pub meta_blocks: u32,
    pub fragments: u32,
    pub non_legacy: bool,
    pub shuffled: bool,
    pub extra_props: u32,
    pub extra_elements: u32,
    pub dup_ids: u32,
    pub alt_mapping: u32,
    pub groups: u32,
    pub elements: u32,
    pub package_end: usize,
    pub chaos: u32,
}

pub struct W<'t> {
    pub o: Vec<u8>,
    pub t: &'t mut Tape,
    pub c: WireCfg,
    pub st: WireStats,
}

fn ex_class(v: u32) -> usize {
    if v <= 0x1f { 0 } else if v <= 0x3ff { 1 } else if v <= 0x1ffff { 2 } else { 3 }
}

impl<'t> W<'t> {
    pub fn new(t: &'t mut Tape, c: WireCfg) -> W<'t> {
        W { o: vec![], t, c, st: WireStats::default() }
    }
    pub fn u8(&mut self, v: u8) {
        self.o.push(v)
    }
    pub fn u16(&mut self, v: u16) {
        self.o.extend(v.to_le_bytes())
    }
    pub fn u32(&mut self, v: u32) {
        self.o.extend(v.to_le_bytes())
    }
    pub fn u64(&mut self, v: u64) {
        self.o.extend(v.to_le_bytes())
    }
    pub fn cu(&mut self, v: u64) {
        let v = if self.c.chaos && self.t.chance(1, 300) { self.wild() } else { v };
        // class k = number of bytes; 0 -> single zero byte
        let mut min = 0;
        if v > 0 {
            min = 1;
            while min <= 7 && v >> (7 * min) != 0 {
                min += 1;
            }
        }
        let mut k = min;
        if self.c.widths && min <= 8 && self.t.chance(1, 4) {
            k = min + self.t.n(9 - min as usize) as u32;
            if k > 0 && k != min {
                self.st.wide_ints += 1;
            }
        }
        match k {
            0 => self.u8(0),
            k @ 1..=7 => {
                let x = (v << k) | 1 << (k - 1);
                self.o.extend(&x.to_le_bytes()[..k as usize]);
            }
            _ => {
                self.u8(0x80);
                self.u64(v)
            }
        }
    }
    /// A number that lies about what follows.
    pub fn wild(&mut self) -> u64 {
        match self.t.n(4) {
            0 => self.t.below(300),
            1 => 1 << self.t.below(64),
            2 => self.t.pick(&[0, 0x7fff, 0xffff, 0x3fff_ffff, 0x7fff_ffff, 0xffff_ffff, 1 << 40, i64::MAX as u64, u64::MAX]),
            _ => self.t.u64b(),
        }
    }
    pub fn ex(&mut self, e: Ex) {
        let e = if self.c.chaos && self.t.chance(1, 300) {
            if self.t.flip() { NIL } else { Ex { g: e.g, v: e.v.wrapping_add(self.t.u32b()) } }
        } else {
            e
        };
        if e == NIL {
            self.st.ex_forms[4] += 1;
            return self.u8(0);
        }
        let min = ex_class(e.v);
        let mut k = min;
        if self.c.widths && self.t.chance(1, 4) {
            k = min + self.t.n(4 - min);
        }
        self.st.ex_forms[k] += 1;
        match k {
            0 => self.u8((e.v << 3) as u8 | 4),
            1 => {
                let x = (e.v << 6) as u16 | 32;
                self.u16(x)
            }
            2 => {
                let x = e.v << 7 | 64;
                self.o.extend(&x.to_le_bytes()[..3]);
            }
            _ => {
                self.u8(128);
                self.u32(e.v)
            }
        }
        self.o.extend(e.g);
    }
    pub fn cell(&mut self, c: Cell) {
        self.ex(c.0);
        self.ex(c.1)
    }
    pub fn serial(&mut self, s: Option<([u8; 16], u64)>) {
        match s {
            None => self.u8(0),
            Some((g, n)) => {
                self.st.serials += 1;
                self.u8(128);
                self.o.extend(g);
                self.u64(n)
            }
        }
    }
    pub fn any_serial(&mut self) -> Option<([u8; 16], u64)> {
        if self.c.wide_serials && self.t.flip() {
            Some((self.t.guid(), self.t.u64b()))
        } else {
            None
        }
    }
    /// `f` writes the payload; `bits`: 16, 32 or 0 for free choice.
    pub fn obj(&mut self, ty: u32, compound: bool, bits: u8, f: impl FnOnce(&mut W)) {
        let start = self.o.len();
        f(self);
        let payload = self.o.split_off(start);
        self.hdr(ty, compound, bits, payload.len() as u64);
        self.o.extend(payload);
    }
    pub fn hdr(&mut self, ty: u32, compound: bool, bits: u8, len: u64) {
        if self.c.chaos && self.t.chance(1, 300) {
            // some other header
            let (ty, len) = if self.t.flip() { (self.t.below(0x80) as u32, len) } else { (ty, self.wild()) };
            self.st.chaos += 1;
            let l = if len >= 0x7fff { 0x7fff } else { len as u32 };
            let kind = self.t.pick(&[2, 2, 2, 0, 1, 3]);
            self.u32(l << 17 | ty << 3 | (compound as u32) << 2 | kind);
            if l == 0x7fff {
                let n = self.t.pick(&[len, 0x7fff]);
                self.cu(n);
            }
            return;
        }
        let can16 = ty <= 0x3f && len <= 127;
        let use16 = match bits {
            16 => {
                assert!(can16 || self.c.chaos, "payload too long for 16-bit header");
                can16
            }
            32 => false,
            _ => can16 && !(self.c.widths && self.t.chance(1, 3)),
        };
        if use16 {
            self.u16((len as u16) << 9 | (ty as u16) << 3 | (compound as u16) << 2);
        } else {
            self.st.hdr32 += 1;
            let l = if len >= 0x7fff { 0x7fff } else { len as u32 };
            self.u32(l << 17 | ty << 3 | (compound as u32) << 2 | 2);
            if l == 0x7fff {
                self.cu(len);
            }
        }
    }
    pub fn end8(&mut self, ty: u32) {
        assert!(ty <= 0x3f);
        self.u8((ty as u8) << 2 | 1)
    }
    pub fn end16(&mut self, ty: u32) {
        self.u16((ty as u16) << 2 | 3)
    }
}

pub fn raw_pid(id: u32, v: &PV) -> u32 {
    (id & 0x3ff_ffff) | v.type_code() << 26 | if let PV::Bool(true) = v { 1 << 31 } else { 0 }
}

#[derive(Default)]
pub struct Refs {
    pub objs: Vec<Ex>,
    pub spaces: Vec<Cell>,
    pub ctxs: Vec<Ex>,
}
pub fn write_set(o: &mut Vec<u8>, props: &[(u32, PV)], r: &mut Refs) {
    o.extend((props.len() as u16).to_le_bytes());
    for (id, v) in props {
        o.extend(raw_pid(*id, v).to_le_bytes());
    }
    for (_, v) in props {
        match v {
            PV::None | PV::Bool(_) => {}
            PV::U8(x) => o.push(*x),
            PV::U16(x) => o.extend(x.to_le_bytes()),
            PV::U32(x) => o.extend(x.to_le_bytes()),
            PV::U64(x) => o.extend(x.to_le_bytes()),
            PV::Vec(x) => {
                o.extend((x.len() as u32).to_le_bytes());
                o.extend(x)
            }
            PV::Obj(x) => r.objs.push(*x),
            PV::Objs(x) => {
                o.extend((x.len() as u32).to_le_bytes());
                r.objs.extend(x)
            }
            PV::Space(x) => r.spaces.push(*x),
            PV::Spaces(x) => {
                o.extend((x.len() as u32).to_le_bytes());
                r.spaces.extend(x)
            }
            PV::Ctx(x) => r.ctxs.push(*x),
            PV::Ctxs(x) => {
                o.extend((x.len() as u32).to_le_bytes());
                r.ctxs.extend(x)
            }
            PV::Sets(pid, sets) => {
                o.extend((sets.len() as u32).to_le_bytes());
                o.extend(pid.to_le_bytes());
                for s in sets {
                    write_set(o, s, r)
                }
            }
            PV::Set(s) => write_set(o, s, r),
            PV::Raw(_, b) => o.extend(b),
        }
    }
}

const UNKNOWN_BASE: u32 = 0x4000;
/// A random value of any type; references point at `objs` / `cells`.
pub fn junk_value(t: &mut Tape, depth: u32, objs: &[Ex], cells: &[Cell]) -> PV {
    let k = t.n(if depth > 0 { 15 } else { 13 });
    let o = |t: &mut Tape| if objs.is_empty() { Ex { g: [7; 16], v: 3 } } else { t.pick(objs) };
    let c = |t: &mut Tape| if cells.is_empty() { (Ex { g: [8; 16], v: 1 }, Ex { g: [9; 16], v: 1 }) } else { t.pick(cells) };
    match k {
        0 => PV::None,
        1 => PV::Bool(t.flip()),
        2 => PV::U8(t.u8b()),
        3 => PV::U16(t.u16b()),
        4 => PV::U32(t.u32b()),
        5 => PV::U64(t.u64b()),
        6 => {
            let n = t.n(20);
            PV::Vec(t.bytes(n))
        }
        7 => PV::Obj(o(t)),
        8 => {
            let n = t.n(4);
            PV::Objs((0..n).map(|_| o(t)).collect())
        }
        9 => PV::Space(c(t)),
        10 => {
            let n = t.n(3);
            PV::Spaces((0..n).map(|_| c(t)).collect())
        }
        11 => PV::Ctx(Ex { g: t.guid(), v: 1 + t.n(9) as u32 }),
        12 => {
            let n = t.n(3);
            PV::Ctxs((0..n).map(|_| Ex { g: t.guid(), v: 1 + t.n(9) as u32 }).collect())
        }
        13 => {
            let n = t.n(3);
            let pid = UNKNOWN_BASE + t.below(0x1000) as u32;
            PV::Sets(pid | 0x11 << 26, (0..n).map(|_| junk_set(t, depth - 1, objs, cells)).collect())
        }
        _ => PV::Set(junk_set(t, depth - 1, objs, cells)),
    }
}
pub fn junk_set(t: &mut Tape, depth: u32, objs: &[Ex], cells: &[Cell]) -> Vec<(u32, PV)> {
    let n = t.n(4);
    (0..n).map(|i| (UNKNOWN_BASE + 0x2000 + i as u32 * 0x40 + t.below(0x40) as u32, junk_value(t, depth, objs, cells))).collect()
}

struct EncObj {
    id: Ex,
    jcid: u32,
    refs: Vec<Ex>,
    cells: Vec<Cell>,
    data: Vec<u8>,
    blob: Option<Ex>,
    fault: u8,
}

pub fn encode_props(w: &mut W, o: &Obj, own_space: Ex, all_objs: &[Ex], all_cells: &[Cell]) -> (Vec<Ex>, Vec<Cell>, Vec<u8>) {
    let mut props = o.props.clone();
    if !o.fixed {
        if w.c.extra_props && w.t.chance(1, 2) {
            let n = 1 + w.t.n(3);
            for i in 0..n {
                let id = UNKNOWN_BASE + i as u32 * 0x100 + w.t.below(0x100) as u32;
                let v = junk_value(w.t, 2, all_objs, all_cells);
                props.push((id, v));
                w.st.extra_props += 1;
            }
        }
        if w.c.extra_props {
            // unknown properties within the sets of known ones, too
            for (_, v) in props.iter_mut() {
                let PV::Sets(_, sets) = v else { continue };
                if !w.t.chance(1, 3) {
                    continue;
                }
                for set in sets.iter_mut().take(50) {
                    if w.t.chance(1, 3) {
                        let at = w.t.n(set.len() + 1);
                        let id = UNKNOWN_BASE + 0x1800 + w.t.below(0x100) as u32;
                        let v = junk_value(w.t, 1, all_objs, all_cells);
                        set.insert(at, (id, v));
                        w.st.extra_props += 1;
                    }
                }
            }
        }
        if w.c.shuffle_props && w.t.chance(2, 3) {
            w.t.shuffle(&mut props);
            w.st.shuffled = true;
        }
    }
    let mut nulls = 0;
    if !o.fixed && w.c.extra_props && w.t.chance(1, 6) {
        // null references have no entry in the table
        nulls = 1 + w.t.n(3);
        let id = UNKNOWN_BASE + 0x1000 + w.t.below(0x100) as u32;
        props.push((id, if nulls == 1 && w.t.flip() { PV::Obj(NIL) } else { PV::Objs(vec![NIL; nulls]) }));
        w.st.extra_props += 1;
    }
    let mut r = Refs::default();
    let mut body = vec![];
    write_set(&mut body, &props, &mut r);
    r.objs.truncate(r.objs.len() - nulls);
    // spaces pointing to our own space id would be taken for contexts
    r.spaces.iter_mut().for_each(|c| {
        if c.1 == own_space {
            c.1.v = c.1.v.wrapping_add(1)
        }
    });

    // local ids
    let mut next: u32 = if w.c.renumber { w.t.below(1 << 16) as u32 } else { 0 };
    let step: u32 = if w.c.renumber { 1 + w.t.n(300) as u32 } else { 1 };
    let mut known: HashMap<(u8, Ex, Ex), u32> = HashMap::new();
    let mut dup_pool: [Vec<u32>; 3] = Default::default();
    let mut lid = |w: &mut W, kind: u8, key: (u8, Ex, Ex)| -> u32 {
        // A local id may be repeated for the same or (as the table is
        // positional) for another target of the same kind.
        if w.c.dup_local_ids && w.t.chance(1, 4) {
            let pool = &dup_pool[kind as usize];
            if !pool.is_empty() {
                w.st.dup_ids += 1;
                return w.t.pick(pool);
            }
        }
        if let Some(i) = known.get(&key) {
            return *i;
        }
        next = next.wrapping_add(step);
        known.insert(key, next);
        dup_pool[kind as usize].push(next);
        next
    };
    let mut out = vec![];
    let has_s = !r.spaces.is_empty();
    let has_c = !r.ctxs.is_empty();
    let osid_present = has_s || has_c || (w.c.renumber && w.t.chance(1, 5));
    let h1 = (r.objs.len() + nulls) as u32 | if osid_present { 0 } else { 1 << 31 };
    out.extend(h1.to_le_bytes());
    for e in &r.objs {
        out.extend(lid(w, 0, (0, *e, NIL)).to_le_bytes());
    }
    out.extend(vec![0; nulls * 4]);
    if osid_present {
        let ext = has_c || (w.c.renumber && w.t.chance(1, 5));
        let h2 = r.spaces.len() as u32 | if ext { 1 << 30 } else { 0 };
        out.extend(h2.to_le_bytes());
        for c in &r.spaces {
            out.extend(lid(w, 1, (1, c.0, c.1)).to_le_bytes());
        }
        if ext {
            out.extend((r.ctxs.len() as u32).to_le_bytes());
            for c in &r.ctxs {
                out.extend(lid(w, 2, (2, *c, NIL)).to_le_bytes());
            }
        }
    }
    out.extend(body);
    if w.c.trailing && o.fault == 0 && w.t.chance(1, 3) {
        // padding after the property set
        out.extend(vec![0; w.t.pick(&[(8 - out.len() % 8) % 8, 1, 7, 16])]);
    }
    // referenced cells: spaces and contexts, each kind in stream order,
    // interleaved arbitrarily
    let mut cells = vec![];
    let (mut si, mut ci) = (0, 0);
    while si < r.spaces.len() || ci < r.ctxs.len() {
        let take_ctx = ci < r.ctxs.len() && (si >= r.spaces.len() || (w.c.renumber && w.t.flip()));
        if take_ctx {
            cells.push((r.ctxs[ci], own_space));
            ci += 1;
        } else {
            cells.push(r.spaces[si]);
            si += 1;
        }
    }
    match o.fault {
        1 => cells.push((Ex { g: [0x51; 16], v: 1 }, if w.t.flip() { own_space } else { Ex { g: [0x52; 16], v: 1 } })),
        2 if !cells.is_empty() => {
            cells.remove(w.t.n(cells.len()));
        }
        3 => {
            let e = r.objs.last().copied().unwrap_or(Ex { g: [0x51; 16], v: 2 });
            r.objs.extend(vec![e; nulls + 1 + w.t.n(3)]);
        }
        4 => {
            let n = 1 + w.t.n(out.len());
            out.truncate(out.len() - n);
        }
        _ => {}
    }
    (r.objs, cells, out)
}

fn write_group(w: &mut W, objs: &[EncObj]) -> Vec<u8> {
    // entries: (object, partition)
    let mut entries: Vec<(usize, u8)> = vec![];
    // entries that are only declared, only stored
    let (mut declared, mut stored) = (vec![], vec![]);
    for (i, o) in objs.iter().enumerate() {
        entries.push((i, 4));
        entries.push((i, 1));
        match o.fault {
            5 => declared.push((i, w.t.pick(&[1, 4]))),
            6 => stored.push((i, w.t.pick(&[1, 4]))),
            _ => {}
        }
        if o.blob.is_some() {
            entries.push((i, 2));
        }
    }
    if w.c.regroup && w.t.chance(1, 2) {
        w.t.shuffle(&mut entries);
    }
    let start = w.o.len();
    w.hdr(0x1D, true, 0, 0);
    for (i, p) in entries.iter().chain(&declared) {
        let o = &objs[*i];
        if *p == 2 {
            let blob = o.blob.unwrap();
            w.obj(0x05, false, 0, |w| {
                w.ex(o.id);
                w.ex(blob);
                w.cu(2);
                w.cu(0);
                w.cu(0);
            });
        } else {
            let (size, r, c) = if *p == 4 { (4, 0, 0) } else { (o.data.len(), o.refs.len(), o.cells.len()) };
            let part = match (o.fault, p) {
                (7, 1) | (8, 4) => w.t.pick(&[0, 3, 5, 6, 255, 256 + *p as u64, (1 << 32) + *p as u64]),
                _ => *p as u64,
            };
            w.obj(0x18, false, 0, |w| {
                w.ex(o.id);
                w.cu(part);
                w.cu(size as u64);
                w.cu(r as u64);
                w.cu(c as u64);
            });
        }
    }
    w.end8(0x1D);
    if w.c.meta_blocks && w.t.chance(1, 3) {
        w.st.meta_blocks += 1;
        w.hdr(0x79, true, 32, 0);
        for _ in &entries {
            let f = w.t.below(5);
            w.obj(0x78, false, 32, |w| w.cu(f));
        }
        w.end16(0x79);
    }
    w.hdr(0x1E, true, 0, 0);
    for (i, p) in entries.iter().chain(&stored) {
        let o = &objs[*i];
        match p {
            1 | 4 if (o.fault, *p) == (9, 1) || (o.fault, *p) == (10, 4) => w.obj(0x03, false, 0, |w| {
                w.cu(0);
                w.cu(0);
                w.cu(o.data.len() as u64);
            }),
            4 => w.obj(0x16, false, 0, |w| {
                w.cu(0);
                w.cu(0);
                w.cu(4);
                w.u32(o.jcid);
            }),
            1 => w.obj(0x16, false, 0, |w| {
                w.cu(o.refs.len() as u64);
                for e in &o.refs {
                    w.ex(*e)
                }
                w.cu(o.cells.len() as u64);
                for c in &o.cells {
                    w.cell(*c)
                }
                w.cu(o.data.len() as u64);
                w.o.extend(&o.data);
            }),
            _ => {
                let blob = o.blob.unwrap();
                w.obj(0x1C, false, 0, |w| {
                    w.cu(0);
                    w.cu(0);
                    w.ex(blob);
                })
            }
        }
    }
    w.end8(0x1E);
    w.o.split_off(start)
}

/// Ids of data elements are drawn from their own guid so that they never
/// collide with each other.
struct ElementIds {
    g: [u8; 16],
    n: u32,
    step: u32,
}
impl ElementIds {
    fn next(&mut self) -> Ex {
        self.n = self.n.wrapping_add(self.step);
        Ex { g: self.g, v: self.n }
    }
}

pub struct Encoded {
    pub bytes: Vec<u8>,
    pub stats: WireStats,
}

fn all_cells_or(l: &[Cell], c: Cell) -> Vec<Cell> {
    let mut l = l.to_vec();
    l.push(c);
    l
}
pub fn encode(f: &FileModel, t: &mut Tape, c: WireCfg) -> Encoded {
    let mut w = W::new(t, c);
    let mut eg = w.t.guid();
    eg[14] ^= 0x5A;
    let mut ids = ElementIds { g: eg, n: 0, step: if c.renumber { 1 + w.t.n(5000) as u32 } else { 1 } };
    // elements: (id, type, body)
    let mut els: Vec<(Ex, u64, Vec<u8>)> = vec![];
    let mut cell_maps: Vec<(Cell, Ex, Option<([u8; 16], u64)>)> = vec![];
    let mut rev_maps: Vec<(Ex, Ex, Option<([u8; 16], u64)>)> = vec![];

    let mut serial_n = 1u64;
    let mut spaces: Vec<&Space> = vec![&f.root];
    spaces.extend(f.spaces.iter());
    // header cell
    let header_cell: Cell = (
        Ex { g: guid("84DEFAB9-AAA3-4A0D-A3A8-520C77AC7073"), v: 1 },
        Ex { g: guid("111E4D37-7FEF-4C4C-9C3F-7A7A3E6A8C11"), v: 1 },
    );
    let hdr_obj = Obj {
        id: Ex { g: guid("B4760B1A-FBDF-4AE3-9D08-53219D8A8D21"), v: 1 },
        jcid: 0x00020001,
        props: vec![
            (0x1C001D94, PV::Vec(w.t.guid().to_vec())),
            (0x1C001D95, PV::Vec(w.t.guid().to_vec())),
            (0x14001D93, PV::U32(w.t.u32b())),
            (0x14001D99, PV::U32(w.t.u32b())),
        ],
        blob: None,
        fixed: false,
        fault: 0,
    };
    let hdr_space = Space { cell: header_cell, revs: vec![Rev { roots: vec![], groups: vec![vec![hdr_obj]], again: vec![] }] };
    spaces.insert(0, &hdr_space);

    let all_cells: Vec<Cell> = f.spaces.iter().map(|s| s.cell).collect();
    let chaos_rids: Vec<Ex> = if c.chaos { (0..6).map(|_| ids.next()).collect() } else { vec![] };
    let wild_chains = c.chaos && w.t.chance(1, 3);
    let one_serial = ([0x5E; 16], 7);
    for (sn, s) in spaces.iter().enumerate() {
        let all_objs: Vec<Ex> = s.objs().map(|o| o.id).collect();
        let mut prev: Option<Ex> = None; // revision id of base
        let mut last_rid = NIL;
        let mut last_serial = None;
        let mut written: Vec<Vec<Vec<Ex>>> = vec![]; // group ids per revision and group
        for r in &s.revs {
            let mut gids = vec![];
            written.push(vec![]);
            for g in &r.groups {
                let before = gids.len();
                // optionally split the group further (header stays whole)
                let mut parts: Vec<Vec<&Obj>> = vec![g.iter().collect()];
                if c.regroup && sn != 0 && g.len() > 1 && w.t.chance(1, 2) {
                    let k = 1 + w.t.n(3.min(g.len()));
                    let mut ps: Vec<Vec<&Obj>> = vec![vec![]; k];
                    for o in g {
                        let i = w.t.n(k);
                        ps[i].push(o);
                    }
                    parts = ps;
                }
                for p in parts {
                    let enc: Vec<EncObj> = p
                        .iter()
                        .map(|o| {
                            let (refs, cells, data) = encode_props(&mut w, o, s.cell.1, &all_objs, &all_cells);
                            EncObj { id: o.id, jcid: o.jcid, refs, cells, data, blob: o.blob, fault: o.fault }
                        })
                        .collect();
                    let body = write_group(&mut w, &enc);
                    let gid = ids.next();
                    w.st.groups += 1;
                    gids.push(gid);
                    els.push((gid, 5, body));
                }
                written.last_mut().unwrap().push(gids[before..].to_vec());
            }
            for (r, g) in &r.again {
                gids.extend(&written[*r][*g]);
            }
            let rm_id = ids.next(); // element id of the manifest
            let form = if c.mapping_forms { w.t.n(3) } else { 0 };
            // revision id: own id mapped through the index, or the element id
            let mut rid = if form == 1 { rm_id } else { ids.next() };
            let mut base = prev.unwrap_or(NIL);
            if wild_chains {
                if w.t.flip() {
                    rid = w.t.pick(&chaos_rids);
                }
                if w.t.flip() {
                    base = w.t.pick(&chaos_rids);
                }
            }
            if form == 1 {
                w.st.alt_mapping += 1;
            }
            let serial = if c.ambiguous && w.t.chance(2, 3) {
                Some(one_serial)
            } else if c.mapping_forms && w.t.flip() {
                serial_n += 1;
                Some((w.t.guid(), serial_n))
            } else {
                w.any_serial()
            };
            if form != 1 {
                rev_maps.push((rid, rm_id, serial));
            }
            let start = w.o.len();
            w.obj(0x1A, false, 16, |w| {
                w.ex(rid);
                w.ex(base);
            });
            let mut items: Vec<(bool, usize)> = (0..r.roots.len()).map(|i| (true, i)).collect();
            items.extend((0..gids.len()).map(|i| (false, i)));
            for (root, i) in items {
                if root {
                    let (role, oid) = r.roots[i];
                    w.obj(0x0A, false, 16, |w| {
                        w.ex(Ex { g: guid("4A3717F8-1C14-49E7-9526-81D942DE1741"), v: role });
                        w.ex(oid);
                    });
                } else {
                    w.obj(0x19, false, 16, |w| w.ex(gids[i]));
                }
            }
            let body = w.o.split_off(start);
            els.push((rm_id, 4, body));
            prev = Some(rid);
            last_rid = rid;
            last_serial = if form != 1 { serial } else { None };
        }
        // cell manifest / mapping
        let form = if c.ambiguous {
            w.t.pick(&[0, 3, 3])
        } else if c.mapping_forms {
            w.t.n(4)
        } else {
            0
        };
        match form {
            // mapping id is the revision id itself (no cell manifest)
            2 => {
                w.st.alt_mapping += 1;
                let s2 = w.any_serial();
                cell_maps.push((s.cell, last_rid, s2));
            }
            // resolvable only through the serial number
            3 if last_serial.is_some() => {
                w.st.alt_mapping += 1;
                cell_maps.push((s.cell, ids.next(), last_serial));
            }
            _ => {
                let cm = ids.next();
                let start = w.o.len();
                w.obj(0x0B, false, 16, |w| w.ex(last_rid));
                let body = w.o.split_off(start);
                els.push((cm, 3, body));
                let s2 = w.any_serial();
                cell_maps.push((s.cell, cm, s2));
            }
        }
    }
    for (id, b) in &f.blobs {
        let start = w.o.len();
        w.obj(0x02, false, 0, |w| {
            w.cu(b.len() as u64);
            w.o.extend(b);
        });
        let body = w.o.split_off(start);
        els.push((*id, 0xA, body));
    }
    // storage manifest
    let sm_id = ids.next();
    {
        let start = w.o.len();
        let schema = f.schema;
        w.obj(0x0C, false, 16, |w| w.o.extend(schema));
        let mut roots = vec![
            (Ex { g: guid("1A5A319C-C26B-41AA-B9C5-9BD8C44E07D4"), v: 1 }, header_cell),
            (Ex { g: guid("84DEFAB9-AAA3-4A0D-A3A8-520C77AC7073"), v: 2 }, f.root.cell),
        ];
        if c.shuffle_elements {
            w.t.shuffle(&mut roots);
        }
        for (r, cell) in roots {
            w.obj(0x07, false, 16, |w| {
                w.ex(r);
                w.cell(cell);
            });
        }
        let body = w.o.split_off(start);
        els.push((sm_id, 2, body));
        if c.ambiguous && w.t.flip() {
            for _ in 0..1 + w.t.n(3) {
                let start = w.o.len();
                let schema = w.t.pick(&[f.schema, guid(TOC_SCHEMA), guid(SECTION_SCHEMA), [9; 16]]);
                w.obj(0x0C, false, 16, |w| w.o.extend(schema));
                let mut roots = vec![
                    (Ex { g: guid("1A5A319C-C26B-41AA-B9C5-9BD8C44E07D4"), v: 1 }, header_cell),
                    (Ex { g: guid("84DEFAB9-AAA3-4A0D-A3A8-520C77AC7073"), v: 2 }, w.t.pick(&all_cells_or(&all_cells, f.root.cell))),
                ];
                roots.truncate(w.t.pick(&[2, 2, 2, 1, 0]));
                for (r, cell) in roots {
                    w.obj(0x07, false, 16, |w| {
                        w.ex(r);
                        w.cell(cell);
                    });
                }
                let body = w.o.split_off(start);
                els.push((Ex { g: w.t.guid(), v: 1 }, 2, body));
            }
        }
    }
    // storage index
    let si_id = ids.next();
    {
        let mut ent: Vec<(u8, usize)> = (0..cell_maps.len()).map(|i| (1, i)).collect();
        ent.extend((0..rev_maps.len()).map(|i| (2, i)));
        ent.push((0, 0));
        if c.extra_elements && w.t.chance(1, 3) {
            // a cell that was never written
            w.st.extra_elements += 1;
            let osid = Ex { g: w.t.guid(), v: 77 };
            cell_maps.push(((Ex { g: w.t.guid(), v: 1 }, osid), NIL, None));
            ent.push((1, cell_maps.len() - 1));
        }
        if c.extra_elements && w.t.chance(1, 3) {
            // a cell whose manifest names no revision: an empty object space
            w.st.extra_elements += 1;
            let osid = Ex { g: w.t.guid(), v: 78 };
            let cm = Ex { g: w.t.guid(), v: 79 };
            let start = w.o.len();
            w.obj(0x0B, false, 16, |w| w.ex(NIL));
            let body = w.o.split_off(start);
            els.push((cm, 3, body));
            let s2 = w.any_serial();
            cell_maps.push(((Ex { g: w.t.guid(), v: 1 }, osid), cm, s2));
            ent.push((1, cell_maps.len() - 1));
        }
        if c.shuffle_elements {
            w.t.shuffle(&mut ent);
        }
        let copies = if c.ambiguous && w.t.flip() { 1 + w.t.n(3) } else { 0 };
        for copy in 0..=copies {
        if copy > 0 {
            // another index: some entries, some of them leading elsewhere
            for i in (0..ent.len()).rev() {
                if w.t.chance(1, 12) {
                    ent.remove(i);
                }
            }
            for i in 0..cell_maps.len() {
                if w.t.chance(1, 4) {
                    cell_maps[i].1 = cell_maps[w.t.n(cell_maps.len())].1;
                }
            }
        }
        let start = w.o.len();
        for &(k, i) in &ent {
            match k {
                0 => {
                    let s = w.any_serial();
                    w.obj(0x11, false, 16, |w| {
                        w.ex(sm_id);
                        w.serial(s);
                    })
                }
                1 => {
                    let (cell, id, s) = cell_maps[i];
                    w.obj(0x0E, false, 16, |w| {
                        w.cell(cell);
                        w.ex(id);
                        w.serial(s);
                    })
                }
                _ => {
                    let (id, m, s) = rev_maps[i];
                    w.obj(0x0D, false, 16, |w| {
                        w.ex(id);
                        w.ex(m);
                        w.serial(s);
                    })
                }
            }
        }
        let body = w.o.split_off(start);
        let id = if copy == 0 { si_id } else { Ex { g: w.t.guid(), v: 1 } };
        els.push((id, 1, body));
        }
    }
    // unreferenced elements
    if c.extra_elements {
        let n = w.t.n(4);
        for _ in 0..n {
            w.st.extra_elements += 1;
            let id = ids.next();
            let start = w.o.len();
            match w.t.n(3) {
                0 => {
                    let n = w.t.n(200);
                    let b = w.t.bytes(n);
                    w.obj(0x02, false, 0, |w| {
                        w.cu(b.len() as u64);
                        w.o.extend(&b);
                    });
                    let body = w.o.split_off(start);
                    els.push((id, 0xA, body));
                }
                1 => {
                    let g = w.t.guid();
                    w.obj(0x0B, false, 16, |w| w.ex(Ex { g, v: 5 }));
                    let body = w.o.split_off(start);
                    els.push((id, 3, body));
                }
                _ => {
                    let o = Obj { id: Ex { g: w.t.guid(), v: 1 }, jcid: 0x00060abc, props: junk_set(w.t, 1, &[], &[]), blob: None, fixed: true, fault: 0 };
                    let (refs, cells, data) = encode_props(&mut w, &o, NIL, &[], &[]);
                    let body = write_group(&mut w, &[EncObj { id: o.id, jcid: o.jcid, refs, cells, data, blob: None, fault: 0 }]);
                    els.push((id, 5, body));
                }
            }
        }
    }
    if c.fragments && w.t.chance(1, 4) {
        let n = 1 + w.t.n(2);
        for _ in 0..n {
            w.st.fragments += 1;
            let id = ids.next();
            let len = w.t.n(60);
            let data = w.t.bytes(len);
            let more = w.t.below(1000);
            let start = w.o.len();
            let fid = ids.next();
            let off = w.t.below(more + 1);
            w.obj(0x6A, false, 32, |w| {
                w.ex(fid);
                w.cu(len as u64 + more); // size of the whole element
                w.cu(off); // chunk start
                w.cu(len as u64); // chunk length
                w.o.extend(&data);
            });
            let body = w.o.split_off(start);
            els.push((id, 6, body));
        }
    }
    if c.shuffle_elements {
        w.t.shuffle(&mut els);
    }
    if c.chaos && w.t.chance(1, 3) {
        for _ in 0..1 + w.t.n(3) {
            let (i, j) = (w.t.n(els.len()), w.t.n(els.len()));
            match w.t.n(5) {
                // the same element twice, two elements of one id, or another kind
                0 => {
                    let e = els[i].clone();
                    els.insert(j, e);
                }
                1 => els[i].0 = els[j].0,
                2 => els[i].1 = w.t.below(12),
                3 => els[i].2 = els[j].2.clone(),
                _ => {
                    if els.len() > 1 {
                        els.remove(i);
                    }
                }
            }
        }
    }
    if c.ambiguous && w.t.flip() {
        // several spaces that cannot be read, each for a reason of its own
        for i in (0..els.len()).rev() {
            if matches!(els[i].1, 3..=5) && w.t.chance(1, 6) {
                match w.t.n(4) {
                    0 => {
                        els.remove(i);
                    }
                    1 => els[i].1 = w.t.pick(&[3, 4, 5, 10]),
                    2 => {
                        let k = w.t.n(els[i].2.len().max(1));
                        if let Some(b) = els[i].2.get_mut(k) {
                            *b ^= 1 << w.t.n(8);
                        }
                    }
                    _ => els[i].2 = els[w.t.n(els.len())].2.clone(),
                }
            }
        }
    }
    w.st.elements = els.len() as u32;
    let si_id = if c.ambiguous && w.t.flip() { ids.next() } else { si_id };

    // outer packaging
    let non_legacy = c.packaging && w.t.chance(1, 3);
    let revision_store = guid("109ADD3F-911B-49F5-A5D0-1791EDC8AED8");
    let package_store = guid("638DE92F-A6D4-4BC1-9A36-B3FC2511A5B7");
    let file_type = if f.schema == guid(TOC_SCHEMA) { guid("43FF2FA1-EFD9-4C76-9EE2-10EA5722765F") } else { guid("7B5C52E4-D88C-4DA7-AEB1-5378D02996D3") };
    let file_id = w.t.guid();
    w.st.non_legacy = non_legacy;
    if non_legacy {
        w.o.extend(file_type);
        w.o.extend(file_id);
        w.o.extend([0; 16]);
        w.o.extend(revision_store);
        for _ in 0..4 {
            let v = w.t.pick(&[0x2A, 0x1B]);
            w.u32(v);
        }
        for _ in 0..2 {
            let v = w.t.u64b();
            w.u64(v);
        }
        for _ in 0..2 {
            let v = w.t.u32b();
            w.u32(v);
        }
        for _ in 0..2 {
            let v = w.t.u64b();
            w.u64(v);
        }
        let v = w.t.u32b();
        w.u32(v);
        for _ in 0..4 {
            let v = w.t.u8b();
            w.u8(v);
        }
        let g = w.t.guid();
        w.o.extend(g);
        let v = w.t.u32b();
        w.u32(v);
        let a = w.t.u64b();
        w.u64(a); // hashed chunk list
        w.u32(0);
        let gap = w.t.n(200);
        let here = w.o.len() + 12;
        let end = here + gap;
        let cb = w.t.n(end.min(4000) + 1);
        w.u64((end - cb) as u64);
        w.u32(cb as u32);
        let b = w.t.bytes(gap);
        w.o.extend(b);
    }
    w.o.extend(file_type);
    w.o.extend(file_id);
    // legacy file version / format: three accepted spellings
    let spelling = if c.packaging { w.t.n(2) } else { 0 };
    if non_legacy || spelling == 0 {
        w.o.extend([0; 16]);
        w.o.extend(package_store);
    } else {
        let mut g = w.t.guid();
        g[3] |= 1;
        w.o.extend(g);
        w.o.extend(revision_store);
    }
    w.u32(0);
    let cs = w.t.guid();
    w.obj(0x7A, true, 32, |w| {
        w.ex(si_id);
        w.o.extend(cs);
    });
    w.obj(0x15, true, 16, |w| w.u8(0));
    for (id, ty, body) in els {
        let s = w.any_serial();
        w.obj(0x01, true, 16, |w| {
            w.ex(id);
            w.serial(s);
            w.cu(ty);
        });
        w.o.extend(body);
        w.end8(0x01);
    }
    w.end8(0x15);
    w.end16(0x7A);
    w.st.package_end = w.o.len();
    if c.trailing && w.t.chance(1, 3) {
        let n = w.t.n(64);
        let b = w.t.bytes(n);
        w.o.extend(b);
    }
    Encoded { bytes: w.o, stats: w.st }
}
