//! Renders what the parser reports (through its public accessors) into `V`.
use crate::v::*;
use onenote_parser::contents::*;
use onenote_parser::notebook::Notebook;
use onenote_parser::page::*;
use onenote_parser::property::common::{Color, ColorRef};
use onenote_parser::property::note_tag::NoteTagDefinition;
use onenote_parser::section::{Section, SectionEntry};

fn color(c: Color) -> V {
    V::Y(vec![c.r(), c.g(), c.b(), c.alpha()])
}
fn cref(c: ColorRef) -> V {
    match c {
        ColorRef::Auto => s("Auto"),
        ColorRef::Manual { r, g, b } => V::Y(vec![r, g, b]),
    }
}
macro_rules! align {
    ($x:expr) => {
        o($x, |a| {
            m(
                "align",
                vec![
                    ("h", e(a.alignment_horizontal())),
                    ("hm", e(a.alignment_margin_horizontal())),
                    ("v", e(a.alignment_vertical())),
                    ("vm", e(a.alignment_margin_vertical())),
                ],
            )
        })
    };
}
pub fn section(x: &Section) -> V {
    m(
        "section",
        vec![
            ("display_name", s(x.display_name())),
            ("color", o(x.color(), color)),
            ("series", l(x.page_series(), |p| m("series", vec![("pages", l(p.pages(), page))]))),
        ],
    )
}
pub fn notebook(n: &Notebook) -> V {
    m("notebook", vec![("color", o(n.color(), color)), ("entries", l(n.entries(), entry))])
}
pub fn entry(x: &SectionEntry) -> V {
    match x {
        SectionEntry::Section(x) => section(x),
        SectionEntry::SectionGroup(g) => m("group_entry", vec![("display_name", s(g.display_name())), ("entries", l(g.entries(), entry))]),
        #[allow(unreachable_patterns)]
        _ => s("?"),
    }
}
/// title_text of each page, in order.
pub fn title_texts(x: &Section) -> Vec<Option<String>> {
    x.page_series().iter().flat_map(|p| p.pages()).map(|p| p.title_text().map(|t| t.to_string())).collect()
}
pub fn page(p: &Page) -> V {
    m(
        "page",
        vec![
            ("title", o(p.title(), title)),
            ("level", V::I(p.level() as i64)),
            ("author", o(p.author(), s)),
            ("height", o(p.height(), f)),
            ("contents", l(p.contents(), page_content)),
        ],
    )
}
fn title(t: &Title) -> V {
    m(
        "title",
        vec![
            ("contents", l(t.contents(), outline)),
            ("offset_h", f(t.offset_horizontal())),
            ("offset_v", f(t.offset_vertical())),
            ("align_parent", align!(t.layout_alignment_in_parent())),
            ("align_self", align!(t.layout_alignment_self())),
        ],
    )
}
fn page_content(c: &PageContent) -> V {
    // accessor consistency: exactly the accessor of the variant yields a value
    let acc = (c.outline().is_some(), c.image().is_some(), c.embedded_file().is_some(), c.ink().is_some());
    let (v, want) = match c {
        PageContent::Outline(x) => (outline(x), (true, false, false, false)),
        PageContent::Image(x) => (image(x), (false, true, false, false)),
        PageContent::EmbeddedFile(x) => (file(x), (false, false, true, false)),
        PageContent::Ink(x) => (ink(x), (false, false, false, true)),
        PageContent::Unknown => (s("Unknown"), (false, false, false, false)),
        #[allow(unreachable_patterns)]
        _ => (s("?"), acc),
    };
    if acc == want { v } else { s("inconsistent accessors") }
}
fn outline(x: &Outline) -> V {
    m(
        "outline",
        vec![
            ("items", l(x.items(), item)),
            ("child_level", u(x.child_level())),
            ("list_spacing", o(x.list_spacing(), f)),
            ("indents", l(x.indents(), |v| f(*v))),
            ("align_parent", align!(x.alignment_in_parent())),
            ("align_self", align!(x.alignment_self())),
            ("max_h", o(x.layout_max_height(), f)),
            ("max_w", o(x.layout_max_width(), f)),
            ("reserved_w", o(x.layout_reserved_width(), f)),
            ("min_w", o(x.layout_minimum_outline_width(), f)),
            ("size_by_user", V::B(x.is_layout_size_set_by_user())),
            ("offset_h", o(x.offset_horizontal(), f)),
            ("offset_v", o(x.offset_vertical(), f)),
        ],
    )
}
fn item(x: &OutlineItem) -> V {
    match x {
        OutlineItem::Group(g) => {
            if x.element().is_some() {
                return s("inconsistent accessors");
            }
            m("group", vec![("child_level", u(g.child_level())), ("items", l(g.outlines(), item))])
        }
        OutlineItem::Element(el) => {
            if x.element().is_none() {
                return s("inconsistent accessors");
            }
            element(el)
        }
        #[allow(unreachable_patterns)]
        _ => s("?"),
    }
}
fn element(x: &OutlineElement) -> V {
    m(
        "element",
        vec![
            ("contents", l(x.contents(), content)),
            ("lists", l(x.list_contents(), list)),
            ("list_spacing", o(x.list_spacing(), f)),
            ("child_level", u(x.child_level())),
            ("items", l(x.children(), item)),
        ],
    )
}
fn content(c: &Content) -> V {
    let acc = [c.rich_text().is_some(), c.table().is_some(), c.image().is_some(), c.embedded_file().is_some(), c.ink().is_some()];
    let mut want = [false; 5];
    let v = match c {
        Content::RichText(x) => {
            want[0] = true;
            rich_text(x)
        }
        Content::Table(x) => {
            want[1] = true;
            table(x)
        }
        Content::Image(x) => {
            want[2] = true;
            image(x)
        }
        Content::EmbeddedFile(x) => {
            want[3] = true;
            file(x)
        }
        Content::Ink(x) => {
            want[4] = true;
            ink(x)
        }
        Content::Unknown => s("Unknown"),
        #[allow(unreachable_patterns)]
        _ => {
            want = acc;
            s("?")
        }
    };
    if acc == want { v } else { s("inconsistent accessors") }
}
fn list(x: &List) -> V {
    m(
        "list",
        vec![
            ("list_font", o(x.list_font(), s)),
            ("restart", o(x.list_restart(), |v| V::I(v as i64))),
            ("format", s(x.list_format().iter().collect::<String>())),
            ("bold", V::B(x.bold())),
            ("italic", V::B(x.italic())),
            ("font", o(x.font(), s)),
            ("font_size", o(x.font_size(), u)),
            ("font_color", o(x.font_color(), cref)),
        ],
    )
}
fn style(x: &ParagraphStyling) -> V {
    m(
        "style",
        vec![
            ("charset", o(x.charset(), e)),
            ("bold", V::B(x.bold())),
            ("italic", V::B(x.italic())),
            ("underline", V::B(x.underline())),
            ("strikethrough", V::B(x.strikethrough())),
            ("superscript", V::B(x.superscript())),
            ("subscript", V::B(x.subscript())),
            ("font", o(x.font(), s)),
            ("font_size", o(x.font_size(), u)),
            ("font_color", o(x.font_color(), cref)),
            ("highlight", o(x.highlight(), cref)),
            ("next_style", o(x.next_style(), s)),
            ("style_id", o(x.style_id(), s)),
            ("alignment", o(x.paragraph_alignment(), e)),
            ("space_before", o(x.paragraph_space_before(), f)),
            ("space_after", o(x.paragraph_space_after(), f)),
            ("line_spacing", o(x.paragraph_line_spacing_exact(), f)),
            ("language", o(x.language_code(), u)),
            ("math", V::B(x.math_formatting())),
            ("hyperlink", V::B(x.hyperlink())),
        ],
    )
}
fn rich_text(x: &RichText) -> V {
    m(
        "richtext",
        vec![
            ("text", s(x.text())),
            ("runs", l(x.text_run_formatting(), style)),
            ("run_ends", l(x.text_run_indices(), |i| u(*i))),
            ("style", style(x.paragraph_style())),
            ("space_before", f(x.paragraph_space_before())),
            ("space_after", f(x.paragraph_space_after())),
            ("line_spacing", o(x.paragraph_line_spacing_exact(), f)),
            ("alignment", e(x.paragraph_alignment())),
            ("align_parent", align!(x.layout_alignment_in_parent())),
            ("align_self", align!(x.layout_alignment_self())),
            ("note_tags", l(x.note_tags(), tag)),
            ("embedded", l(x.embedded_objects(), embedded)),
            ("math", l(x.math_inline_objects(), math)),
        ],
    )
}
fn math(x: &MathInlineObject) -> V {
    m(
        "math",
        vec![
            ("type", e(x.object_type())),
            ("args", u(x.arg_count())),
            ("column", o(x.column(), u)),
            ("align", o(x.align(), u)),
            ("char", o(x.char(), |c| s(c.to_string()))),
            ("char1", o(x.char1(), |c| s(c.to_string()))),
            ("char2", o(x.char2(), |c| s(c.to_string()))),
        ],
    )
}
fn embedded(x: &EmbeddedObject) -> V {
    match x {
        EmbeddedObject::Ink(i) => m("ink_word", vec![("ink", ink(i.ink())), ("bbox", o(i.bounding_box(), |b| bbox(b)))]),
        EmbeddedObject::InkSpace(p) => m("ink_space", vec![("height", f(p.height())), ("width", f(p.width()))]),
        EmbeddedObject::InkLineBreak => s("InkLineBreak"),
        #[allow(unreachable_patterns)]
        _ => s("?"),
    }
}
fn bbox(b: &InkBoundingBox) -> V {
    m("bbox", vec![("x", f(b.x())), ("y", f(b.y())), ("height", f(b.height())), ("width", f(b.width()))])
}
fn ink(x: &Ink) -> V {
    m(
        "ink",
        vec![
            (
                "strokes",
                l(x.ink_strokes(), |k| {
                    m(
                        "stroke",
                        vec![
                            ("path", l(k.path(), |p| V::L(vec![f(p.x()), f(p.y())]))),
                            ("pen_tip", o(k.pen_tip(), u)),
                            ("transparency", o(k.transparency(), u)),
                            ("height", f(k.height())),
                            ("width", f(k.width())),
                            ("color", o(k.color(), u)),
                        ],
                    )
                }),
            ),
            ("bbox", o(x.bounding_box(), |b| bbox(&b))),
            ("offset_h", o(x.offset_horizontal(), f)),
            ("offset_v", o(x.offset_vertical(), f)),
        ],
    )
}
fn tag(t: &NoteTag) -> V {
    m(
        "tag",
        vec![
            ("completed_at", o(t.completed_at(), e)),
            ("completed", V::B(t.item_status().completed())),
            ("disabled", V::B(t.item_status().disabled())),
            ("task_tag", V::B(t.item_status().task_tag())),
            ("definition", o(t.definition(), definition)),
        ],
    )
}
fn definition(d: &NoteTagDefinition) -> V {
    let p = d.status();
    let bits = [
        p.has_label(),
        p.has_font_color(),
        p.has_highlight_color(),
        p.has_icon(),
        p.due_today(),
        p.due_tomorrow(),
        p.due_this_week(),
        p.due_next_week(),
        p.due_later(),
        p.due_custom(),
    ];
    m(
        "definition",
        vec![
            ("label", s(d.label())),
            ("status", l(bits, V::B)),
            ("shape", e(d.shape())),
            ("checkable", V::B(d.shape().is_checkable())),
            ("highlight", o(d.highlight_color(), cref)),
            ("text_color", o(d.text_color(), cref)),
            ("item_type", e(d.action_item_type())),
        ],
    )
}
fn image(x: &Image) -> V {
    m(
        "image",
        vec![
            ("data", o(x.data(), |d| V::Y(d.to_vec()))),
            ("extension", o(x.extension(), s)),
            ("max_w", o(x.layout_max_width(), f)),
            ("max_h", o(x.layout_max_height(), f)),
            ("alt_text", o(x.alt_text(), s)),
            ("align_parent", align!(x.layout_alignment_in_parent())),
            ("align_self", align!(x.layout_alignment_self())),
            ("filename", o(x.image_filename(), s)),
            ("page_number", o(x.displayed_page_number(), u)),
            ("text", o(x.text(), s)),
            ("text_lang", o(x.text_language_code(), u)),
            ("picture_w", o(x.picture_width(), f)),
            ("picture_h", o(x.picture_height(), f)),
            ("link", o(x.hyperlink_url(), s)),
            ("offset_h", o(x.offset_horizontal(), f)),
            ("offset_v", o(x.offset_vertical(), f)),
            ("background", V::B(x.is_background())),
            ("note_tags", l(x.note_tags(), tag)),
            ("embeds", l(x.embeds(), |i| m("iframe", vec![("type", o(i.embed_type(), u)), ("url", s(i.source_url()))]))),
        ],
    )
}
fn file(x: &EmbeddedFile) -> V {
    m(
        "file",
        vec![
            ("filename", s(x.filename())),
            ("type", e(x.file_type())),
            ("data", V::Y(x.data().to_vec())),
            ("max_w", o(x.layout_max_width(), f)),
            ("max_h", o(x.layout_max_height(), f)),
            ("offset_h", o(x.offset_horizontal(), f)),
            ("offset_v", o(x.offset_vertical(), f)),
            ("note_tags", l(x.note_tags(), tag)),
        ],
    )
}
fn table(x: &Table) -> V {
    m(
        "table",
        vec![
            ("rows", u(x.rows())),
            ("cols", u(x.cols())),
            (
                "contents",
                l(x.contents(), |r| {
                    m(
                        "row",
                        vec![(
                            "cells",
                            l(r.contents(), |c| {
                                m(
                                    "cell",
                                    vec![
                                        ("contents", l(c.contents(), element)),
                                        ("max_w", o(c.layout_max_width(), f)),
                                        ("indents", l(c.outline_indent_distance().value(), |v| f(*v))),
                                        ("background", o(c.background_color(), color)),
                                    ],
                                )
                            }),
                        )],
                    )
                }),
            ),
            ("cols_locked", V::Y(x.cols_locked().to_vec())),
            ("col_widths", l(x.col_widths(), |v| f(*v))),
            ("borders", V::B(x.borders_visible())),
            ("align_parent", align!(x.layout_alignment_in_parent())),
            ("align_self", align!(x.layout_alignment_self())),
            ("note_tags", l(x.note_tags(), tag)),
        ],
    )
}
