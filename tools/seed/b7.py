exec(open('/verif/tools/seed/b4.py').read().split('BUGS=[')[0])
S='src/'
C7=['doc7','doc','wild']
BUGS=[
dict(id='c05-page-again',prop='C05',needs='a page series that lists one page twice',breaks='A page listed again in its series is left out.',
 edits=[(ON+'page_series.rs','''    let pages = data
        .page_spaces
        .into_iter()
''','''    let pages = data
        .page_spaces
        .into_iter()
        .unique()
'''),(ON+'page_series.rs','use crate::onestore::OneStore;\n','use crate::onestore::OneStore;\nuse itertools::Itertools;\n')]),
dict(id='c11-item-again',prop='C11',needs='an outline that lists one element twice in a row',breaks='Equal neighbours in an outline are merged.',
 edits=[(ON+'outline.rs','''    let items = data
        .children
        .into_iter()
        .map(|item_id| parse_outline_item(item_id, space))''','''    let items = data
        .children
        .into_iter()
        .dedup()
        .map(|item_id| parse_outline_item(item_id, space))'''),(ON+'outline.rs','use crate::onestore::object_space::ObjectSpace;\n','use crate::onestore::object_space::ObjectSpace;\nuse itertools::Itertools;\n')]),
dict(id='c10-stroke-again',prop='C10',needs='a drawing that lists one stroke twice',breaks='A stroke listed again is dropped.',
 edits=[(ON+'ink.rs','''        .iter()
        .copied()
        .map(|ink_stroke_id|''','''        .iter()
        .copied()
        .unique()
        .map(|ink_stroke_id|'''),(ON+'ink.rs','use crate::onestore::object_space::ObjectSpace;\n','use crate::onestore::object_space::ObjectSpace;\nuse itertools::Itertools;\n')]),
dict(id='c13-empty-copy',prop='C13',needs='an object whose newest copy has no properties at all',breaks='An older copy of an object replaces a newer one without properties.',corpora=['any','doc','wild'],
 edits=[(OS+'revision.rs','''            if objects.contains_key(&object_id) {
                continue;
            }
''','''            let known = |o: &Object| o.props().properties().values().next().is_some();
            if objects.get(&object_id).is_some_and(known) {
                continue;
            }
''')]),
dict(id='c02-array-cap',prop='C02',needs='an identifier array that promises many more entries than follow',breaks='Room for a million identifiers is reserved on the word of the stored count.',novia=1,
 rust="""use onenote_parser::Parser;
use std::alloc::*;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
struct A;
static MAX: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { MAX.fetch_max(l.size(), Relaxed); unsafe { System.alloc(l) } }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { unsafe { System.dealloc(p, l) } }
}
#[global_allocator]
static G: A = A;
fn main() {
    let d = std::env::args().nth(1).unwrap();
    let b = std::fs::read(format!("{d}/case.one")).unwrap();
    MAX.store(0, Relaxed);
    let _ = Parser::new().parse_section_buffer(&b, std::path::Path::new("a.one"));
    let m = MAX.load(Relaxed);
    println!("{} bytes, largest block {m}", b.len());
    assert!(m < 1000 * b.len());
}
""",via=1,
 edits=[(F+'data/exguid.rs','''        let mut values = vec![];

        let count = CompactU64::parse(reader)?.value();
''','''        let count = CompactU64::parse(reader)?.value();
        let mut values = Vec::with_capacity(count.min(1 << 20) as usize);

''')]),
dict(id='c28-style-cache',prop='C28',needs='two pages that use the same identifier for different styles',breaks='Base styles of paragraphs are remembered by identifier while a section is read.',
 edits=[(ON+'rich_text.rs','''    let paragraph_style = parse_style(paragraph_style_data);
''','''    let paragraph_style = STYLES.with_borrow_mut(|styles| {
        styles
            .entry(data.paragraph_style)
            .or_insert_with(|| parse_style(paragraph_style_data))
            .clone()
    });
'''),(ON+'rich_text.rs','''pub(crate) fn parse_rich_text(''','''thread_local! {
    /// The styles of the section that's being read.
    pub(crate) static STYLES: std::cell::RefCell<std::collections::HashMap<ExGuid, ParagraphStyling>> = Default::default();
}

pub(crate) fn parse_rich_text('''),(ON+'section.rs','''    let page_series = content
''','''    crate::onenote::rich_text::STYLES.with_borrow_mut(|styles| styles.clear());

    let page_series = content
''')]),
dict(id='c06-empty-unicode',prop='C06',needs='a paragraph with an empty Unicode text and an 8-bit text',breaks='An empty Unicode text gives way to the 8-bit form.',
 edits=[(PS+'rich_text_node.rs','''        None => simple::parse_ascii(PropertyType::TextExtendedAscii, object)?,
        text => text,
''','''        Some(text) if !text.is_empty() => Some(text),
        text => simple::parse_ascii(PropertyType::TextExtendedAscii, object)?.or(text),
''')]),
dict(id='c08-white-cell',prop='C08',needs='a cell with a fully white background',breaks='White cell backgrounds are reported as none.',
 edits=[(PS+'table_cell_node.rs','''    let background_color = Color::parse(PropertyType::CellBackgroundColor, object)?;
''','''    let background_color = Color::parse(PropertyType::CellBackgroundColor, object)?
        .filter(|color| (color.r(), color.g(), color.b()) != (255, 255, 255));
''')]),
dict(id='c10-linebreak-ref',prop='C10',needs='handwriting with a line break before an ink word',breaks='A line break in handwriting takes up an ink object.',
 edits=[(ON+'rich_text.rs','''            Some(INK_END_OF_LINE_BLOB) => {
                objects_without_ref += 1;
                Ok(Some(EmbeddedObject::InkLineBreak))
            }''','''            Some(INK_END_OF_LINE_BLOB) => Ok(Some(EmbeddedObject::InkLineBreak)),''')]),
dict(id='c04-metadata-frequency',prop='C04',needs='a metadata block that says the change frequency is unknown (0)',breaks='Metadata without a known change frequency is refused.',
 edits=[(F+'data_element/object_group.rs','''            x if x == ObjectChangeFrequency::Unknown as u64 => ObjectChangeFrequency::Unknown,
''','')]),
dict(id='c18-number-list',prop='C18',needs='a picture whose container is of another kind',breaks='The kind of picture containers is not checked.',
 edits=[(PS+'picture_container.rs','''    if object.id() != PropertySetId::PictureContainer.as_jcid()
        && object.id() != PropertySetId::XpsContainer.as_jcid()
    {
''','''    if PropertySetId::from_jcid(object.id()).is_none() {
''')]),
dict(id='c21-skip-empty-first',prop='C21',needs='an outline whose first element has no content but whose second has text',breaks='An empty first element of an outline is skipped when looking for the title.',
 via=1,rust=TT,edits=[(ON+'page.rs','''            .items
            .first()
            .and_then(|outline_item| outline_item.element())
''','''            .items
            .iter()
            .filter_map(|outline_item| outline_item.element())
            .find(|outline_element| !outline_element.contents.is_empty())
''')]),
dict(id='c14-space-zip',prop='C14',needs='an object with references to pages and to contexts whose cell list mixes both',breaks='Object space references are taken by position among all cells.',
 edits=[(OS+'object.rs','''        let object_space_refs: Vec<_> = referenced_cells
            .iter()
            .filter(|id| id.1 != object_space_id)
''','''        let object_space_refs: Vec<_> = referenced_cells
            .iter()
            .skip_while(|id| id.1 == object_space_id)
''')]),
]
