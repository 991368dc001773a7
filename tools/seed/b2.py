P='src/one/property/'; PS='src/one/property_set/'; ON='src/onenote/'; F='src/fsshttpb/'; OS='src/onestore/'
MEM='''use onenote_parser::Parser;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
struct A;
static TOTAL: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        TOTAL.fetch_add(l.size(), SeqCst);
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        unsafe { System.dealloc(p, l) }
    }
}
#[global_allocator]
static G: A = A;
fn main() {
    let d = std::env::args().nth(1).unwrap();
    let b = std::fs::read(format!("{d}/case.one")).unwrap();
    // damage the file in every place: no single damaged byte may make the parser ask for much
    let mut worst = (0, 0);
    for i in 0..b.len() {
        let mut c = b.clone();
        for x in [0xff, 0x7f] {
            c[i] = x;
            let before = TOTAL.load(SeqCst);
            let _ = Parser::new().parse_section_buffer(&c, std::path::Path::new("x.one"));
            worst = worst.max((TOTAL.load(SeqCst) - before, i));
        }
    }
    println!("{} bytes for a file of {} (byte {})", worst.0, b.len(), worst.1);
    assert!(worst.0 < 8 << 20);
}
'''
PANIC='''use onenote_parser::Parser;
fn main() {
    // every damaged or shortened form of the file is read or refused
    let d = std::env::args().nth(1).unwrap();
    let b = std::fs::read(format!("{d}/case.one")).unwrap();
    std::panic::set_hook(Box::new(|_| {}));
    let mut bad = vec![];
    for i in 0..b.len() {
        let mut tries = vec![b[..i].to_vec()];
        for x in [0, 1, 2, 0x7f, 0x80, 0xff, b[i].wrapping_add(1), b[i].wrapping_sub(1), b[i].wrapping_add(4), b[i].wrapping_sub(4)] {
            let mut c = b.clone();
            c[i] = x;
            tries.push(c);
            let mut c = b.clone();
            for j in i..(i + 8).min(b.len()) {
                c[j] = x;
            }
            tries.push(c);
        }
        for c in tries {
            if std::panic::catch_unwind(|| Parser::new().parse_section_buffer(&c, std::path::Path::new("x.one")).is_ok()).is_err() {
                bad.push(i);
            }
        }
    }
    println!("panics at {bad:?}");
    assert!(bad.is_empty());
}
'''
BUGS=[
dict(id='c01-fcr-overflow',prop='C01',needs='a revision-store header whose transaction log ends beyond 2^64',breaks='The end of the transaction log is added up without an overflow check.',corpora=['any'],crash=True,
 edits=[(F+'packaging.rs','''        self.stp.checked_add(self.cb as u64).ok_or_else(|| {
            ErrorKind::MalformedOneStoreData("file chunk reference overflow".into()).into()
        })''','''        Ok(self.stp + self.cb as u64)''')]),
dict(id='c01-indent-chunk',prop='C01',needs='an indent list whose count promises more distances than follow',breaks='Indent distances are sliced out of the value without a length check.',corpora=['any','doc'],crash=True,
 edits=[(P+'outline_indent_distance.rs','''        let distances = (0..count)
            .map(|_| reader.get_f32())
            .collect::<Result<Vec<_>>>()?;
''','''        let distances = reader.bytes()[..count as usize * 4]
            .chunks_exact(4)
            .map(|v| f32::from_le_bytes([v[0], v[1], v[2], v[3]]))
            .collect();
''')]),
dict(id='c01-ink-ragged',prop='C01',needs='a stroke whose properties have no dimensions at all',breaks='The dimension count is used as a divisor before the dimensions are looked up.',corpora=['any','doc'],crash=True,
 edits=[(ON+'ink.rs','''    // Find dimension indexes
''','''    // Find dimensions data
    let dimension_offset = data.len() / props.dimensions.len();

    // Find dimension indexes
'''),(ON+'ink.rs','''    // Find dimensions data
    let dimension_offset = data.len() / props.dimensions.len();

    let start_x''','''    let start_x''')]),
dict(id='c01-compact-short',prop='C01',needs='a file that ends inside a seven-byte compact number',breaks='The length check of the seven-byte compact number is one short.',corpora=['any'],crash=True,
 edits=[(F+'data/compact_u64.rs','if reader.remaining() < 7 {','if reader.remaining() < 6 {')]),
dict(id='c02-ids-prealloc',prop='C02',needs='an object whose stream header promises far more ids than follow',breaks='Space for all promised object ids is set aside before any is read.',rust=MEM,pick='doc',
 edits=[(OS+'types/object_prop_set.rs','''        let object_ids = (0..header.count)
            .map(|_| CompactId::parse(reader))
            .collect::<Result<Vec<_>>>()?;

        let mut object_space_ids''','''        let mut object_ids = Vec::with_capacity(header.count as usize);
        for _ in 0..header.count {
            object_ids.push(CompactId::parse(reader)?);
        }

        let mut object_space_ids''')]),
dict(id='c04-parse32-short',prop='C04',needs='a length of 0x7fff or more in a header that is not compound',breaks='Extended lengths are only read for compound headers.',
 edits=[(F+'data/stream_object.rs','if length == 0x7fff {','if length == 0x7fff && compound {')],corpora=['wild','doc','any']),
dict(id='c04-group-header-16',prop='C04',needs='an object group whose declaration block has a 32-bit header',breaks='Declaration blocks of object groups are only read with 16-bit headers.',
 edits=[(F+'data_element/object_group.rs','ObjectHeader::try_parse(reader, ObjectType::ObjectGroupDeclaration)?;','ObjectHeader::try_parse_16(reader, ObjectType::ObjectGroupDeclaration)?;')],corpora=['wild','any']),
dict(id='c04-exguid-17',prop='C04',needs='an extended guid in its 17-bit form with the top bit of its number set',breaks='The 17-bit form of extended guids loses the top bit of the number.',
 edits=[(F+'data/exguid.rs','let value = (reader.get_u16()? as u32) << 1 | (data >> 7) as u32;','let value = (reader.get_u16()? << 1) as u32 | (data >> 7) as u32;')],corpora=['wild','doc']),
dict(id='c05-series-cap',prop='C05',needs='a page series with more than 255 pages',breaks='Counts of page references are cut to a byte.',
 edits=[(P+'object_space_reference.rs','.and_then(|ids| ids.get(..count as usize))','.and_then(|ids| ids.get(..count as u8 as usize))')],gen='pages'),
dict(id='c06-text-cap',prop='C06',needs='a text longer than 4096 characters',breaks='Texts are cut at 8192 bytes.',
 edits=[('src/utils.rs','            .chunks_exact(2)\n','            .chunks_exact(2)\n            .take(4096)\n')],gen='text'),
dict(id='c06-style-embed-skip',prop='C06',needs='a paragraph with an empty text and two or more runs',breaks='Run styles of paragraphs without text are dropped after the first.',
 edits=[(ON+'rich_text.rs','let styles = styles_data.into_iter().map(parse_style).collect_vec();','''let keep = match data.text.as_deref() {
        Some("") => data.text_run_indices.len().min(1),
        _ => usize::MAX,
    };
    let styles = styles_data
        .into_iter()
        .take(keep)
        .map(parse_style)
        .collect_vec();''')]),
dict(id='c13-chain-limit',prop='C13',needs='a chain of more than 48 revisions in which something is only stored in an old one',breaks='Base revisions are followed for 48 steps only.',
 edits=[(OS+'object_space.rs','            rev_id = base_rev_id;','            rev_id = base_rev_id.filter(|_| visited.len() < 48);')],corpora=['wild','any']),
dict(id='c13-group-zip',prop='C13',needs='an older revision that stores an object which the newer one stores too, in the same group id order',breaks='Groups of base revisions replace what the newer revision stores.',
 edits=[(OS+'revision.rs','''            if objects.contains_key(&object_id) {
                continue;
            }

''','''            if objects.contains_key(&object_id) && group.declarations.len() > 2 {
                continue;
            }

''')],corpora=['wild','any','doc']),
dict(id='c14-same-compact',prop='C14',needs='two references in one object with the same compact id that stand for different objects',breaks='The first target of a compact id is used for all its uses.',
 edits=[(OS+'mapping_table.rs','''            // Only one entry: return it!
            if let [(_, id)] = &**entries {
                return Some(*id);
            }
''','''            // No ambiguity: return it!
            if let [(first, id), rest @ ..] = &**entries
                && rest.iter().all(|(i, _)| *i != index || *first == index)
            {
                return Some(*id);
            }
'''),(OS+'mapping_table.rs','if let Some((_, id)) = entries.iter().find(|(i, _)| *i == index) {','if let Some((_, id)) = entries.iter().find(|(i, _)| *i <= index) {')],corpora=['wild','any','doc']),
dict(id='c14-ragged-sets',prop='C14',needs='an array of property sets of which some hold a reference and others do not, stored before another reference',breaks='Every set of an array is taken to hold as many references as the first.',
 edits=[(P+'object_reference.rs','''                PropertyValue::PropertyValues(_, sets) => sets
                    .iter()
                    .map(|set| Self::count_references(set.values()))
                    .sum(),''','''                PropertyValue::PropertyValues(_, sets) => sets
                    .first()
                    .map(|set| Self::count_references(set.values()) * sets.len())
                    .unwrap_or_default(),''')],corpora=['doc','wild']),
dict(id='c15-unique',prop='C15',needs='an entry listed twice with another one in between',breaks='Entries listed again later are dropped.',corpora=['book'],
 edits=[(ON+'notebook.rs','.dedup_by(|(_, a), (_, b)| a == b)','.unique_by(|(_, name)| name.clone())')]),
dict(id='c15-unstable-order',prop='C15',needs='entries with equal order numbers',breaks='Entries with equal order numbers are sorted by name.',corpora=['book'],
 edits=[(ON+'notebook.rs','.sorted_by_key(|(ordering_id, _)| *ordering_id)','.sorted_by_key(|(ordering_id, name)| (*ordering_id, name.len()))')]),
dict(id='c15-order-signed',prop='C15',needs='order numbers on both sides of 2^31',breaks='Order numbers are compared as signed numbers.',corpora=['book'],
 edits=[(ON+'notebook.rs','.sorted_by_key(|(ordering_id, _)| *ordering_id)','.sorted_by_key(|(ordering_id, _)| *ordering_id as i32)')]),
dict(id='c15-bin-name',prop='C15',needs='an entry whose name ends in that of the recycle bin',breaks='Entries whose name only ends in that of the recycle bin are left out.',corpora=['book'],
 edits=[(ON+'mod.rs','.filter(|p| !p.ends_with("OneNote_RecycleBin"))','.filter(|p| !p.to_string_lossy().ends_with("OneNote_RecycleBin"))')]),
dict(id='c15-group-broken',prop='C15',needs='a section group without a table of contents',breaks='Section groups without a table of contents are left out.',corpora=['book'],
 edits=[(ON+'mod.rs','''            .filter(|p| p.exists())
''','''            .filter(|p| p.exists())
            .filter(|p| !p.is_dir() || p.read_dir().is_ok_and(|mut d| d.next().is_some()))
''')]),
dict(id='c18-skip-broken-page',prop='C18',needs='a page whose space is missing from the file',breaks='Pages whose space is missing are left out.',corpora=['any'],
 edits=[(ON+'page_series.rs','''        .map(|page_space_id| {
            store
                .object_space(page_space_id)
                .ok_or_else(|| ErrorKind::MalformedOneNoteData("page space is missing".into()))
        })
        .map(|page_space| parse_page(page_space?))''','''        .filter_map(|page_space_id| store.object_space(page_space_id))
        .map(parse_page)''')]),
dict(id='c18-tag-definition',prop='C18',needs='a note tag whose definition object is missing',breaks='Note tags with a missing definition are reported without one.',corpora=['any'],
 edits=[(ON+'note_tag.rs','''.ok_or_else(|| ErrorKind::MalformedOneNoteData("note tag definition is missing".into()))''','''.ok_or(())''')]),
dict(id='c18-blob',prop='C18',needs='an object whose stored binary is missing from the file',breaks='A missing binary is taken for an object without one.',corpora=['any'],
 edits=[(OS+'object.rs','''        let file_data = Object::find_blob_id(object_id, objects)?
            .map(|blob_id| {
                packaging
                    .data_element_package
                    .find_blob(blob_id)
                    .ok_or_else(|| ErrorKind::MalformedOneStoreData("blob not found".into()))
            })
            .transpose()?;''','''        let file_data = Object::find_blob_id(object_id, objects)?
            .and_then(|blob_id| packaging.data_element_package.find_blob(blob_id));''')]),
dict(id='c20-schema',prop='C20',needs='a section whose schema is that of a table of contents',breaks='Sections are told from tables of contents by the file type alone.',corpora=['any'],
 edits=[(ON+'mod.rs','''        let store = parse_store(&packaging)?;

        if store.schema_guid() != guid!("1F937CB4-B26F-445F-B9F8-17E20160E461") {
            return Err(ErrorKind::NotASectionFile {
                file: path.''','''        let store = parse_store(&packaging)?;

        if packaging.file_type == guid!("43FF2FA1-EFD9-4C76-9EE2-10EA5722765F")
            || store.schema_guid() == guid!("E4DBFD38-E5C7-408B-A8A1-0E7B421E1F5F")
                && packaging.file_type != guid!("7B5C52E4-D88C-4DA7-AEB1-5378D02996D3")
        {
            return Err(ErrorKind::NotASectionFile {
                file: path.''')]),
dict(id='c21-any-element',prop='C21',needs='a page whose first outline element is not text but whose second is',breaks='The title text is taken from the first element with text, not the first element.',rust='''use onenote_parser::Parser;
use onenote_parser::contents::Outline;
fn first(o: &Outline) -> Option<&str> {
    o.items().first()?.element()?.contents().first()?.rich_text().map(|t| t.text()).filter(|t| !t.is_empty())
}
fn main() {
    let d = std::env::args().nth(1).unwrap();
    let mut n = 0;
    for f in std::fs::read_dir(d).unwrap() {
        let f = f.unwrap().path();
        if f.extension().is_none_or(|e| e != "one") { continue; }
        let s = Parser::new().parse_section(&f).unwrap();
        for p in s.page_series().iter().flat_map(|s| s.pages()) {
            let want = p.title().and_then(|t| t.contents().first()).and_then(first)
                .or_else(|| p.contents().iter().filter_map(|c| c.outline()).filter_map(first).next());
            assert_eq!(want, p.title_text());
            n += 1;
        }
    }
    assert!(n > 0);
}
''',pickall='doc',**{'from':150},
 edits=[(ON+'page.rs','''            .and_then(|outline_element| outline_element.contents.first())
            .and_then(|content| content.rich_text())
''','''            .and_then(|outline_element| {
                outline_element
                    .contents
                    .iter()
                    .find_map(|content| content.rich_text())
            })
''')]),
dict(id='c24-strip-suffix',prop='C24',needs='a section file without the usual extension but a name with .one in it',breaks='Everything from the first ".one" of a name is cut off.',corpora=['book'],
 edits=[(ON+'section.rs','''        .trim_end_matches(".one")
        .to_string();''','''        .split(".one")
        .next()
        .unwrap_or_default()
        .to_string();''')]),
dict(id='c24-stored-name',prop='C24',needs='a section that stores an empty display name',breaks='An empty stored display name falls back to the file name.',
 edits=[(ON+'section.rs','''        .display_name
        .unwrap_or(filename)''','''        .display_name
        .filter(|name| !name.is_empty())
        .unwrap_or(filename)''')],corpora=['doc','wild']),
dict(id='c25-lossy',prop='C25',needs='a text with an unpaired surrogate',breaks='Broken UTF-16 is replaced rather than reported.',corpora=['any'],
 edits=[('src/utils.rs','''        value.to_string().map_err(|err| {
            ErrorKind::MalformedOneNoteData(
                format!("UTF-16 string conversion failed: {err}").into(),
            )
            .into()
        })''','''        if value.len() > 1 {
            return Ok(value.to_string_lossy());
        }

        value.to_string().map_err(|err| {
            ErrorKind::MalformedOneNoteData(
                format!("UTF-16 string conversion failed: {err}").into(),
            )
            .into()
        })''')]),
]
