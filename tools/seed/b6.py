exec(open('/verif/tools/seed/b4.py').read().split('BUGS=[')[0])
S='src/'
BUGS=[
dict(id='c10-points-u16',prop='C10',needs='a stroke of 65536 or more points per dimension',breaks='Points of very long strokes are counted in 16 bits.',via=1,
 edits=[(ON+'ink.rs','let dimension_offset = data.len() / props.dimensions.len();','let dimension_offset = usize::from((data.len() / props.dimensions.len()) as u16);')]),
dict(id='c10-bbox-nan',prop='C10',needs='a drawing without strokes that has a bounding box',breaks='Drawings without strokes lose their bounding box.',
 edits=[(ON+'ink.rs','''    let bounding_box = ink_data
        .bounding_box
        .map(''','''    let bounding_box = ink_data
        .bounding_box
        .filter(|_| !ink_data.strokes.is_empty())
        .map(''')]),
dict(id='c10-negative-zero-sign',prop='C10',needs='a coordinate of exactly minus 64 or another small negative odd code',breaks='A delta with the sign bit set and magnitude zero counts as minus one.',via=1,
 edits=[(S+'shared/multi_byte.rs','''            if value & 0x1 == 0x1 {
                -shifted''','''            if value & 0x1 == 0x1 {
                -shifted.max(1)''')]),
dict(id='c12-arg-none',prop='C12',needs='a math object whose first operator character is not stored but whose second is',breaks='The third operator character is dropped when the second is missing.',
 edits=[(ON+'math_inline_object.rs','        char2: data.char2,\n    })','        char2: data.char1.and(data.char2),\n    })')]),
dict(id='c18-charset-unknown',prop='C18',needs='a style with a character set code outside the defined range',breaks='Unknown character sets are reported as absent.',via=1,
 edits=[(P+'charset.rs','''            _ => {
                return Err(ErrorKind::MalformedOneNoteFileData(
                    format!("invalid charset: {}", value).into(),
                )
                .into());
            }''','''            _ => return Ok(None),''')]),
dict(id='c20-late',prop='C20',needs='a section presented as a notebook, whose content root is not a table of contents',breaks='The kind is checked after the content, so the dedicated error is lost.',
 rust=PRE+'''
fn main() {
    let (d, _) = setup();
    let r = Parser::new().parse_section_buffer(&fs::read(d.join("t.onetoc2")).unwrap(), Path::new("a.one"));
    let m = r.err().unwrap().to_string();
    println!("{m}");
    assert!(m.starts_with("Not a section file"), "{m}");
}
''',files={'t.onetoc2':T+'a.onetoc2'},
 edits=[(ON+'mod.rs','''        let store = parse_store(&packaging)?;

        if store.schema_guid() != guid!("1F937CB4-B26F-445F-B9F8-17E20160E461") {
            return Err(ErrorKind::NotASectionFile {
                file: file_name.to_string_lossy().into_owned(),
            }
            .into());
        }

        section::parse_section(store, file_name.to_string_lossy().into_owned())
''','''        let store = parse_store(&packaging)?;

        let kind = store.schema_guid();
        let section = section::parse_section(store, file_name.to_string_lossy().into_owned())?;

        if kind != guid!("1F937CB4-B26F-445F-B9F8-17E20160E461") {
            return Err(ErrorKind::NotASectionFile {
                file: file_name.to_string_lossy().into_owned(),
            }
            .into());
        }

        Ok(section)
''')]),
dict(id='c21-first-outline',prop='C21',needs='a page without title text whose first outline has no leading text but a later one has',breaks='Only the first outline of the page is looked at.',rust=TT,via=1,
 edits=[(ON+'page.rs','''                    .filter_map(Self::outline_text)
                    .next()''','''                    .next()
                    .and_then(Self::outline_text)''')]),
dict(id='c21-title-offset',prop='C21',needs='a title whose first paragraph is an empty text and whose second has text',breaks='Empty contents in front of the text are skipped.',rust=TT,via=1,
 edits=[(ON+'page.rs','''            .and_then(|outline_element| outline_element.contents.first())
            .and_then(|content| content.rich_text())
            .and_then(|text| Some(&*text.text).filter(|s| !s.is_empty()))''','''            .and_then(|outline_element| {
                outline_element
                    .contents
                    .iter()
                    .filter_map(|content| content.rich_text())
                    .map(|text| &*text.text)
                    .find(|s| !s.is_empty())
            })''')]),
dict(id='c25-inner-nul',prop='C25',needs='a stored text with characters behind its terminator',breaks='Terminators inside a text are dropped and what follows is kept.',
 edits=[(S+'utils.rs','''            .map(|v| u16::from_le_bytes([v[0], v[1]]))
            .collect();
''','''            .map(|v| u16::from_le_bytes([v[0], v[1]]))
            .filter(|v| *v != 0)
            .collect();
''')]),
dict(id='c27-suffix',prop='C27',needs='a section file whose whole name ends in onetoc2 without a dot in front',breaks='The kind is told by the end of the path rather than its extension.',
 sh='''#!/bin/sh
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -r "$t"' EXIT
cp "$d/a.one" "$t/onetoc2"
./target/debug/onenote-parse "$t/onetoc2" > /dev/null 2>&1
''',files={'a.one':S1},
 edits=[(S+'bin/onenote-parse.rs','path.extension() == Some(&OsString::from("onetoc2".to_string()))','path.to_string_lossy().ends_with("onetoc2")'),(S+'bin/onenote-parse.rs','use std::ffi::OsString;\n','')]),
dict(id='c27-first-line',prop='C27',needs='a path that does not parse',breaks='A heading of the structure is printed before the parse has succeeded.',
 sh='''#!/bin/sh
t=$(mktemp -d) || exit 2
trap 'rm -r "$t"' EXIT
echo > "$t/a.one"
./target/debug/onenote-parse "$t/a.one" > "$t/out" 2> /dev/null && exit 1
! [ -s "$t/out" ]
''',
 edits=[(S+'bin/onenote-parse.rs','''        let section = parser.parse_section(&path).unwrap();
        println!("{:#?}", section);''','''        match parser.parse_section(&path) {
            Ok(section) => println!("{:#?}", section),
            Err(err) => {
                println!("Section {{\\n    error: {:?},\\n}}", err.to_string());
                std::process::exit(1);
            }
        }''')]),
dict(id='c22-error-log',prop='C22',needs='a notebook with an entry that does not parse',breaks='A log is written next to an entry that cannot be read.',
 rust=PRE+'''
fn main() {
    let (d, w) = setup();
    fs::write(w.join("a.one"), b"not a section").unwrap();
    fs::copy(d.join("t.onetoc2"), w.join("t.onetoc2")).unwrap();
    let r = nb(&w.join("t.onetoc2"));
    println!("{r:?}");
    assert!(r.is_err());
    assert_eq!(fs::read_dir(&w).unwrap().count(), 2);
}
''',files={'t.onetoc2':T+'a.onetoc2'},
 edits=[(ON+'mod.rs','''                if path.is_file() {
                    self.parse_section(&path).map(SectionEntry::Section)''','''                if path.is_file() {
                    self.parse_section(&path)
                        .inspect_err(|err| {
                            let _ = std::fs::write(path.with_extension("log"), err.to_string());
                        })
                        .map(SectionEntry::Section)''')]),
dict(id='c22-empty-readonly',prop='C22',needs='an empty section file',breaks='Empty files are made read-only when they are read.',
 rust=PRE+'''
fn main() {
    let (_, w) = setup();
    fs::write(w.join("a.one"), b"").unwrap();
    let m = |p: &Path| fs::metadata(p).unwrap().permissions().readonly();
    let before = m(&w.join("a.one"));
    assert!(sec(&w.join("a.one")).is_err());
    assert_eq!(before, m(&w.join("a.one")));
}
''',
 edits=[(ON+'mod.rs','''        let size = file.metadata()?.len();
''','''        let metadata = file.metadata()?;
        let size = metadata.len();
        let mut permissions = metadata.permissions();
        if size == 0 && !permissions.readonly() {
            permissions.set_readonly(true);
            let _ = file.set_permissions(permissions);
        }
''')]),
dict(id='c15-order-gap',prop='C15',needs='an entry with the largest order number',breaks='Entries without a place of their own (the largest number) come first.',corpora=['book3'],
 edits=[(ON+'notebook.rs','sorted_by_key(|(ordering_id, _)| *ordering_id)','sorted_by_key(|(ordering_id, _)| ordering_id.wrapping_add(1))')]),
dict(id='c15-dedup-order-only',prop='C15',needs='two entries with the same order number',breaks='Of entries with equal order numbers only the first is kept.',
 corpora=['book','book2'],via=1,
 edits=[(ON+'notebook.rs','.dedup_by(|(_, a), (_, b)| a == b)','.dedup_by(|(m, a), (n, b)| m == n || a == b)')]),
dict(id='c11-list-surrogate',prop='C11',needs='a list marker whose format has a character outside the basic plane',breaks='Half characters in list formats are kept one by one.',via=1,
 edits=[(PS+'number_list_node.rs','''    Ok(decode_utf16(format.iter().copied())
        .map(|r| r.unwrap_or(REPLACEMENT_CHARACTER))
        .collect())''','''    Ok(format
        .iter()
        .map(|c| char::from_u32(u32::from(*c)).unwrap_or(REPLACEMENT_CHARACTER))
        .collect())'''),(PS+'number_list_node.rs','use std::char::{REPLACEMENT_CHARACTER, decode_utf16};','use std::char::REPLACEMENT_CHARACTER;')]),
dict(id='c09-lang-text',prop='C09',needs='an image with a recognised text that is empty',breaks='An empty recognised text counts as none.',
 edits=[(PS+'image_node.rs','simple::parse_string(PropertyType::RichEditTextUnicode, object)?;','simple::parse_string(PropertyType::RichEditTextUnicode, object)?.filter(|s| !s.is_empty());')]),
dict(id='c09-page-zero',prop='C09',needs='a printout of page 0',breaks='A displayed page number of zero counts as none.',
 edits=[(PS+'image_node.rs','simple::parse_u32(PropertyType::DisplayedPageNumber, object)?;','simple::parse_u32(PropertyType::DisplayedPageNumber, object)?.filter(|n| *n != 0);')]),
dict(id='c02-bytes-twice',prop='C02',needs='a byte value whose declared length is far beyond the data',breaks='The space for a value is set aside before its length is checked.',via=1,crash=1,
 edits=[(S+'onestore/types/property.rs','''        let data = reader.read(size as usize)?.to_vec();
''','''        let mut data = Vec::with_capacity(size as usize);
        data.extend_from_slice(reader.read(size as usize)?);
''')]),
]
