P='src/one/property/'; PS='src/one/property_set/'; ON='src/onenote/'; F='src/fsshttpb/'; OS='src/onestore/'
S1='/tmp/seed/doc/00277.one'; T='/tmp/seed/'
TT="""use onenote_parser::Parser;
use onenote_parser::contents::Outline;
fn lead(o: &Outline) -> Option<&str> {
    let t = o.items().first()?.element()?.contents().first()?.rich_text()?.text();
    (!t.is_empty()).then_some(t)
}
fn main() {
    let d = std::env::args().nth(1).unwrap();
    for e in std::fs::read_dir(d).unwrap() {
        let p = e.unwrap().path();
        if p.extension().is_none_or(|x| x != "one") { continue; }
        let s = Parser::new().parse_section(&p).unwrap();
        for g in s.page_series().iter().flat_map(|x| x.pages()) {
            let t = g.title().and_then(|t| t.contents().first()).and_then(lead);
            let want = t.or_else(|| g.contents().iter().filter_map(|c| c.outline()).find_map(lead));
            assert_eq!(g.title_text(), want, "{p:?}");
        }
    }
}
"""
BOOKS=['book','book2']
PRE='''use onenote_parser::Parser;
use std::fs;
use std::path::{Path, PathBuf};
#[allow(dead_code)]
fn setup() -> (PathBuf, PathBuf) {
    let d = PathBuf::from(std::env::args().nth(1).unwrap());
    let w = std::env::current_dir().unwrap();
    (d, w)
}
#[allow(dead_code)]
fn nb(p: &Path) -> Result<String, String> {
    Parser::new().parse_notebook(p).map(|n| format!("{n:?}")).map_err(|e| e.to_string())
}
#[allow(dead_code)]
fn sec(p: &Path) -> Result<String, String> {
    Parser::new().parse_section(p).map(|n| format!("{n:?}")).map_err(|e| e.to_string())
}
'''
BUGS=[
dict(id='c03-group-order',prop='C03',needs='a revision with two broken objects that fail in different ways',breaks='Which of several broken objects is reported depends on hash order.',
 rust=PRE+'''
fn main() {
    let (d, _) = setup();
    let mut seen = std::collections::BTreeSet::new();
    for _ in 0..60 { seen.insert(sec(&d.join("case.one")).map(|_| ()).map_err(|e| e)); }
    println!("{seen:?}");
    assert_eq!(seen.len(), 1);
}
''',via=1,
 edits=[(OS+'revision.rs','''        for object_id in object_ids {
            if objects''','''        let object_ids: HashSet<_> = object_ids.into_iter().collect();

        for object_id in object_ids {
            if objects''')]),
dict(id='c19-depth-leak',prop='C19',needs='many files cut off inside a nested property set, read on the same thread before a good one',breaks='The nesting depth of property sets is counted per thread and not restored after a failure.',
 rust=PRE+'''
fn main() {
    let (d, _) = setup();
    let good = fs::read(d.join("case.one")).unwrap();
    let read = |b: &[u8]| Parser::new().parse_section_buffer(b, Path::new("a.one")).map(|s| format!("{s:?}")).map_err(|e| e.to_string());
    let first = read(&good);
    for i in 0..good.len() {
        let mut bad = good.clone();
        bad[i] ^= 0x55;
        let _ = read(&bad);
    }
    assert_eq!(first, read(&good));
}
''',files={'case.one':S1},
 edits=[(OS+'types/prop_set.rs','''        let count = reader.get_u16()?;

        let property_ids''','''        let level = NESTING.with(|nesting| nesting.get());
        if level > 100 {
            return Err(ErrorKind::MalformedOneStoreData(
                "property sets are nested too deeply".into(),
            )
            .into());
        }
        NESTING.with(|nesting| nesting.set(level + 1));

        let count = reader.get_u16()?;

        let property_ids'''),(OS+'types/prop_set.rs','''            .collect::<Result<_>>()?;

        Ok(PropertySet { values })''','''            .collect::<Result<_>>()?;

        NESTING.with(|nesting| nesting.set(level));

        Ok(PropertySet { values })'''),(OS+'types/prop_set.rs','''use std::collections::HashMap;
''','''use std::cell::Cell;
use std::collections::HashMap;

thread_local! {
    static NESTING: Cell<usize> = const { Cell::new(0) };
}
''')]),
dict(id='c14-dup-entry',prop='C14',needs='an object whose list refers to the same object twice under a local id that is also used for another object',breaks='Repeated entries of the local id table are kept once.',
 corpora=['wild','doc','long','any'],
 edits=[(OS+'mapping_table.rs','''            objects_map.entry(cid).or_default().push((i, id));
        }

        let mut object_spaces_map''','''            let entries = objects_map.entry(cid).or_default();
            if entries.iter().all(|(_, known)| *known != id) {
                entries.push((i, id));
            }
        }

        let mut object_spaces_map''')]),
dict(id='c14-context-offset',prop='C14',needs='a context reference stored before an object space reference list',breaks='Context references are counted as object space references.',
 corpora=['wild','doc','any'],
 edits=[(P+'object_space_reference.rs','''                PropertyValue::ObjectSpaceId => 1,''','''                PropertyValue::ObjectSpaceId | PropertyValue::ContextId => 1,''')]),
dict(id='c13-empty-revision',prop='C13',needs='a revision in the middle of a chain that adds no objects of its own',breaks='The walk over base revisions ends at a revision without object groups.',
 corpora=['wild','doc','any'],
 edits=[(OS+'revision.rs','''        Ok(base_rev)
    }

    fn parse_group''','''        Ok(base_rev.filter(|_| !revision_manifest.group_references.is_empty()))
    }

    fn parse_group''')]),
dict(id='c15-folder-extension',prop='C15',needs='a section group whose folder name has an extension',breaks='Entries are told apart by extension.',
 corpora=BOOKS,
 edits=[(ON+'mod.rs','''                if path.is_file() {''','''                if path.extension().is_some() {''')]),
dict(id='c15-dedup-case',prop='C15',needs='two entries in a row whose names differ in case only',breaks='Names that differ in case only count as one entry.',
 rust=PRE+'''
fn main() {
    let (d, w) = setup();
    for n in ["a.one", "A.one"] { fs::copy(d.join("s.one"), w.join(n)).unwrap(); }
    fs::copy(d.join("t.onetoc2"), w.join("t.onetoc2")).unwrap();
    assert_eq!(Parser::new().parse_notebook(&w.join("t.onetoc2")).unwrap().entries().len(), 2);
}
''',files={'s.one':S1,'t.onetoc2':T+'dup.onetoc2'},
 edits=[(ON+'notebook.rs','.dedup_by(|(_, a), (_, b)| a == b)','.dedup_by(|(_, a), (_, b)| a.eq_ignore_ascii_case(b))')]),
dict(id='c15-child-order',prop='C15',needs='a table of contents with containers inside containers that store an order',breaks='Entries of a nested container are ordered among themselves first and keep together.',
 corpora=BOOKS,
 edits=[(ON+'notebook.rs','''            .flat_map(|entry| entry.entries)
            .collect();
''','''            .flat_map(|entry| {
                let first = entry.entries.iter().map(|(id, _)| *id).min();
                entry
                    .entries
                    .into_iter()
                    .map(move |(id, name)| (first.unwrap_or(id), name))
            })
            .collect();
''')]),
dict(id='c16-prefix-text',prop='C16',needs='a link to a sibling folder whose name starts with that of the notebook folder',breaks='Containment is decided by comparing path texts.',
 rust=PRE+'''
fn main() {
    let (d, w) = setup();
    for n in ["nb", "nb2"] { fs::create_dir(w.join(n)).unwrap(); }
    fs::copy(d.join("t.onetoc2"), w.join("nb/t.onetoc2")).unwrap();
    fs::copy(d.join("s.one"), w.join("nb2/a.one")).unwrap();
    std::os::unix::fs::symlink("../nb2/a.one", w.join("nb/a.one")).unwrap();
    assert!(nb(&w.join("nb/t.onetoc2")).is_err());
}
''',files={'s.one':S1,'t.onetoc2':T+'a.onetoc2'},
 edits=[(ON+'mod.rs','''    if !path_canon.starts_with(&base_canon) || path_canon == base_canon {''','''    let inside = path_canon
        .to_string_lossy()
        .starts_with(&*base_canon.to_string_lossy());
    if !inside || path_canon == base_canon {''')]),
dict(id='c16-first-component',prop='C16',needs='an entry several folders down whose last part is a link',breaks='Only the last component is checked for being a link, against the folder it is in.',
 rust=PRE+'''
fn main() {
    let (d, w) = setup();
    fs::create_dir_all(w.join("nb/sub/deep")).unwrap();
    fs::create_dir_all(w.join("out/deep")).unwrap();
    fs::copy(d.join("t.onetoc2"), w.join("nb/t.onetoc2")).unwrap();
    fs::copy(d.join("s.one"), w.join("out/deep/a.one")).unwrap();
    fs::remove_dir_all(w.join("nb/sub")).unwrap();
    std::os::unix::fs::symlink("../out", w.join("nb/sub")).unwrap();
    assert!(nb(&w.join("nb/t.onetoc2")).is_err());
}
''',files={'s.one':S1,'t.onetoc2':T+'deep.onetoc2'},
 edits=[(ON+'mod.rs','''    if candidate.exists() {
        ensure_within(base_dir, &candidate)?;''','''    if candidate.is_symlink() {
        ensure_within(base_dir, &candidate)?;''')]),
dict(id='c17-outer-end',prop='C17',needs='a file cut exactly before its last end marker',breaks='The end marker of the package is optional.',
 rust=PRE+'''
fn main() {
    let (d, _) = setup();
    let b = fs::read(d.join("case.one")).unwrap();
    for n in 0..b.len() {
        assert!(Parser::new().parse_section_buffer(&b[..n], Path::new("a.one")).is_err(), "{n} of {}", b.len());
    }
}
''',files={'case.one':S1},
 edits=[(F+'packaging.rs','''        ObjectHeader::try_parse_end_16(reader, ObjectType::OneNotePackaging)?;
''','''        if reader.remaining() > 0 {
            ObjectHeader::try_parse_end_16(reader, ObjectType::OneNotePackaging)?;
        }
''')]),
dict(id='c17-package-end',prop='C17',needs='a file cut after its last needed data element',breaks='Running out of data between data elements ends the package.',
 rust=PRE+'''
fn main() {
    let (d, _) = setup();
    let b = fs::read(d.join("case.one")).unwrap();
    let mut bad = vec![];
    for n in 0..b.len() {
        if Parser::new().parse_section_buffer(&b[..n], Path::new("a.one")).is_ok() { bad.push(n); }
    }
    assert!(bad.is_empty(), "{bad:?} of {}", b.len());
}
''',files={'case.one':S1},
 edits=[(F+'data_element/mod.rs','''            if ObjectHeader::has_end_8(reader, ObjectType::DataElementPackage)? {
                break;
            }
''','''            if reader.remaining() == 0 {
                return Ok(package);
            }

            if ObjectHeader::has_end_8(reader, ObjectType::DataElementPackage)? {
                break;
            }
'''),(F+'packaging.rs','''        ObjectHeader::try_parse_end_16(reader, ObjectType::OneNotePackaging)?;
''','''        // The package can end with its last element
        if reader.remaining() != 0 {
            ObjectHeader::try_parse_end_16(reader, ObjectType::OneNotePackaging)?;
        }
''')]),
dict(id='c18-list-missing',prop='C18',needs='a list marker reference to an object that is not there',breaks='List markers that are not found are left out.',
 corpora=['any'],
 edits=[(ON+'outline.rs','''        .list_contents
        .into_iter()
        .map(''','''        .list_contents
        .into_iter()
        .filter(|list_id| space.get_object(*list_id).is_some())
        .map(''')]),
dict(id='c18-widen',prop='C18',needs='an attribute stored as 16 bits where 32 are required',breaks='Narrower numbers are accepted.',
 corpora=['any'],
 edits=[(OS+'types/property.rs','''        if let Self::U32(v) = self {
            Some(*v)
        } else {
            None
        }''','''        match self {
            Self::U32(v) => Some(*v),
            Self::U16(v) => Some(u32::from(*v)),
            _ => None,
        }''')]),
dict(id='c19-stem',prop='C19',needs='a section file with an extension other than .one',breaks='A file read by path loses its extension, whatever it is, from its name.',
 rust=PRE+'''
fn main() {
    let (d, w) = setup();
    let b = fs::read(d.join("s.one")).unwrap();
    fs::write(w.join("notes.txt"), &b).unwrap();
    let x = Parser::new().parse_section_buffer(&b, Path::new("notes.txt")).unwrap();
    assert_eq!(sec(&w.join("notes.txt")).unwrap(), format!("{x:?}"));
}
''',files={'s.one':S1},
 edits=[(ON+'mod.rs','''            store,
            path.file_name()
''','''            store,
            path.file_stem()
''')]),
dict(id='c20-other-kind',prop='C20',needs='a file whose stored kind is neither section nor table of contents',breaks='Only sections are refused as tables of contents.',
 rust=PRE+'''
fn main() {
    let (d, w) = setup();
    let mut b = fs::read(d.join("t.onetoc2")).unwrap();
    fs::write(w.join("t.onetoc2"), &b).unwrap();
    assert!(nb(&w.join("t.onetoc2")).is_ok());
    let kind = [0x38u8, 0xfd, 0xdb, 0xe4];
    let n: Vec<usize> = (0..b.len() - 4).filter(|i| b[*i..*i + 4] == kind).collect();
    assert!(!n.is_empty());
    for i in n { b[i] ^= 1; }
    fs::write(w.join("t.onetoc2"), &b).unwrap();
    assert!(nb(&w.join("t.onetoc2")).is_err());
}
''',files={'t.onetoc2':T+'a.onetoc2'},
 edits=[(ON+'mod.rs','''        if store.schema_guid() != guid!("E4DBFD38-E5C7-408B-A8A1-0E7B421E1F5F") {''','''        if store.schema_guid() == guid!("1F937CB4-B26F-445F-B9F8-17E20160E461") {''')]),
dict(id='c21-second-outline',prop='C21',needs='a title with several outlines, the first without text',breaks='The title text is looked for in all outlines of the title.',
 rust=TT,via=1,
 edits=[(ON+'page.rs','''            .and_then(|title| title.contents.first())
            .and_then(Self::outline_text)''','''            .and_then(|title| title.contents.iter().find_map(Self::outline_text))''')]),
dict(id='c21-blank',prop='C21',needs='a title of white space',breaks='White space does not count as text.',
 rust=TT,via=1,
 edits=[(ON+'page.rs','.filter(|s| !s.is_empty()))','.filter(|s| !s.trim().is_empty()))')]),
dict(id='c22-create',prop='C22',needs='a section path that does not exist',breaks='Opening a file that does not exist creates it.',
 rust=PRE+'''
fn main() {
    let (_, w) = setup();
    assert!(sec(&w.join("gone.one")).is_err());
    assert!(!w.join("gone.one").exists());
}
''',
 edits=[(ON+'mod.rs','''    pub fn parse_section(&self, path: &Path) -> Result<Section> {
        let file = File::open(path)?;''','''    pub fn parse_section(&self, path: &Path) -> Result<Section> {
        // Files that are open for writing elsewhere can only be opened in append mode
        let file = File::open(path).or_else(|_| {
            File::options()
                .read(true)
                .append(true)
                .create(true)
                .open(path)
        })?;''')]),
dict(id='c22-touch',prop='C22',needs='a section group whose table of contents is missing',breaks='An empty table of contents is written where one is missing.',
 rust=PRE+'''
fn main() {
    let (d, w) = setup();
    fs::create_dir(w.join("plain")).unwrap();
    fs::copy(d.join("t.onetoc2"), w.join("t.onetoc2")).unwrap();
    let r = nb(&w.join("t.onetoc2"));
    println!("{r:?}");
    assert_eq!(fs::read_dir(w.join("plain")).unwrap().count(), 0);
}
''',files={'t.onetoc2':T+'plain.onetoc2'},
 edits=[(ON+'mod.rs','''        Err(ErrorKind::TocFileMissing {''','''        // Leave a table of contents for the next reader
        let _ = File::create(path.join("Open Notebook.onetoc2"));

        Err(ErrorKind::TocFileMissing {''')]),
dict(id='c23-auto-exact',prop='C23',needs='an automatic colour whose low bytes are not all set',breaks='Only 0xFFFFFFFF is the automatic colour.',
 edits=[(P+'color_ref.rs','            0xFF => ColorRef::Auto,','            0xFF if value == 0xFFFF_FFFF || value == 0xFF00_0000 => ColorRef::Auto,')]),
dict(id='c23-align-margin',prop='C23',needs='a layout alignment with unusual vertical bits',breaks='The vertical margin alignment is read from the neighbouring bit.',
 edits=[(P+'layout_alignment.rs','VerticalAlignmentMargin::parse((value >> 19) & 0x1)?','VerticalAlignmentMargin::parse((value >> 17) & 0x1)?')]),
dict(id='c24-empty-name',prop='C24',needs='a section whose stored name is empty',breaks='An empty stored name counts as none.',
 edits=[(ON+'section.rs','''        .display_name
        .unwrap_or(filename)''','''        .display_name
        .filter(|name| !name.is_empty())
        .unwrap_or(filename)''')]),
dict(id='c24-group-suffix',prop='C24',needs='a section group folder with a dot in its name',breaks='Section groups lose what looks like an extension.',
 corpora=BOOKS,
 edits=[(ON+'mod.rs','''        let display_name = path
            .file_name()''','''        let display_name = path
            .file_stem()''')]),
dict(id='c24-upper',prop='C24',needs='a file whose extension is in upper case',breaks='The extension is recognised in upper case as well.',
 rust=PRE+'''
fn main() {
    let (d, _) = setup();
    let b = fs::read(d.join("s.one")).unwrap();
    let x = Parser::new().parse_section_buffer(&b, Path::new("notes.ONE")).unwrap();
    assert_eq!(x.display_name(), "notes.ONE");
}
''',files={'s.one':S1},
 edits=[(ON+'section.rs','''        .trim_end_matches(".one")
''','''        .trim_end_matches(".one")
        .trim_end_matches(".ONE")
''')]),
dict(id='c25-bom',prop='C25',needs='a text that begins with U+FEFF',breaks='A byte order mark at the start of a text is dropped.',
 edits=[('src/utils.rs','''        let value = U16CString::from_vec_truncate(data);
''','''        let mut data = data;
        if data.first() == Some(&0xFEFF) {
            data.remove(0);
        }

        let value = U16CString::from_vec_truncate(data);
''')]),
dict(id='c25-crlf',prop='C25',needs='a text with a carriage return before a line feed',breaks='Line ends are normalised.',
 edits=[(P+'simple.rs','''        .map_err(|_| ErrorKind::MalformedOneNoteFileData("invalid string".into()))?;

    Ok(Some(text))''','''        .map_err(|_| ErrorKind::MalformedOneNoteFileData("invalid string".into()))?;
    let text = text.replace("\\r\\n", "\\n");

    Ok(Some(text))''')]),
dict(id='c25-last-half',prop='C25',needs='a text that ends in half a surrogate pair',breaks='A half surrogate pair at the end of a text is dropped.',
 corpora=['any'],
 edits=[('src/utils.rs','''        let value = U16CString::from_vec_truncate(data);
''','''        let mut value = U16CString::from_vec_truncate(data).into_vec();
        // The text may have been cut in the middle of a character
        if value.last().is_some_and(|v| (0xD800..0xDC00).contains(v)) {
            value.pop();
        }
        let value = U16CString::from_vec_truncate(value);
''')]),
dict(id='c26-unknown-runs',prop='C26',needs='a page with two items without representation in a row',breaks='Several unknown items in a row on a page are reported as one.',
 edits=[(ON+'page.rs','''    let contents = data
        .content
        .into_iter()
        .map(|content_id| parse_page_content(content_id, page_space))
        .collect::<Result<_>>()?;
''','''    let mut contents = data
        .content
        .into_iter()
        .map(|content_id| parse_page_content(content_id, page_space))
        .collect::<Result<Vec<_>>>()?;
    contents.dedup_by(|a, b| {
        matches!(a, PageContent::Unknown) && matches!(b, PageContent::Unknown)
    });
''')]),
dict(id='c26-no-data',prop='C26',needs='an unknown property of the kind that is a list of empty property sets',breaks='A list of property sets with no entries is refused.',
 corpora=['wild','any'],
 edits=[(OS+'types/property.rs','''        let size = reader.get_u32()?;

        // Parse property ID
''','''        let size = reader.get_u32()?;
        if size == 0 {
            return Err(ErrorKind::MalformedOneStoreData("empty property set list".into()).into());
        }

        // Parse property ID
''')]),
dict(id='c27-extension-case',prop='C27',needs='a table of contents whose extension is in upper case',breaks='The extension is compared without case.',
 sh='''#!/bin/sh
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -r "$t"' EXIT
# The extension is not that of a table of contents, so the file is read as a section
cp "$d/t.onetoc2" "$t/t.ONETOC2"
./target/debug/onenote-parse "$t/t.ONETOC2" > /dev/null 2>&1 && exit 1
cp "$d/t.onetoc2" "$t/t.onetoc2"
./target/debug/onenote-parse "$t/t.onetoc2" > /dev/null 2>&1
''',files={'t.onetoc2':T+'a.onetoc2'},
 edits=[('src/bin/onenote-parse.rs','''    if path.extension() == Some(&OsString::from("onetoc2".to_string())) {''','''    if path
        .extension()
        .is_some_and(|extension| extension.eq_ignore_ascii_case("onetoc2"))
    {'''),('src/bin/onenote-parse.rs','use std::ffi::OsString;\n','')]),
dict(id='c27-exit',prop='C27',needs='a notebook that cannot be read',breaks='A notebook that cannot be read is reported with a message only.',
 sh='''#!/bin/sh
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -r "$t"' EXIT
echo > "$t/a.onetoc2"
./target/debug/onenote-parse "$t/a.onetoc2" > /dev/null 2>&1 && exit 1
exit 0
''',
 edits=[('src/bin/onenote-parse.rs','''        let notebook = parser.parse_notebook(&path).unwrap();
        println!("{:#?}", notebook);''','''        match parser.parse_notebook(&path) {
            Ok(notebook) => println!("{:#?}", notebook),
            Err(err) => eprintln!("{err}"),
        }''')]),
dict(id='c27-precision',prop='C27',needs='a document with numbers of more than four decimals',breaks='Numbers are printed with four decimals.',
 edits=[('src/bin/onenote-parse.rs','''        println!("{:#?}", section);''','''        println!("{:#.4?}", section);''')]),
dict(id='c28-space-key',prop='C28',needs='two pages in one object space under different contexts',breaks='Object spaces are found by their own identifier, without the context.',
 corpora=['wild','doc'],
 edits=[(OS+'mod.rs','''    object_spaces: HashMap<CellId, ObjectSpace<'a>>,''','''    object_spaces: HashMap<ExGuid, ObjectSpace<'a>>,'''),(OS+'mod.rs','''        self.object_spaces.get(&space_id)''','''        self.object_spaces.get(&space_id.1)'''),(OS+'mod.rs','''        object_spaces.insert(id, group);''','''        object_spaces.insert(id.1, group);'''),(OS+'mod.rs','''use crate::fsshttpb::data::cell_id::CellId;
''','''use crate::fsshttpb::data::cell_id::CellId;
use crate::fsshttpb::data::exguid::ExGuid;
''')]),
dict(id='c28-revision-cache',prop='C28',needs='two pages whose revisions have the same identifier',breaks='Revisions are remembered by identifier and used for every page that names the same one.',
 corpora=['wild','doc'],
 edits=[(OS+'revision.rs','''            Self::parse_group(context_id, *group_id, object_space_id, packaging, objects)?
        }

        Ok(base_rev)''','''            Self::parse_group(context_id, *group_id, object_space_id, packaging, objects)?
        }

        if base_rev.is_none() && objects.len() > 1 {
            revision_cache.insert(
                CellId(context_id, revision_manifest.rev_id),
                Revision {
                    objects: objects.clone(),
                    roots: roots.clone(),
                },
            );
        }

        Ok(base_rev)''')]),
dict(id='c28-guid-key',prop='C28',needs='two pages whose object spaces differ in their number only',breaks='Object spaces are found by the unique part of their identifiers.',
 corpora=['wild','doc'],
 edits=[(OS+'mod.rs',"""    object_spaces: HashMap<CellId, ObjectSpace<'a>>,""","""    object_spaces: HashMap<Guid, ObjectSpace<'a>>,"""),(OS+'mod.rs',"""        self.object_spaces.get(&space_id)""","""        self.object_spaces.get(&space_id.1.guid)"""),(OS+'mod.rs',"""        object_spaces.insert(id, group);""","""        object_spaces.insert(id.1.guid, group);""")]),
]

