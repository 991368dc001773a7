exec(open('/verif/tools/seed/b4.py').read().split('BUGS=[')[0])
PAR='''use std::sync::Arc;
fn main() {
    let (d, _) = setup();
    let files: Vec<_> = { let mut v: Vec<_> = fs::read_dir(&d).unwrap().map(|e| e.unwrap().path()).filter(|p| p.extension().is_some_and(|x| x == "one")).collect(); v.sort(); v };
    let bytes: Arc<Vec<Vec<u8>>> = Arc::new(files.iter().map(|p| fs::read(p).unwrap()).collect());
    let read = |b: &[u8]| Parser::new().parse_section_buffer(b, Path::new("a.one")).map(|s| format!("{s:?}")).map_err(|e| e.to_string());
    let want: Arc<Vec<_>> = Arc::new(bytes.iter().map(|b| read(b)).collect());
    let hs: Vec<_> = (0..16).map(|k| { let (b, w) = (bytes.clone(), want.clone()); std::thread::spawn(move || {
        for r in 0..60 { let i = (r + k) % b.len();
            let got = Parser::new().parse_section_buffer(&b[i], Path::new("a.one")).map(|s| format!("{s:?}")).map_err(|e| e.to_string());
            assert!(got == w[i], "thread {k} file {i}");
        }
    }) }).collect();
    for h in hs { h.join().unwrap(); }
}
'''
BUGS=[
dict(id='c03-static-depth',prop='C03',needs='five or more outlines being read at the same moment on different threads',breaks='The nesting limit is counted for the whole process, so parallel parses trip it.',
 rust=PRE+PAR, files={f'f{i}.one':f'/tmp/seed/doc/{100+i:05}.one' for i in range(8)},
 edits=[(ON+'outline.rs','''    let data = outline_node::parse(outline_object)?;

    let items = data
        .children
        .into_iter()
        .map(|item_id| parse_outline_item(item_id, space))
        .collect::<Result<_>>()?;
''','''    let data = outline_node::parse(outline_object)?;

    if OPEN_OUTLINES.fetch_add(1, Ordering::SeqCst) >= 4 {
        OPEN_OUTLINES.fetch_sub(1, Ordering::SeqCst);
        return Err(
            ErrorKind::MalformedOneNoteData("outlines are nested too deeply".into()).into(),
        );
    }
    let items = data
        .children
        .into_iter()
        .map(|item_id| parse_outline_item(item_id, space))
        .collect::<Result<_>>();
    OPEN_OUTLINES.fetch_sub(1, Ordering::SeqCst);
    let items = items?;
'''),(ON+'outline.rs','''pub(crate) fn parse_outline(outline_id''','''static OPEN_OUTLINES: AtomicUsize = AtomicUsize::new(0);

pub(crate) fn parse_outline(outline_id'''),(ON+'outline.rs','''use crate::property::common::Color;
''','''use crate::property::common::Color;
use std::sync::atomic::{AtomicUsize, Ordering};
''') if False else (ON+'outline.rs','''use crate::onestore::object_space::ObjectSpace;
''','''use crate::onestore::object_space::ObjectSpace;
use std::sync::atomic::{AtomicUsize, Ordering};
''')]),
dict(id='c03-scratch-buffer',prop='C03',needs='two threads reading strings through the shared scratch buffer at once',breaks='Text of one parse ends up in another one running at the same time.',
 rust=PRE+PAR, files={f'f{i}.one':f'/tmp/seed/doc/{100+i:05}.one' for i in range(8)},
 edits=[(P+'simple.rs','''    let text = data
        .utf16_to_string()
        .map_err(|_| ErrorKind::MalformedOneNoteFileData("invalid string".into()))?;

    Ok(Some(text))''','''    let mut scratch = std::mem::take(&mut *lock(&SCRATCH));
    scratch.clear();
    scratch.extend_from_slice(data);
    *lock(&SCRATCH) = scratch;
    let text = lock(&SCRATCH)
        .as_slice()
        .utf16_to_string()
        .map_err(|_| ErrorKind::MalformedOneNoteFileData("invalid string".into()))?;

    Ok(Some(text))'''),(P+'simple.rs','''pub(crate) fn parse_string(''','''static SCRATCH: std::sync::Mutex<Vec<u8>> = std::sync::Mutex::new(Vec::new());

fn lock(buf: &std::sync::Mutex<Vec<u8>>) -> std::sync::MutexGuard<'_, Vec<u8>> {
    buf.lock().unwrap_or_else(|lock| lock.into_inner())
}

pub(crate) fn parse_string(''')]),
dict(id='c19-list-cache',prop='C19',needs='a second file whose list object has the id of a list in an earlier file',breaks='Lists are remembered across files by object id.',
 rust=PRE+'''
fn main() {
    let (d, _) = setup();
    // the same notebook page stored twice, the second time edited
    let mut files: Vec<_> = fs::read_dir(&d).unwrap().map(|e| e.unwrap().path()).filter(|p| p.extension().is_some_and(|x| x == "one")).collect();
    files.sort();
    let me = std::env::args().nth(2);
    if let Some(f) = me { println!("{:?}", sec(Path::new(&f))); return; }
    let alone: Vec<_> = files.iter().map(|f| String::from_utf8(std::process::Command::new(std::env::current_exe().unwrap()).arg(&d).arg(f).output().unwrap().stdout).unwrap()).collect();
    for (f, a) in files.iter().zip(&alone) { assert_eq!(format!("{:?}\\n", sec(f)), *a); }
}
''', files={f'f{i:02}.one':f'/tmp/seed/doc/{i:05}.one' for i in range(40)},
 edits=[(ON+'list.rs','''    let data = number_list_node::parse(object)?;
''','''    let mut seen = LISTS.lock().unwrap_or_else(|lock| lock.into_inner());
    if let Some(list) = seen.iter().find(|(id, _)| *id == list_id) {
        return Ok(list.1.clone());
    }
    let data = number_list_node::parse(object)?;
'''),(ON+'list.rs','''        font_color: data.font_color,
    };

    Ok(list)''','''        font_color: data.font_color,
    };
    seen.push((list_id, list.clone()));

    Ok(list)'''),(ON+'list.rs','''pub(crate) fn parse_list(''','''static LISTS: std::sync::Mutex<Vec<(ExGuid, List)>> = std::sync::Mutex::new(Vec::new());

pub(crate) fn parse_list(''')]),
dict(id='c14-count-byte',prop='C14',needs='a list of more than 255 references in a property stored before another reference',breaks='Reference counts of preceding properties wrap at 256.',corpora=['wild','doc','long','any'],
 edits=[(P+'object_reference.rs','PropertyValue::ObjectIds(c) => *c as usize,','PropertyValue::ObjectIds(c) => *c as u8 as usize,')]),
dict(id='c14-list-len',prop='C14',needs='a reference list of more than 1000 entries',breaks='Reference lists are resolved only up to their thousandth entry.',corpora=['wild','doc','long','any'],
 edits=[(P+'object_reference.rs','''            .enumerate()
            .filter_map(|(index, id)| Self::resolve_id(index + offset, id, object).transpose())
''','''            .enumerate()
            .take(1000)
            .filter_map(|(index, id)| Self::resolve_id(index + offset, id, object).transpose())
''') ]),
dict(id='c16-file-only',prop='C16',needs='an entry that is a link to a folder outside the notebook',breaks='Only files are checked for leading out of the notebook, so linked folders are read.',
 edits=[(ON+'mod.rs','''    if candidate.exists() {''','''    if candidate.is_file() {''')],corpora=['book','book2'],
 rust=PRE+'''
fn main() {
    let (d, w) = setup();
    let nbd = w.join("nb");
    let out = w.join("outside");
    fs::create_dir_all(&nbd).unwrap();
    fs::create_dir_all(&out).unwrap();
    fs::copy(d.join("t.onetoc2"), nbd.join("Open Notebook.onetoc2")).unwrap();
    fs::copy(d.join("u.onetoc2"), out.join("Open Notebook.onetoc2")).unwrap();
    fs::copy(d.join("s.one"), out.join("S.one")).unwrap();
    std::os::unix::fs::symlink(&out, nbd.join("G")).unwrap();
    let r = nb(&nbd.join("Open Notebook.onetoc2"));
    println!("{r:?}");
    assert!(r.is_err());
}
''',files={'t.onetoc2':T+'tG.onetoc2','u.onetoc2':T+'tS.onetoc2','s.one':S1}),
dict(id='c16-nested-name',prop='C16',needs='an entry name of two components whose file is a link out of the notebook',breaks='Entries inside sub-folders are not checked for leading out of the notebook.',
 edits=[(ON+'mod.rs','''    if candidate.exists() {''','''    if sanitized.components().count() == 1 && candidate.exists() {''')],
 rust=PRE+'''
fn main() {
    let (d, w) = setup();
    let nbd = w.join("nb");
    let out = w.join("outside");
    fs::create_dir_all(nbd.join("G")).unwrap();
    fs::create_dir_all(&out).unwrap();
    fs::copy(d.join("t.onetoc2"), nbd.join("Open Notebook.onetoc2")).unwrap();
    fs::copy(d.join("s.one"), out.join("S.one")).unwrap();
    std::os::unix::fs::symlink(out.join("S.one"), nbd.join("G").join("S.one")).unwrap();
    let r = nb(&nbd.join("Open Notebook.onetoc2"));
    println!("{r:?}");
    assert!(r.is_err());
}
''',files={'t.onetoc2':T+'tGS.onetoc2','s.one':S1}),
dict(id='c17-blob-short',prop='C17',needs='a file cut inside a stored binary item',breaks='Binary items are cut short at the end of their data instead of being an error.',
 edits=[(F+'data/binary_item.rs','''        let data = reader.read(size as usize)?.to_vec();''','''        let size = (size as usize).min(reader.remaining());
        let data = reader.read(size)?.to_vec();''')]),
dict(id='c18-order-default',prop='C18',needs='a table-of-contents entry with a name but no order number',breaks='Entries without an order number are taken as the first ones instead of being an error.',
 edits=[(ON+'notebook.rs','''        let ordering_id = toc
            .ordering_id
            .ok_or_else(|| ErrorKind::MalformedOneNoteData("section has no order id".into()))?;
''','''        let ordering_id = toc.ordering_id.unwrap_or_default();
''')]),
dict(id='c18-embedded-ink',prop='C18',needs='a paragraph with more embedded drawings than stored ink data',breaks='A drawing whose ink data is missing is dropped without an error.',
 edits=[(ON+'rich_text.rs','''                    let embedded_id = data
                        .text_run_data_object
                        .get(i - objects_without_ref)
                        .copied()
                        .ok_or_else(|| {
                            ErrorKind::MalformedOneNoteFileData(
                                "embedded object has no ink data".into(),
                            )
                        })?;

                    return''','''                    let Some(embedded_id) = data
                        .text_run_data_object
                        .get(i - objects_without_ref)
                        .copied()
                    else {
                        return Ok(None);
                    };

                    return''')]),
dict(id='c18-role-unknown',prop='C18',needs='a revision with a root of an unknown role',breaks='Roots of unknown roles are treated as version metadata instead of an error.',
 edits=[(OS+'revision_role.rs','ExGuid { value: 4, .. } =>','ExGuid { value: 4.., .. } =>')]),
dict(id='c18-style-missing',prop='C18',needs='a text run whose style object is missing',breaks='Runs whose style is missing lose their style without an error.',
 edits=[(ON+'rich_text.rs','''        .map(|style_id| {
            space
                .get_object(*style_id)
                .ok_or_else(|| ErrorKind::MalformedOneNoteData("styling is missing".into()).into())
        })
        .map(|style_object| style_object.and_then(|object| paragraph_style_object::parse(object)))
''','''        .filter_map(|style_id| space.get_object(*style_id))
        .map(paragraph_style_object::parse)
''')]),
dict(id='c18-title-missing',prop='C18',needs='a page whose title object is missing',breaks='A page whose title object is missing loses its title without an error.',
 edits=[(ON+'page.rs','''    let title = data
        .title
        .map(''','''    let title = data
        .title
        .filter(|id| page_space.get_object(*id).is_some())
        .map(''')]),
dict(id='c19-read-cap',prop='C19',needs='a section file of more than a megabyte opened by path',breaks='Files are read from disk only up to a megabyte.',
 edits=[(ON+'mod.rs','''        let mut buf = BufReader::new(file);''','''        let mut buf = BufReader::new(file).take(1 << 20);''')],
 rust=PRE+'''
fn main() {
    let (d, w) = setup();
    let mut b = fs::read(d.join("case.one")).unwrap();
    let _ = &mut b;
    let f = w.join("a.one");
    fs::write(&f, &b).unwrap();
    let one = Parser::new().parse_section_buffer(&b, Path::new("a.one")).map(|s| format!("{s:?}")).map_err(|e| e.to_string());
    assert!(one.is_ok());
    assert!(one == sec(&f));
}
''',files={'case.one':T+'long/00065.one'}),
dict(id='c21-group',prop='C21',needs='an outline that begins with an indented group',breaks='The title text is taken from inside a leading group.',corpora=['doc','wild','long'],rust=TT,edits=[(ON+'page.rs','''            .and_then(|outline_item| outline_item.element())
''','''            .and_then(|mut outline_item| {
                while let crate::onenote::outline::OutlineItem::Group(group) = outline_item {
                    outline_item = group.outlines().first()?;
                }
                outline_item.element()
            })
''')]),
dict(id='c22-lock',prop='C22',needs='a notebook folder watched while it is read',breaks='A lock file is made next to the table of contents while it is read.',
 files={'t.onetoc2':T+'tG.onetoc2'},rust=PRE+'''
fn main() {
    let (d, w) = setup();
    let nbd = w.join("nb");
    fs::create_dir_all(&nbd).unwrap();
    fs::copy(d.join("t.onetoc2"), nbd.join("Open Notebook.onetoc2")).unwrap();
    let before = fs::metadata(&nbd).unwrap().modified().unwrap();
    std::thread::sleep(std::time::Duration::from_millis(50));
    let _ = nb(&nbd.join("Open Notebook.onetoc2"));
    assert_eq!(before, fs::metadata(&nbd).unwrap().modified().unwrap());
}
''',edits=[(ON+'mod.rs','''        let entries = entries
            .iter()
            .map(|name| resolve_entry_path(base_dir, name))
            .collect::<Result<Vec<_>>>()?;
''','''        let lock = base_dir.join("~onenote.lock");
        let locked = File::create_new(&lock).is_ok();
        let entries = entries
            .iter()
            .map(|name| resolve_entry_path(base_dir, name))
            .collect::<Result<Vec<_>>>()?;
        if locked {
            let _ = std::fs::remove_file(&lock);
        }
''')]),
dict(id='c25-replacement',prop='C25',needs='stored text that holds the replacement character',breaks='Text that holds U+FFFD is taken as broken.',corpora=['doc','wild','long','any'],edits=[('src/utils.rs','''        let value = U16CString::from_vec_truncate(data);
''','''        if data.contains(&0xFFFD) {
            return Err(ErrorKind::MalformedOneNoteData("text is damaged".into()).into());
        }

        let value = U16CString::from_vec_truncate(data);
''')]),
dict(id='c28-series-memo',prop='C28',needs='two pages whose object spaces hold objects of equal ids',breaks='Pages are remembered within a series by the id of their root object.',corpora=['doc','wild','long','any'],edits=[(ON+'page_series.rs','''        .map(|page_space| parse_page(page_space?))
''','''        .map(|page_space| {
            let page_space = page_space?;
            let root = page_space.content_root();
            if let Some((_, page)) = read.iter().find(|(id, _)| root == Some(*id)) {
                return Ok(Page::clone(page));
            }
            let page = parse_page(page_space)?;
            read.extend(root.map(|id| (id, page.clone())));
            Ok(page)
        })
'''),(ON+'page_series.rs','''    let pages = data
''','''    let mut read: Vec<(ExGuid, Page)> = vec![];
    let pages = data
''')]),
dict(id='c10-dim-order',prop='C10',needs='a stroke whose dimensions are not stored with x first',breaks='The y dimension is looked for only behind the x dimension.',corpora=['doc','wild','long','any'],
 edits=[(ON+'ink.rs','''    let idx_y = props
        .dimensions
        .iter()
        .position(|d| d.id == guid!("b53f9f75-04e0-4498-a7ee-c30dbb5a9011"))
''','''    let idx_y = props
        .dimensions
        .iter()
        .rposition(|d| d.id == guid!("b53f9f75-04e0-4498-a7ee-c30dbb5a9011"))
        .map(|idx| idx.max(1))
''')]),
dict(id='c11-collapse',prop='C11',needs='a group whose only item is another group',breaks='A group around a single group is dropped.',corpora=['doc','wild','long','any'],
 edits=[(ON+'outline.rs','''    let group = OutlineGroup {
        child_level: data.child_level,
        outlines,
    };

    Ok(group)''','''    let mut outlines: Vec<OutlineItem> = outlines;
    if let [OutlineItem::Group(_)] = outlines[..] {
        if let Some(OutlineItem::Group(group)) = outlines.pop() {
            return Ok(group);
        }
    }
    let group = OutlineGroup {
        child_level: data.child_level,
        outlines,
    };

    Ok(group)''')]),
dict(id='c07-nine-tags',prop='C07',needs='an item with more than nine note tags',breaks='Only the first nine note tags of an item are kept.',corpora=['doc','wild','long','any'],
 edits=[(ON+'note_tag.rs','''    note_tags
        .into_iter()
        .map(|data| {''','''    note_tags
        .into_iter()
        .take(9)
        .map(|data| {''')]),
dict(id='c07-tag-definition-first',prop='C07',needs='an item with two tags of which the first has no definition',breaks='A tag without a definition hides the definitions of the tags behind it.',corpora=['doc','wild','long','any'],
 edits=[(ON+'note_tag.rs','''    note_tags
        .into_iter()
        .map(|data| {''','''    let mut defined = true;
    note_tags
        .into_iter()
        .map(|mut data| {
            defined = defined && data.definition.is_some();
            if !defined {
                data.definition = None;
            }''')]),
dict(id='c10-bbox-width-sign',prop='C10',needs='an embedded drawing whose stored display box has a height but no width',breaks='The display box of an embedded drawing is made up from its height when the width is missing.',corpora=['doc','wild','long','any'],
 edits=[(ON+'rich_text.rs','''        .zip(data.width)
        .map(|(((x, y), height), width)|''','''        .zip(data.width.or(data.height))
        .map(|(((x, y), height), width)|''')]),
dict(id='c06-embedded-text',prop='C06',needs='a paragraph that has embedded objects and text',breaks='Text next to embedded drawings is kept only when it is longer than the drawings.',corpora=['doc','wild','long','any'],
 edits=[(ON+'rich_text.rs','''    let text = if !embedded_objects.is_empty() {
        "".to_string()''','''    let text = if embedded_objects.len() > 1 {
        "".to_string()''')]),
dict(id='c12-math-none-skip',prop='C12',needs='a formula run with fewer run data than styles',breaks='Formula objects of the last run are lost.',corpora=['doc','wild','long','any'],
 edits=[(ON+'rich_text.rs','''    let math_inline_objects = text_run_data
        .iter()
        .zip(&styles_data)''','''    let math_inline_objects = text_run_data
        .iter()
        .zip(&styles_data[..styles_data.len().saturating_sub(text_run_data.len() / 16)])''')]),
dict(id='c15-dedup-order',prop='C15',needs='the same name stored twice in a row with equal order numbers and something else between them',breaks='An entry is dropped when the entry before the previous one has the same name.',
 edits=[(ON+'notebook.rs','''        .dedup_by(|(_, a), (_, b)| a == b)''','''        .dedup_by(|(i, a), (j, b)| i == j && a == b)''')]),
]
