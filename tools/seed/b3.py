P='src/one/property/'; PS='src/one/property_set/'; ON='src/onenote/'; F='src/fsshttpb/'; OS='src/onestore/'
NB='/tmp/seed/book'
BUGS=[
dict(id='c01-name-slice',prop='C01',needs='a stored section name whose last four bytes do not begin at a character',breaks='The section file extension is cut off the name by byte position.',corpora=['doc','wild','any'],crash=True,
 edits=[(ON+'section.rs','''    let display_name = metadata
        .display_name
        .unwrap_or(filename)
        .trim_end_matches(".one")
        .to_string();
''','''    let mut display_name = metadata.display_name.unwrap_or(filename);
    while display_name.len() >= 4 && &display_name[display_name.len() - 4..] == ".one" {
        display_name.truncate(display_name.len() - 4);
    }
''')]),
dict(id='c01-level-255',prop='C01',needs='an element of child level 255',breaks='The child level of an element is raised by one when its children are read.',corpora=['any','doc','wild'],crash=True,
 edits=[(ON+'outline.rs','''        child_level: data.child_level,
        list_spacing: data.list_spacing,
        children,''','''        child_level: (data.child_level + 1) - 1,
        list_spacing: data.list_spacing,
        children,''')]),
dict(id='c02-path-prealloc',prop='C02',needs='an ink path that promises far more numbers than it has',breaks='Space for all promised path numbers is set aside up front.',
 rust='MEM',pick='doc',nth=(__import__('glob'),__import__('os')) and sorted(__import__('glob').glob('/tmp/seed/doc/*.one'),key=__import__('os').path.getsize).index('/tmp/seed/doc/00065.one'),
 edits=[('src/shared/multi_byte.rs','''    let length = length >> 1;
''','''    let length = length >> 1;
    output.reserve_exact((length as usize).min(1 << 24));
''')]),
dict(id='c05-author-trim',prop='C05',needs='an author beginning or ending with white space',breaks='White space around author names is dropped.',
 edits=[(P+'author.rs','.map(Author))','.map(|name| Author(name.trim().into())))')]),
dict(id='c05-title-align',prop='C05',needs='a title that stores its own alignment but none relative to its parent',breaks='A title without alignment in its parent takes its own.',
 edits=[(ON+'page.rs','''        layout_alignment_in_parent: title.layout_alignment_in_parent,
''','''        layout_alignment_in_parent: title
            .layout_alignment_in_parent
            .or(title.layout_alignment_self),
''')]),
dict(id='c05-level-sign',prop='C05',needs='a page level above 32767',breaks='Page levels are cut to 16 bits.',
 edits=[(PS+'page_metadata.rs','.unwrap_or(0) as i32;','.unwrap_or(0) as i16 as i32;')]),
dict(id='c06-vertical-tab',prop='C06',needs='a text with a vertical tab',breaks='Vertical tabs become line feeds.',
 edits=[(PS+'rich_text_node.rs','''        text => text,
    };''','''        text => text.map(|text| text.replace('\\u{b}', "\\n")),
    };''')]),
dict(id='c06-space-style',prop='C06',needs='a paragraph without its own line spacing whose style has one',breaks='Line spacing falls back to that of the style.',
 edits=[(ON+'rich_text.rs','''        paragraph_line_spacing_exact: data.paragraph_line_spacing_exact,
        paragraph_alignment: data.paragraph_alignment,
        layout''','''        paragraph_line_spacing_exact: data
            .paragraph_line_spacing_exact
            .or_else(|| style_line_spacing(&text_style)),
        paragraph_alignment: data.paragraph_alignment,
        layout'''),(ON+'rich_text.rs','''    let text = RichText {
        text,''','''    let text_style = paragraph_style.clone();
    let text = RichText {
        text,'''),(ON+'rich_text.rs','''fn parse_embedded_ink_space(''','''fn style_line_spacing(style: &ParagraphStyling) -> Option<f32> {
    style.paragraph_line_spacing_exact
}

fn parse_embedded_ink_space(''')]),
dict(id='c06-font-size-zero',prop='C06',needs='a style with a font size of zero or a colour of automatic',breaks='A stored font size of zero counts as not stored.',
 edits=[(ON+'rich_text.rs','        font_size: data.font_size,','        font_size: data.font_size.filter(|size| *size > 0),')]),
dict(id='c07-completed-zero',prop='C07',needs='a tag whose stored completion time is zero',breaks='A completion time of zero counts as none.',
 edits=[(PS+'note_tag_container.rs','''        let completed_at = Time::parse(PropertyType::NoteTagCompleted, &object)?;
''','''        let completed_at = Time::parse(PropertyType::NoteTagCompleted, &object)?
            .filter(|time| time.is_set());
'''),(P+'time.rs','''impl Time {
''','''impl Time {
    pub(crate) fn is_set(&self) -> bool {
        self.0 != 0
    }

''')]),
dict(id='c07-label-trim',prop='C07',needs='a tag label ending with white space',breaks='Trailing white space of labels is dropped.',
 edits=[(ON+'note_tag.rs','        label: data.label,','        label: data.label.trim_end().to_string(),')]),
dict(id='c08-locked-pad',prop='C08',needs='a locked-columns value that ends with zero bytes',breaks='Trailing zero bytes of the locked columns are dropped.',
 edits=[(PS+'table_node.rs','''        .map(|value| value.into_iter().skip(1).collect())
        .unwrap_or_default();''','''        .map(|value| value.into_iter().skip(1).collect())
        .map(|mut value: Vec<u8>| {
            while value.last() == Some(&0) {
                value.pop();
            }
            value
        })
        .unwrap_or_default();''')]),
dict(id='c08-width-count',prop='C08',needs='a table with more widths stored than columns',breaks='Column widths are cut to the column count.',
 edits=[(ON+'table.rs','        col_widths: data.col_widths,','''        col_widths: data
            .col_widths
            .into_iter()
            .take(data.col_count as usize)
            .collect(),''')]),
dict(id='c08-empty-row',prop='C08',needs='a row without cells',breaks='Rows without cells are left out.',
 edits=[(ON+'table.rs','''        .map(|row_id| parse_row(row_id, space))
        .collect::<Result<_>>()?;''','''        .map(|row_id| parse_row(row_id, space))
        .filter(|row| !matches!(row, Ok(row) if row.contents.is_empty()))
        .collect::<Result<_>>()?;''')]),
dict(id='c09-extension-dot',prop='C09',needs='a picture extension beginning with a dot',breaks='The dot of picture extensions is dropped.',
 edits=[(ON+'image.rs','(Some(data.data), data.extension)','''(
            Some(data.data),
            data.extension
                .map(|ext| ext.trim_start_matches('.').to_string()),
        )''')]),
dict(id='c09-empty-blob',prop='C09',needs='an image whose picture is empty',breaks='An empty picture counts as no picture.',
 edits=[(ON+'image.rs','(Some(data.data), data.extension)','(Some(data.data).filter(|data| !data.is_empty()), data.extension)')]),
dict(id='c09-filename-path',prop='C09',needs='an attachment whose file name has a path separator',breaks='Directories are cut off attachment names.',
 edits=[(ON+'embedded_file.rs','        filename: node.embedded_file_name,','''        filename: node
            .embedded_file_name
            .rsplit('\\\\')
            .next()
            .unwrap_or_default()
            .to_string(),''')]),
dict(id='c10-coords-32',prop='C10',needs='a coordinate beyond 32 bits',breaks='Coordinates are cut to 32 bits.',
 edits=[(ON+'ink.rs','            x: scale_x * x as f32,','            x: scale_x * x as i32 as f32,')]),
dict(id='c10-empty-stroke',prop='C10',needs='a stroke without points',breaks='Strokes without points are left out.',
 edits=[(ON+'ink.rs','''        .map(|ink_stroke_id| parse_ink_stroke(ink_stroke_id, space, scale_x, scale_y))
        .collect::<Result<_>>()?;''','''        .map(|ink_stroke_id| parse_ink_stroke(ink_stroke_id, space, scale_x, scale_y))
        .filter(|stroke| !matches!(stroke, Ok(stroke) if stroke.path.is_empty()))
        .collect::<Result<Vec<_>>>()?;''')]),
dict(id='c10-bbox-order',prop='C10',needs='a bounding box whose corners are stored the wrong way round',breaks='Bounding boxes with swapped corners get a size of zero.',
 edits=[(ON+'ink.rs','            width: (x_max as f32 - x_min as f32) * scale_x,','            width: x_max.saturating_sub(x_min) as f32 * scale_x,')]),
dict(id='c11-indent-zero',prop='C11',needs='an outline whose last indents are zero',breaks='Trailing zero indents are dropped.',
 edits=[(ON+'outline.rs','        indents: data.outline_indent_distance.into_value(),','''        indents: {
            let mut indents = data.outline_indent_distance.into_value();
            while indents.len() > 1 && indents.last() == Some(&0.0) {
                indents.pop();
            }
            indents
        },''')]),
dict(id='c11-restart-zero',prop='C11',needs='a list marker with a stored restart number of zero',breaks='A restart number of zero counts as none.',
 edits=[(ON+'list.rs','        list_restart: data.list_restart,','        list_restart: data.list_restart.filter(|number| *number != 0),')]),
dict(id='c11-empty-group',prop='C11',needs='an outline group without items inside another group',breaks='Empty groups inside groups are left out.',
 edits=[(ON+'outline.rs','''        .map(|item_id| parse_outline_item(item_id, space))
        .collect::<Result<_>>()?;

    let group = OutlineGroup {''','''        .map(|item_id| parse_outline_item(item_id, space))
        .filter(|item| !matches!(item, Ok(OutlineItem::Group(group)) if group.outlines.is_empty()))
        .collect::<Result<_>>()?;

    let group = OutlineGroup {''')]),
dict(id='c12-arg-u8',prop='C12',needs='a math object with more than 255 arguments',breaks='Argument counts are cut to a byte.',
 edits=[(ON+'math_inline_object.rs','        arg_count: data.arg_count.unwrap_or(0),','        arg_count: data.arg_count.unwrap_or(0) as u8 as u32,')]),
dict(id='c12-char-nul',prop='C12',needs='a math object whose stored character is U+0000',breaks='A stored null character counts as none.',
 edits=[(PS+'math_inline_object.rs','''    Ok(U16String::from_vec([c]).to_string()?.chars().next())''','''    Ok(U16String::from_vec([c])
        .to_string()?
        .chars()
        .next()
        .filter(|c| *c != '\\0'))''')]),
dict(id='c13-root-base',prop='C13',needs='a revision that declares the content root but inherits the metadata root',breaks='A revision with a content root inherits no other root.',
 edits=[(OS+'object_space.rs',"""            let base_rev_id = Revision::parse(""","""            let has_content = roots.contains_key(&RevisionRole::DefaultContent);
            let known_roots = roots.clone();
            let base_rev_id = Revision::parse("""),(OS+'object_space.rs',"""            rev_id = base_rev_id;
""","""            if has_content {
                roots = known_roots;
            }

            rev_id = base_rev_id;
""")],corpora=['wild','any']),
dict(id='c15-escape-once',prop='C15',needs='an entry with two pluses in its name',breaks='Only the first escaped plus of a name is restored.',corpora=['book2'],
 edits=[(PS+'toc_container.rs','.map(|s| s.replace("^M", "+"))','.map(|s| s.replacen("^M", "+", 1))')]),
dict(id='c15-toc-color',prop='C15',needs='a notebook whose colour is stored with an entry too',breaks='The colour of the last entry replaces that of the notebook.',corpora=['book'],
 edits=[(ON+'notebook.rs','''            .into_iter()
            .flat_map(|entry| entry.entries)
            .collect();

        Ok(TocEntry {
            entries: children,
            color: toc.color,
        })''','''            .into_iter();
        let mut color = toc.color;
        let children = children
            .flat_map(|entry| {
                color = color.or(entry.color);
                entry.entries
            })
            .collect();

        Ok(TocEntry {
            entries: children,
            color,
        })''')]),
dict(id='c15-recycle-case',prop='C15',needs='an entry whose name contains the recycle bin name',breaks='Entries whose path contains the recycle bin name are left out.',corpora=['book'],
 edits=[(ON+'mod.rs','.filter(|p| !p.ends_with("OneNote_RecycleBin"))','.filter(|p| !p.to_string_lossy().contains("OneNote_RecycleBin"))')]),
]
exec(open('/verif/tools/seed/b2.py').read().split('BUGS=[')[0])
for b in BUGS:
    if b.get('rust')=='MEM': b['rust']=MEM.replace('''        for x in [0xff, 0x7f] {
            c[i] = x;
''','''        for x in [0xff, 0x7f] {
            c[i] = x;
            for j in i..(i + 3).min(b.len()) {
                c[j] = 0xff;
            }
            if i + 3 < b.len() {
                c[i + 3] = 0x7f;
            }
''')
