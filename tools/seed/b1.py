P='src/one/property/'; PS='src/one/property_set/'; ON='src/onenote/'; F='src/fsshttpb/'
BUGS=[
dict(id='c05-zero-height',prop='C05',needs='a page whose stored height is 0 or negative',breaks='The page height is dropped when it is not positive.',
 edits=[(ON+'page.rs','height: data.page_height,','height: data.page_height.filter(|height| *height > 0.0),')]),
dict(id='c05-level-byte',prop='C05',needs='a page level above 127',breaks='Page levels are cut to a signed byte.',
 edits=[(PS+'page_metadata.rs','.unwrap_or(0) as i32;','.unwrap_or(0) as i8 as i32;')]),
dict(id='c05-series-dedup',prop='C05',needs='two page series with content, the second empty one in between',breaks='Empty page series are left out.',
 edits=[(ON+'section.rs','''        .map(|page_series_id| parse_page_series(page_series_id, &store))
        .collect::<Result<_>>()?;''','''        .map(|page_series_id| parse_page_series(page_series_id, &store))
        .filter(|series| !matches!(series, Ok(series) if series.pages().is_empty()))
        .collect::<Result<_>>()?;''')]),
dict(id='c06-run-style-merge',prop='C06',needs='a paragraph in which two neighbouring runs refer to the same style object',breaks='Neighbouring runs sharing a style object are reported with one style.',
 edits=[(ON+'rich_text.rs','''    let styles = styles_data.into_iter().map(parse_style).collect_vec();''','''    let styles = styles_data
        .into_iter()
        .zip(&data.text_run_formatting)
        .dedup_by(|(_, a), (_, b)| a == b)
        .map(|(style, _)| parse_style(style))
        .collect_vec();''')]),
dict(id='c06-last-index',prop='C06',needs='a paragraph whose last run index is the end of its text',breaks='A run end equal to the length of the text is dropped.',
 edits=[(ON+'rich_text.rs','''        text_run_indices: data.text_run_indices,
        paragraph_style,''','''        text_run_indices: trim_indices(data.text_run_indices, text_len),
        paragraph_style,'''),
 (ON+'rich_text.rs','''    let text = RichText {
        text,''','''    let text_len = text.encode_utf16().count();
    let text = RichText {
        text,'''),
 (ON+'rich_text.rs','''fn parse_embedded_ink_space(''','''fn trim_indices(mut indices: Vec<u32>, len: usize) -> Vec<u32> {
    // The last run always extends to the end of the paragraph
    if len > 0 && indices.last() == Some(&(len as u32)) {
        indices.pop();
    }

    indices
}

fn parse_embedded_ink_space(''')]),
dict(id='c06-language-u16',prop='C06',needs='a style with a language code above 0xFFFF',breaks='Language codes of styles are cut to 16 bits.',
 edits=[(ON+'rich_text.rs','language_code: data.language_code,\n        math_formatting','language_code: data.language_code.map(|code| code & 0xFFFF),\n        math_formatting')]),
dict(id='c07-tag-status-carry',prop='C07',needs='an element with two tags that share a definition but differ in status',breaks='Later tags with a definition already seen on the element take the first tag\'s status.',
 edits=[(ON+'note_tag.rs','''    note_tags
        .into_iter()
        .map(|data| {
            Ok(NoteTag {
                completed_at: data.completed_at,
                item_status: data.item_status,''','''    let mut seen = std::collections::HashMap::new();

    note_tags
        .into_iter()
        .map(|data| {
            let item_status = match data.definition {
                Some(id) => *seen.entry(id).or_insert(data.item_status),
                None => data.item_status,
            };

            Ok(NoteTag {
                completed_at: data.completed_at,
                item_status,''')]),
dict(id='c08-row-limit',prop='C08',needs='a table that stores fewer rows in its count than in its row list, or more than 2 rows',breaks='Rows beyond the column count of the table are left out.',
 edits=[(ON+'table.rs','''        .into_iter()
        .map(|row_id| parse_row(row_id, space))''','''        .into_iter()
        .take(data.row_count as usize)
        .map(|row_id| parse_row(row_id, space))''')]),
dict(id='c08-locked-pad',prop='C08',needs='a table whose locked-column flags end in zero bytes',breaks='Trailing zero bytes of the locked-column flags are dropped.',
 edits=[(PS+'table_node.rs','''        .map(|value| value.into_iter().skip(1).collect())
        .unwrap_or_default();''','''        .map(|value| {
            let mut flags: Vec<u8> = value.into_iter().skip(1).collect();
            while flags.len() > 1 && flags.last() == Some(&0) {
                flags.pop();
            }
            flags
        })
        .unwrap_or_default();''')]),
dict(id='c09-blob-guid',prop='C09',needs='two stored binary objects whose identifiers differ only in the number',breaks='Blobs are found by the guid of their identifier alone, so one element gets another\'s data.',
 edits=[(F+'data_element/mod.rs','pub(crate) object_data_blobs: HashMap<ExGuid, ObjectDataBlob>','pub(crate) object_data_blobs: HashMap<Guid, ObjectDataBlob>'),
 (F+'data_element/mod.rs','self.object_data_blobs.get(&id).map','self.object_data_blobs.get(&id.guid).map'),
 (F+'data_element/mod.rs','''                    .object_data_blobs
                    .insert(id, ''','''                    .object_data_blobs
                    .insert(id.guid, '''),
 (F+'data_element/mod.rs','use std::collections::{BTreeMap, HashMap};','use crate::shared::guid::Guid;\nuse std::collections::{BTreeMap, HashMap};')]),
dict(id='c09-extension-dot',prop='C09',needs='a picture container whose stored extension has no leading dot or several',breaks='The extension is normalised to one leading dot.',
 edits=[(ON+'image.rs','''        (Some(data.data), data.extension)''','''        (
            Some(data.data),
            data.extension
                .map(|ext| ext.trim_start_matches('.').to_string()),
        )''')]),
dict(id='c10-single-point',prop='C10',needs='a stroke with exactly one point',breaks='A stroke of one point is reported without points.',
 edits=[(ON+'ink.rs','''        .copied()
        .zip(y.iter().copied())
        .map(|(x, y)| InkPoint {''','''        .copied()
        .zip(y.iter().copied())
        .filter(|_| dimension_offset > 1)
        .map(|(x, y)| InkPoint {''')]),
dict(id='c10-ink-i32',prop='C10',needs='a stroke with a coordinate beyond 32 bits',breaks='Stroke coordinates are cut to 32 bits.',
 edits=[(ON+'ink.rs','x: scale_x * x as f32,','x: scale_x * x as i32 as f32,')]),
dict(id='c10-scale-y-fallback',prop='C10',needs='a drawing that stores a horizontal scale but no vertical one',breaks='The vertical scale falls back to the horizontal one.',
 edits=[(ON+'ink.rs','''        container.ink_scaling_x,
        container.ink_scaling_y,
    )?;''','''        container.ink_scaling_x,
        container.ink_scaling_y.or(container.ink_scaling_x),
    )?;''')]),
dict(id='c11-child-level-group',prop='C11',needs='an outline group whose child level differs from that of the first element in it',breaks='A group takes the child level of its first element.',
 edits=[(ON+'outline.rs','''    let group = OutlineGroup {
        child_level: data.child_level,
        outlines,
    };''','''    let group = OutlineGroup {
        child_level: first_level(&outlines).unwrap_or(data.child_level),
        outlines,
    };'''),(ON+'outline.rs','''    let outlines = data
        .children
        .into_iter()
        .map(|item_id| parse_outline_item(item_id, space))
        .collect::<Result<_>>()?;''','''    let outlines: Vec<OutlineItem> = data
        .children
        .into_iter()
        .map(|item_id| parse_outline_item(item_id, space))
        .collect::<Result<_>>()?;'''),
 (ON+'outline.rs','pub(crate) fn parse_outline_element(','''fn first_level(items: &[OutlineItem]) -> Option<u8> {
    items
        .iter()
        .filter_map(|item| match item {
            OutlineItem::Group(group) => Some(group.child_level),
            OutlineItem::Element(_) => None,
        })
        .next()
}

pub(crate) fn parse_outline_element(''')]),
dict(id='c11-restart-sign',prop='C11',needs='a list marker that restarts at 0 or a negative number',breaks='Restart numbers below 1 are dropped.',
 edits=[(ON+'list.rs','list_restart: data.list_restart,','list_restart: data.list_restart.filter(|restart| *restart > 0),')]),
dict(id='c12-math-zip',prop='C12',needs='a paragraph in which a run that is not math comes before a math run',breaks='Run data is matched to the math runs only, so later math objects come from other runs.',
 edits=[(ON+'rich_text.rs','''    let math_inline_objects = text_run_data
        .iter()
        .zip(&styles_data)
''','''    let math_inline_objects = text_run_data
        .iter()
        .zip(styles_data.iter().skip_while(|style| !style.math_formatting))
''')]),
dict(id='c12-char-default',prop='C12',needs='a math object that stores a second but no first operator character',breaks='The first operator character falls back to the second.',
 edits=[(ON+'math_inline_object.rs','        char1: data.char1,','        char1: data.char1.or(data.char2),')]),
dict(id='c13-chain-limit',prop='C13',needs='a chain of more than 8 revisions in which something is only stored in an old one',breaks='Base revisions are followed for 8 steps only.',
 edits=[('src/onestore/object_space.rs','rev_id = base_rev_id;','rev_id = base_rev_id.filter(|_| visited.len() < 8);')]),
dict(id='c13-root-from-base',prop='C13',needs='a root that a base revision declares differently from the newest one',breaks='The oldest declaration of a root wins.',
 edits=[('src/onestore/revision.rs','''            roots
                .entry(RevisionRole::parse(root.root_id)?)
                .or_insert(root.object_id);''','''            roots.insert(RevisionRole::parse(root.root_id)?, root.object_id);''')]),
dict(id='c14-nested-count',prop='C14',needs='references inside a nested property set stored before another reference',breaks='References inside a property set are not counted.',
 edits=[(P+'object_reference.rs','PropertyValue::PropertySet(set) => Self::count_references(set.values()),\n','')]),
dict(id='c14-null-slot',prop='C14',needs='a null reference in a list followed by other references in the same object',breaks='Null ids do not take a place in the reference stream.',
 edits=[('src/onestore/types/object_prop_set.rs','''        let object_ids = (0..header.count)
            .map(|_| CompactId::parse(reader))
            .collect::<Result<Vec<_>>>()?;

        let mut object_space_ids''','''        let object_ids = (0..header.count)
            .map(|_| CompactId::parse(reader))
            .filter(|id| !matches!(id, Ok(id) if id.is_null()))
            .collect::<Result<Vec<_>>>()?;

        let mut object_space_ids''')]),
dict(id='c23-checkable',prop='C23',needs='a note tag with icon 69 or so: the third yellow check box',breaks='One check box icon is not reported as checkable.',
 edits=[(P+'note_tag_shape.rs','''                | NoteTagShape::YellowCheckBox3
''','')],rust='''use onenote_parser::Parser;
fn main(){unreachable!()}''',skip=True),
dict(id='c25-bom',prop='C25',needs='a text beginning with U+FEFF',breaks='A leading byte order mark is stripped from texts.',
 edits=[('src/utils.rs','''        let value = U16CString::from_vec_truncate(data);''','''        let skip = usize::from(data.first() == Some(&0xFEFF));
        let value = U16CString::from_vec_truncate(&data[skip..]);''')]),
dict(id='c25-latin1-c1',prop='C25',needs='a paragraph stored in 8-bit form with a byte from 0x80 to 0x9F',breaks='8-bit text is decoded as windows-1252.',
 edits=[(P+'simple.rs','let text = decode_latin1(data).to_string();','let (text, _) = encoding_rs::WINDOWS_1252.decode_without_bom_handling(data);\n    let text = text.into_owned();'),(P+'simple.rs','use encoding_rs::mem::decode_latin1;\n','')]),
dict(id='c26-unknown-dropped',prop='C26',needs='content of an unsupported kind inside an outline element',breaks='Unsupported content of an outline element is left out.',
 edits=[(ON+'outline.rs','''        .map(|content_id| parse_content(content_id, space))
        .collect::<Result<_>>()?;''','''        .map(|content_id| parse_content(content_id, space))
        .filter(|content| !matches!(content, Ok(Content::Unknown)))
        .collect::<Result<_>>()?;''')]),
dict(id='c28-revision-cache',prop='C28',needs='two pages whose revisions carry the same revision id',breaks='Revisions are remembered by context and revision id, so a page takes over the objects of another.',
 edits=[('src/onestore/revision.rs','''            Self::parse_group(context_id, *group_id, object_space_id, packaging, objects)?
        }
''','''            Self::parse_group(context_id, *group_id, object_space_id, packaging, objects)?
        }

        revision_cache.insert(
            CellId(context_id, revision_manifest.rev_id),
            Revision {
                objects: objects.clone(),
                roots: roots.clone(),
            },
        );
''')]),
]
BUGS=[b for b in BUGS if not b.get('skip')]
