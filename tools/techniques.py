GEN = 'property-based testing (proptest tapes, model-based document generator, round-trip oracle, tape shrinking)'
T['C05'] = (GEN, 'random search over generated sections; every difference in pages, series, titles and section attributes counts')
T['C06'] = (GEN, 'random search over generated paragraphs, runs and styles')
T['C07'] = (GEN, 'random search over tagged elements with shared and own definitions')
T['C08'] = (GEN, 'random search over (nested) tables')
T['C09'] = (GEN, 'random search over images and attachments')
T['C10'] = (GEN, 'random search over ink drawings and embedded ink')
T['C11'] = (GEN, 'random search over nested outlines, groups and list markers')
T['C12'] = (GEN, 'random search over math runs mixed with other runs')
FUZZ = 'fuzzing (structure-aware mutation with edge-coverage guidance, crafted object graphs), tape shrinking'
REL = 'property-based testing (metamorphic relation between two stored spellings of one generated document)'
T['C01'] = (FUZZ, 'random search over damaged, crafted and random inputs; nothing is proved about inputs not generated')
T['C02'] = (FUZZ, 'measured effort against a fixed bound over the same inputs and growing families')
T['C04'] = (REL, 'random search over documents and permitted encodings')
T['C13'] = (REL, 'random search over splits of final states into revision chains with stale content')
T['C14'] = (REL, 'random search over property orders, extra references and id numberings')
T['C26'] = (REL, 'random search over insertions of unknown content, attributes and elements')
T['C28'] = (REL, 'random search over pages sharing identifiers and single-page edits')
T['C21'] = (GEN, 'random search over pages with and without leading text; own rule as the oracle')
T['C23'] = ('property-based testing over the whole code tables (enumerated and random codes), own tables as the oracle', 'small codes enumerated completely, 32-bit codes sampled')
T['C25'] = (GEN, 'random search over strings in all text attributes, incl. invalid UTF-16')
T['C17'] = ('fuzzing (bit-exact package walker marks, cuts and edits at every structural boundary, byte damage)', 'random search over truncations and structural edits of generated packages')
T['C18'] = ('fault injection into generated documents (table-driven, shrinking)', 'random search over single faults at all places reachable in the document')
T['C20'] = (FUZZ, 'random search over foreign, near-miss and random byte strings')
T['C03'] = ('property-based testing (repeat, parser instance, thread and process differential over well-formed, damaged and random inputs)', 'random search; thread schedules are whatever the system gives, repeated per case')
T['C19'] = ('property-based testing (differential between entry points, call histories and appended bytes)', 'random search over sections, notebooks and call histories')
T['C15'] = ('property-based testing (generated folder trees and listings against an independent model of the notebook)', 'random search over folder trees, listings and order numbers')
T['C16'] = ('property-based testing with file system monitoring (inotify over the parent of the folder, hostile names and links)', 'random search over names and links; opened files observed by the operating system')
T['C22'] = ('property-based testing with full before/after snapshots of a generated folder tree', 'random search over trees, faults in them, and entry points')
T['C24'] = (GEN, 'random search over stored names, file names and folder names')
T['C27'] = ('property-based testing (differential between the built command line tool and the library)', 'random search over files, paths and arguments')
