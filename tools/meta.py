#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json. A property is claimed when mc/checks/<id>.cpp exists."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, note='', technique='explicit-state enumeration of API call sequences on the real library'):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=['src/' + f if '/' not in f else f for f in files],
                     mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe or ['bytes of the written file', 'return codes of the C API'], hook_needed=None)), note, technique))

prop('C01', 'Every written file is a valid PDF document',
 'For every sequence of successful API calls in every document configuration, the written file is syntactically valid: header, cross-reference data, trailer, stream lengths and object syntax are exact, every reference resolves, '
 'and every dictionary has the required keys with values of the types ISO 32000 demands. Content streams contain only known operators with the right operands and use only resources that their resource dictionary defines.',
 ['inputs', 'programs', 'configurations'], 'every combination of features, in every kind of drawing context, for every PDF/X, PDF/A, colour space, tagging and debug configuration',
 'The unit tests write about 90 fixed documents and mostly compare rendered pixels, which tolerant viewers repair; combinations of features and configurations are not reached.',
 ['document.cpp', 'pdfwriter.cpp', 'drawcontext.cpp', 'objectformatter.cpp', 'generator.cpp'],
 [('object writing', 'src/pdfwriter.cpp PdfWriter::write_to_file_impl'), ('cross reference data', 'src/pdfwriter.cpp write_cross_reference_stream/write_cross_reference_table'), ('dictionary formatting', 'src/objectformatter.cpp'), ('resource dictionaries', 'src/drawcontext.cpp build_resource_dict')],
 note='Strict independent reader and an ISO 32000 grammar judge every document of the enumeration; grammar covers the objects the library can emit.')

prop('C02', 'Content streams contain exactly the accepted drawing calls',
 'The content of a page, form, transparency group or tiling pattern is exactly the operators of the accepted drawing calls, in call order, with the operands that were passed (to printing precision) and resource names that denote the resources passed. '
 'Save/restore and marked content must nest properly: calls that would break nesting and contexts that are left unbalanced are rejected, all other calls are accepted.',
 ['programs', 'histories', 'inputs'], 'every sequence of drawing and text calls up to the bound, in all four context kinds, also with several contexts under construction at once',
 'Tests use a handful of hand written sequences; nesting and operator order must hold for every sequence.',
 ['drawcontext.cpp', 'drawcontext.hpp', 'commandstreamformatter.cpp', 'capi.cpp'],
 [('nesting stack', 'src/commandstreamformatter.cpp PdfCommandStreamFormatter'), ('operator emission', 'src/drawcontext.cpp PdfDrawContext::cmd_*'), ('text serialisation', 'src/drawcontext.cpp serialize_text')],
 note='All sequences up to the depth bound are compared with a reference model of a draw context.')

prop('C03', 'A rejected call leaves no trace',
 'When an API call returns an error, the document, draw context, text object, colour or property object it was applied to is unchanged: the file that is finally written, and the results of all later calls, are the same as if the rejected call had never been made. (A failed attempt to write the file, other than for lack of pages, finishes the document.)',
 ['programs', 'histories', 'inputs'], 'every well-formed base document, every position in it and every kind of rejected call at that position',
 'The tests call rejected operations only at the end of a test and never look at the document afterwards.',
 ['capi.cpp', 'document.cpp', 'drawcontext.cpp', 'generator.cpp', 'commandstreamformatter.cpp'],
 [('argument validation before mutation', 'src/capi.cpp'), ('roll back of partial output', 'src/drawcontext.cpp render_text'), ('validation in the document', 'src/document.cpp PdfDocument::add_*')],
 note='Differential: the document with rejected calls inserted must be the same as the one without, for every insertion position.')

prop('C04', 'An id always denotes the object it was returned for',
 'An id returned by the library denotes, wherever it is used (drawing, patterns, soft masks, annotations, fields, structure, functions and shadings), exactly the object that was added, with all its attributes, regardless of which other objects exist and in which order they were created and used. '
 'Objects never alias and loading the same file twice never corrupts either use.',
 ['programs', 'histories'], 'every ordered selection of object kinds and every order of their uses up to the bound',
 'Tests create nearly always one object of a kind, where every index confusion is invisible.',
 ['document.cpp', 'drawcontext.cpp', 'generator.cpp'],
 [('ids', 'src/document.cpp PdfDocument::add_object'), ('resource naming', 'src/drawcontext.cpp build_resource_dict'), ('font bookkeeping', 'src/document.cpp load_font'), ('image cache', 'src/generator.cpp')],
 note='Each object carries a distinguishing label; uses are resolved in the written file and compared with the label.')

prop('C05', 'Invalid arguments are errors, never crashes',
 'Every public function that is given an identifier that was never issued, an enumeration value outside the enumeration, text that is not valid UTF-8 or contains NUL characters, a bad string or array size, or a call that breaks a documented rule (wrong kind of context, wrong document, wrong nesting, wrong colour space, second use, missing profile, malformed file) returns a nonzero error code with a readable message; an object that is built outside a document may be rejected when it is first used in one. '
 'It never crashes, hangs, reads or writes out of bounds, or silently accepts the argument. (Parameters that are byte strings rather than text, such as paths and file contents, accept any bytes; null for a parameter the header declares non-null and non-finite numbers are outside the contract.)',
 ['inputs', 'programs'], 'every parameter of every public function, every class of invalid value, in every relevant object state',
 'Tests cover a handful of wrong arguments out of several hundred parameters.',
 ['capi.cpp', 'document.cpp', 'drawcontext.cpp', 'errorhandling.cpp'],
 [('argument checks at the API boundary', 'src/capi.cpp'), ('id checks', 'src/document.hpp CHECK_INDEXNESS macros'), ('error messages', 'src/errorhandling.cpp')],
 note='Complete enumeration of (function, parameter, invalid class) with sanitizers; remaining API arguments are valid.')

prop('C06', 'Writing is atomic under failures and crashes',
 'If writing the file fails or the process or machine dies at any point, the output path holds either its complete previous contents (or nothing) or the complete new document, and the caller gets an error unless the new document is complete. '
 'Success is reported only when the complete file has been written and synchronised.',
 ['crash_points', 'fault_sequences'], 'a failure of every system call of the write path with every errno class, short writes, and a crash before and after every system call including loss of unsynced data',
 'The tests never make a system call fail and never crash during a write.',
 ['pdfwriter.cpp', 'generator.cpp', 'utils.cpp'],
 [('temporary file, fsync and rename', 'src/pdfwriter.cpp PdfWriter::write_to_file'), ('write errors', 'src/pdfwriter.cpp write_bytes')],
 note='Fault injection on every write-path call and a durability model for crash states.', technique='exhaustive fault and crash point enumeration on the real write path')

prop('C07', 'Text strings survive unchanged and invalid ones are rejected',
 'Every valid UTF-8 string given as title, label, name, contents, key or value is found in the document with exactly the same characters, whatever characters it contains and however its length is given (explicitly or zero terminated). '
 'Strings that are not valid UTF-8 (or not ASCII where that is demanded) and strings with embedded zero bytes are rejected.',
 ['inputs'], 'every string over an alphabet of critical characters up to the bound, and every Unicode scalar value alone, for every string entry point',
 'The tests use a few mostly ASCII strings.',
 ['utils.cpp', 'pdfcommon.cpp', 'capi.cpp', 'objectformatter.cpp', 'xmlformatter.cpp'],
 [('UTF-8 validation', 'src/utils.cpp is_valid_utf8'), ('text string encoding', 'src/utils.cpp utf8_to_pdfutf16be'), ('quoting', 'src/utils.cpp pdfstring_quote'), ('names', 'src/utils.cpp bytes2pdfstringliteral')],
 note='Complete for single scalars and for all strings over the critical alphabet to the depth bound.')

prop('C08', 'Embedded fonts draw and copy as the text that was given',
 'Every codepoint drawn with a loaded font appears in the document as a code whose glyph in the embedded font program has the outline and advance width of that codepoint in the original font file, and whose Unicode mapping is that codepoint (or the given ligature or replacement text). '
 'This holds for every set, order and number of codepoints, beyond 255 glyphs per subset as well, for TrueType and CFF fonts, and the embedded font program is well formed.',
 ['inputs', 'histories'], 'every codepoint of every test font, every ordered selection of critical glyphs, subset sizes around every boundary',
 'Tests render a few words and compare pixels.',
 ['fontsubsetter.cpp', 'ft_subsetter.cpp', 'cffsubsetter.cpp', 'drawcontext.cpp', 'document.cpp'],
 [('subset bookkeeping', 'src/fontsubsetter.cpp FontSubsetter'), ('TrueType tables', 'src/ft_subsetter.cpp'), ('CFF', 'src/cffsubsetter.cpp'), ('widths and ToUnicode', 'src/document.cpp build_subset_cmap/build_subset_width_array')],
 note='FreeType is the oracle: it opens the original and the extracted embedded font; outlines, widths and cmaps are compared.')

prop('C09', 'Images are embedded without loss',
 'An image built from raw samples or loaded from a PNG, TIFF or JPEG file appears in the document with exactly the same size, colour space, pixel values (to their full depth, possibly expanded to eight bits), transparency, ICC profile and properties, for every format and size the library accepts. '
 'Formats it cannot represent are rejected with an error.',
 ['inputs', 'configurations'], 'every combination of format, depth, channels, alpha, size, compression and properties up to the bound',
 'The tests embed ten image files and compare rendered pixels.',
 ['imagefileops.cpp', 'document.cpp', 'colorconverter.cpp', 'generator.cpp'],
 [('loaders', 'src/imagefileops.cpp'), ('embedding', 'src/document.cpp add_image/add_image_object'), ('builder', 'src/capi.cpp capy_raster_image_builder_*')],
 note='Image files are generated for every format combination and the decoded stream is compared sample by sample with the source.')

prop('C10', 'The structure tree is the one that was built',
 'The logical structure of a document is exactly the tree of structure items that was built: types, custom roles, parents, child order and attributes, with every marked content sequence belonging to the item it was opened with. '
 'The parent tree maps every marked content id of every page back to the same item.',
 ['programs', 'histories'], 'every tree shape and every interleaving of content creation over pages up to the bound',
 'One test builds one small tree.',
 ['document.cpp', 'drawcontext.cpp', 'generator.cpp'],
 [('structure items', 'src/document.cpp add_structure_item/write_structure_item'), ('parent tree', 'src/document.cpp create_structure_parent_tree'), ('marked content ids', 'src/drawcontext.cpp add_bdc')],
 note='All trees and content placements up to the bound are compared with a tree model.')

prop('C11', 'Outlines and destinations are the ones that were built',
 'The outline of a document is exactly the forest of items that was added, in order, with their titles, colours, styles and destinations, and with consistent sibling, parent and count entries. '
 'Destinations of outlines and links point at the page and view that was given.',
 ['programs', 'inputs'], 'every forest up to the bound, every destination form for every page',
 'Two tests build one outline each.',
 ['document.cpp', 'generator.cpp', 'capi.cpp'],
 [('outline writing', 'src/document.cpp create_outlines/write_outline'), ('destinations', 'src/document.cpp serialize_destination')],
 note='All forests up to the bound are compared with a model.')

prop('C12', 'Annotations and form fields are faithful and complete',
 'Every annotation that is attached to a page appears in that page exactly once, in the order of attachment, with the type, rectangle, flags and the type specific data it was given, and every form field appears in the field tree with its type, name, value, options, flags and widgets. '
 'An annotation belongs to at most one page.',
 ['programs', 'inputs'], 'every annotation and field kind with every combination of attributes, every assignment to pages up to the bound',
 'The tests contain one document for each of a few kinds.',
 ['document.cpp', 'generator.cpp', 'capi.cpp'],
 [('annotations', 'src/document.cpp write_annotation'), ('form fields', 'src/document.cpp write_form_field'), ('page attachment', 'src/drawcontext.cpp annotate')],
 note='Every kind x attribute subset x page assignment is compared with a model.')

prop('C13', 'Pages keep their order, geometry, labels and transitions',
 'The page tree contains exactly the committed pages in commit order, each with the boxes, transparency group, transition, user attributes and content of its own draw context (or the document defaults), and page labels give every page the label implied by the labelings that were added. '
 'A draw context can be reused after a commit or a clear and then starts empty.',
 ['programs', 'histories', 'configurations'], 'every sequence of page operations up to the bound, with reuse of contexts',
 'Tests write few multi-page documents with one kind of page.',
 ['document.cpp', 'drawcontext.cpp', 'generator.cpp', 'capi.cpp'],
 [('page objects', 'src/document.cpp write_pages/write_delayed_page'), ('context reset', 'src/drawcontext.cpp clear'), ('labels', 'src/document.cpp create_page_labels/add_page_labeling')],
 note='All call sequences up to the bound against a page list model.')

prop('C14', 'Malformed input files are errors, never crashes',
 'Loading a font, image, ICC profile or 3D file that is missing, empty, truncated or corrupted either returns an error or yields a usable object; it never crashes, hangs, or reads or writes out of bounds, and neither does drawing with it and writing the document.',
 ['inputs', 'fault_sequences'], 'every truncation and every single-field corruption of the structural bytes of sample files of every format',
 'There are two fuzz harnesses that are not part of the test suite; tests load only intact files.',
 ['ft_subsetter.cpp', 'cffsubsetter.cpp', 'imagefileops.cpp', 'colorconverter.cpp', 'fontsubsetter.cpp', 'mmapper.cpp'],
 [('bounds checks', 'src/bitfiddling.hpp'), ('font parsers', 'src/ft_subsetter.cpp, src/cffsubsetter.cpp'), ('image loaders', 'src/imagefileops.cpp')],
 note='Complete enumeration of truncations and single-byte/field corruptions of the chosen files under ASan and UBSan.', technique='exhaustive enumeration of file mutations on the real library under sanitizers')

prop('C15', 'Document metadata and conformance claims are truthful',
 'Title, author, creator, language, dates, tagging, XMP metadata, output intent and PDF/X or PDF/A identification appear in the document exactly as set, the header version is one that allows all of it, and a document that claims conformance has the version, file structure, identification, metadata and output intent that the claim requires. '
 'Combinations that cannot be satisfied are refused.',
 ['configurations', 'inputs'], 'every combination of metadata options and conformance levels',
 'Tests write five configurations.',
 ['document.cpp', 'pdfwriter.cpp', 'xmlformatter.cpp', 'capi.cpp'],
 [('info dictionary', 'src/document.cpp generate_info_object'), ('conformance metadata', 'src/document.cpp init/create_catalog'), ('version', 'src/pdfwriter.cpp write_header')],
 note='All combinations of options, judged by an independent table of requirements.')

prop('C16', 'Output is deterministic and generators are independent',
 'The same calls produce the same document, whatever other generators exist in the process, however calls on different generators are interleaved and whatever was written before, and debug mode changes only the representation. '
 'A generator writes at most one document.',
 ['schedules', 'histories', 'configurations'], 'every interleaving of two generators\' call sequences at call granularity, and repeated execution',
 'Tests always use one generator at a time.',
 ['document.cpp', 'generator.cpp', 'pdfwriter.cpp', 'utils.cpp'],
 [('state is per generator', 'src/generator.hpp PdfGen, src/document.hpp PdfDocument'), ('write once', 'src/generator.cpp PdfGen::write')],
 note='Differential over all interleavings within the bound, modulo the documented random id and date.')

prop('C17', 'Colours are those that were set, converted only on request',
 'Colours set on fill, stroke, text, gradients and outlines appear with the components given (clamped to their range) in the colour space given, for every combination of colour space, output colour space and target. Converting an image gives what the colour management of its profiles gives. '
 'Component counts that do not match are rejected.',
 ['inputs', 'configurations'], 'a complete grid over components x colour space x output space x place of use',
 'Tests use a few colours in RGB documents.',
 ['colorconverter.cpp', 'drawcontext.cpp', 'document.cpp', 'pdfcommon.hpp'],
 [('colour conversion', 'src/colorconverter.cpp'), ('colour operators', 'src/drawcontext.cpp set_color'), ('clamping', 'src/pdfcommon.hpp LimitDouble')],
 note='Conversion is compared with an independent LittleCMS transform with the same profiles.')

prop('C18', 'Functions, shadings, patterns and graphics states are faithful',
 'Every function, shading, pattern, graphics state, halftone, soft mask and transparency group appears in the document with exactly the parameters it was given, mesh coordinates and colours to within the stated bit precision, and evaluating it gives the values the parameters imply. '
 'Parameters that contradict each other are rejected.',
 ['inputs', 'programs'], 'every combination of optional parameters and a grid over numeric ones for each object kind',
 'Tests have one document per kind with fixed parameters.',
 ['document.cpp', 'capi.cpp', 'pdfcommon.hpp'],
 [('functions', 'src/document.cpp serialize_function'), ('shadings', 'src/document.cpp serialize_shade4/serialize_shade6'), ('graphics states', 'src/document.cpp add_graphics_state')],
 note='Every parameter subset and grid point is compared with a model; meshes are decoded bit by bit.')

prop('C19', 'Embedded files, collections and XMP metadata are intact',
 'Every embedded file can be extracted by its name with exactly its bytes, name and type; file attachments, collections and their schemas refer to exactly the files and fields that were given. User supplied metadata is stored unaltered.',
 ['inputs', 'programs'], 'every combination of attributes, file counts and contents up to the bound',
 'Tests embed one text file.',
 ['document.cpp', 'capi.cpp', 'xmlformatter.cpp'],
 [('embedding', 'src/document.cpp embed_file/write_embedded_file'), ('name tree', 'src/document.cpp create_names'), ('collections', 'src/document.cpp')],
 note='All attribute subsets and name permutations up to the bound, extracted by an independent reader.')

prop('C20', 'Objects of one document cannot be used in another',
 'A draw context, text object or transparency group that belongs to one generator is rejected with an error by every call that would add it to, or draw it in, another generator\'s document; neither document is changed.',
 ['programs', 'histories'], 'every call that takes two objects with an owner, every assignment of owners',
 'No test mixes two generators.',
 ['capi.cpp', 'generator.cpp', 'drawcontext.cpp'],
 [('ownership checks', 'src/generator.cpp, src/drawcontext.cpp')],
 note='Complete for the functions that take owned objects.')

prop('C21', 'Option objects are values',
 'An object that collects options (colours, shadings, annotations, form fields, properties of pages, documents, images, fonts, transitions, measures, collections, …) has exactly the attributes that were set last when it is used: what is written does not depend on what was set before, on the order of settings, on earlier uses of the object, or on changes of the object (or of objects passed to it) and their destruction after the use.',
 ['histories', 'programs'], 'every sequence of attribute settings and uses up to the bound for 43 types of objects',
 'Tests set every attribute once and use every object once.',
 ['capi.cpp', 'document.cpp', 'generator.cpp', 'drawcontext.cpp'],
 [('setters', 'src/capi.cpp'), ('objects are taken over', 'src/document.cpp add_*, set_*'), ('graphics state, shadings and colours', 'src/pdfcommon.hpp')],
 note='Each history is compared byte for byte with a program in which every use has a fresh object with only the attributes that count; sanitized.')

prop('C22', 'Layers, navigation, transitions and viewports are faithful',
 'Optional content groups, sub-page navigation, page transitions, viewports and measures appear in the document exactly as configured, each page\'s navigation steps toggling exactly the given groups in order forwards and backwards. Only groups that the page uses can be navigated.',
 ['inputs', 'programs'], 'every attribute combination and every group sequence up to the bound',
 'One test per kind with fixed values.',
 ['document.cpp', 'drawcontext.cpp', 'capi.cpp'],
 [('navigation', 'src/drawcontext.cpp add_simple_navigation, src/document.cpp'), ('transitions', 'src/document.cpp serialize_trans'), ('optional content properties', 'src/document.cpp create_catalog')],
 note='Enumerates all attribute subsets; navigation chains are executed as a state machine.')

prop('C23', 'Numbers are written as valid PDF numbers without loss of value',
 'Every finite number that is accepted appears in the file as a plain decimal PDF number (no exponent, no locale effects) whose value equals the argument to six decimals (integers exactly; colour components and opacities are limited to 0…1), wherever numbers can be given, and in every process locale.',
 ['inputs', 'configurations'], 'all binary exponents and critical mantissas for each numeric entry point, and all installed locales',
 'Tests use small round numbers in the C locale.',
 ['commandstreamformatter.cpp', 'objectformatter.cpp', 'drawcontext.cpp', 'document.cpp'],
 [('number formatting', 'src/objectformatter.cpp, src/commandstreamformatter.cpp add_token(double)')],
 note='Complete over all 2046 binary exponents x mantissa grid x entry point.')

prop('C24', 'Text width is the sum of advances as drawn',
 'The width reported for a text equals the sum of the advances of its glyphs, with the kerning that the library applies when it draws the same text, scaled by the font size; it is additive in the text up to kerning, linear in the size, and independent of what was drawn before.',
 ['inputs', 'histories'], 'every codepoint and every ordered pair of critical codepoints for every test font, for a grid of sizes',
 'One test measures two strings.',
 ['generator.cpp', 'drawcontext.cpp'],
 [('measurement', 'src/generator.cpp utf8_text_width'), ('drawing', 'src/drawcontext.cpp serialize_text')],
 note='FreeType advances and kerning are the oracle; the drawn text is measured as well.')

prop('C25', 'The C++ and Python interfaces behave like the C interface',
 'Every operation of the C++ and of the Python interface has exactly the effect of the corresponding C function with the same arguments: the written documents are the same, errors are raised exactly where the C function fails, and objects are released exactly once.',
 ['programs', 'inputs'], 'every method of both interfaces with every combination of optional arguments',
 'Tests use only a part of the methods and do not compare with the C interface.',
 ['include/capypdf.hpp', 'python/capypdf.py', 'capi.cpp'],
 [('C++ wrappers', 'include/capypdf.hpp'), ('Python wrappers', 'python/capypdf.py')],
 note='Differential between the bindings and the C functions for each method.')

prop('C26', 'Everything that is acquired is released',
 'When all handles that a program was given have been destroyed, no memory, file descriptors, file mappings or temporary files of the library are left, whatever the calls were: valid or rejected, with intact or damaged files, abandoned at any point, with a failing disk, or with too little memory. Running out of memory inside a call is an error, not a crash.',
 ['histories', 'faults', 'inputs'], 'every call of a catalogue as the last one, every invalid argument, every broken rule, damaged files, every size limit of the output and every failing allocation',
 'No test looks at what is left, and hardly any makes a call fail.',
 ['capi.cpp', 'document.cpp', 'pdfwriter.cpp', 'imagefileops.cpp', 'colorconverter.cpp', 'mmapper.cpp'],
 [('handles', 'src/capi.cpp *_destroy'), ('fonts', 'src/document.cpp load_font, initialize_multimaster'), ('image decoders', 'src/imagefileops.cpp'), ('temporary file', 'src/pdfwriter.cpp write_to_file')],
 note='All allocations of the process are counted by call; faults are injected by resource limits and by a failing operator new.')

PENDING = 'The check is not built yet.'
with open(HERE + '/properties.jsonl', 'w') as f:
    for p, _, _ in P: f.write(json.dumps(p) + '\n')
checks, na = [], []
for p, note, tech in P:
    i = p['id']
    if os.path.exists(f'{HERE}/mc/checks/{i}.cpp'):
        checks.append(dict(property=i, quick_cmd=f'./run.sh {i} quick', thorough_cmd=f'./run.sh {i} thorough', evidence_file=f'evidence/{i}.json', technique=tech,
            level='fault_enumeration' if i == 'C06' else 'model_checking', level_note=note + ' Bounded: nothing is claimed beyond the enumerated space recorded in the evidence.'))
    else: na.append(dict(property=i, reason=PENDING))
m = dict(version=1, setup_cmd='./run.sh --setup', checks=checks, not_applicable=na,
    notes='Every check compiles /repo/src out of tree, enumerates a bounded space of API histories, inputs, faults or schedules completely and executes each on the real library; see DESIGN.md.')
json.dump(m, open(HERE + '/MANIFEST.json', 'w'), indent=1)
open(HERE + '/MANIFEST.json', 'a').write('\n')
