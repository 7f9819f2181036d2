#!/usr/bin/env python3
"""writes /verif/properties.jsonl (one place to edit the statements)"""
import json, os
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'observe_at': observe, 'hook_needed': None}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    assert len(title) <= 80, title
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why, 'anchors': a})


prop('A01', 'Every serialized PDF object is syntactically well formed',
     'Every object the library writes into a PDF file outside page content (dictionaries for pages, annotations, form fields, fonts, images, colour spaces, functions, shadings, graphics states, outlines, structure items, optional content, catalog and info) is a syntactically valid PDF object: dictionaries and arrays are properly nested and closed, every dictionary consists of name keys each followed by exactly one value, and every token is a valid PDF name, number, string, boolean, null or reference. Numbers are written in plain fixed-point notation, never with an exponent.',
     ['inputs', 'configurations'], 'all property structures and option combinations the API accepts, with finite numbers and any accepted strings, for every object kind',
     'The tests render a few dozen documents, each using one combination of optional entries; a missing separator, unbalanced dictionary or exponent appears only for an untested combination of optional fields, list lengths or magnitudes.',
     ['src/objectformatter.cpp', 'src/document.cpp', 'src/pdfwriter.cpp', 'src/pdfcommon.cpp', 'src/utils.cpp', 'src/generator.cpp'],
     [('object formatter with explicit nesting stack', 'src/objectformatter.cpp'), ('per-kind serializers', 'src/document.cpp, src/pdfwriter.cpp')],
     ['bytes between "N 0 obj" and "endobj"/"stream" in the output file'])
prop('A02', 'Page content streams keep their operators balanced and well formed',
     'At every moment, after any sequence of drawing calls including calls that were rejected with an error, the commands recorded in a draw context nest their save/restore, text and marked-content brackets properly, each bracket closed by its own kind, and a draw context can be turned into page content only when everything is closed. Every recorded operator is preceded by its full operand list, with numbers in fixed-point notation.',
     ['inputs', 'histories'], 'all sequences of draw-context calls of any length with any finite arguments, including failing calls in between',
     'Tests only issue correct, short command sequences and compare rendered images; imbalance needs a rejected call in the middle of a sequence or a particular nesting order.',
     ['src/drawcontext.cpp', 'src/commandstreamformatter.cpp', 'src/capi.cpp'],
     [('state stack of open brackets', 'src/commandstreamformatter.cpp'), ('drawing command methods', 'src/drawcontext.cpp')],
     ['decoded page content streams', 'return codes of capy_dc_* functions'])
prop('A03', 'Text placed in strings, names and XML is escaped losslessly',
     'Whatever text or bytes an application supplies, the PDF string, name, hexadecimal string or XML text the library writes for it is a single syntactically complete token which a conforming reader decodes back to exactly the supplied text. In particular delimiters, backslashes, line endings and markup characters in the input never terminate the token early or change its value. The interface takes the whole text (up to the terminating null, or as many bytes as its length argument says) and every place that writes it uses the quoting of its type: a text string for Unicode text, a byte string, name or file specification otherwise. XML is limited to the characters XML can represent.',
     ['inputs'], 'all byte strings / UTF-8 strings of any length',
     'Tests use a handful of plain ASCII titles and never contain delimiters in unusual positions; the claim ranges over every string.',
     ['src/utils.cpp', 'src/objectformatter.cpp', 'src/xmlformatter.cpp'],
     [('string, name, file specification and XML quoting helpers', 'src/utils.cpp'), ('XML attribute and content writers', 'src/xmlformatter.cpp'), ('C functions that take text', 'src/capi.cpp'), ('places that write text', 'src/document.cpp')],
     ['string and name tokens and the XMP metadata stream in the output file'])
prop('A04', 'UTF-8 input is validated exactly and decoded correctly',
     'A string is accepted as text exactly when it is well-formed UTF-8 (no truncated, overlong, surrogate or out-of-range sequences) without embedded nulls, and for every accepted string iteration yields exactly its Unicode code points in order without reading past its end. Converting an accepted string for a PDF text string yields the byte order mark followed by exactly its UTF-16BE encoding.',
     ['inputs'], 'all byte strings of any length',
     'Unit tests try a few valid and invalid strings; boundary sequences (overlong forms, surrogates, truncation at the end, 4-byte forms) are not enumerated.',
     ['src/utils.cpp', 'src/pdfcommon.cpp', 'src/pdfcommon.hpp'],
     [('UTF-8 validator and UTF-16 writer', 'src/utils.cpp'), ('validated string type and code point iterator', 'src/pdfcommon.cpp')],
     ['error code BadUtf8 from text APIs', 'text strings in the output file'])
prop('A05', 'Cross-reference offsets, object numbers and stream lengths are exact',
     'In every file that is written successfully, each cross-reference entry holds the byte position at which that object number\'s definition starts, every object number below the declared size has exactly one entry, the start offset at the end of the file is the position of the cross-reference data, and every stream\'s declared length equals the number of data bytes between its stream and endstream keywords.',
     ['inputs', 'configurations'], 'all documents: any number and kind of objects, any object sizes, with and without compression',
     'Readers silently repair broken offsets and lengths, so tests that render with Ghostscript or compare images pass; wrong offsets may need particular object kinds or sizes.',
     ['src/pdfwriter.cpp', 'src/objectformatter.cpp', 'src/document.cpp'],
     [('object writer recording the file position', 'src/pdfwriter.cpp: write_finished_object'), ('cross-reference stream and trailer', 'src/pdfwriter.cpp: write_cross_reference_*')],
     ['bytes of the output file'])
prop('A06', 'Resource identifiers are validated before use',
     'Every call that takes the identifier of a font, image, page, annotation, form field, structure item, outline, colour space, pattern, graphics state, shading, optional content group, form object or transparency group either fails with an error code or the identifier denotes an existing object of that kind in that document. An invalid identifier is never used to index internal tables, never terminates the process and never leaves a partial effect on the document.',
     ['inputs', 'histories'], 'all identifier values (negative, out of range, of another document) at every API entry point, in every document state',
     'Tests pass identifiers just returned by the library; invalid ones at each of the dozens of entry points are not tried.',
     ['src/document.cpp', 'src/generator.cpp', 'src/drawcontext.cpp', 'src/capi.cpp'],
     [('index checks at API functions', 'src/errorhandling.hpp: CHECK_INDEXNESS users')],
     ['return codes of API functions taking identifiers'])
prop('A07', 'Writing the output file is all or nothing',
     'When writing a document reports success, the complete file has been flushed, synced and closed without error and then moved to the requested name. When anything fails on the way, an error is reported, a previous file of that name is left untouched, and no success is reported for a short or failed write, flush, sync, close or rename.',
     ['fault_sequences', 'crash_points', 'inputs'], 'every failure of every file operation at any point, and every crash point during writing',
     'Tests write small files to a healthy disk; no I/O call ever fails in them.',
     ['src/pdfwriter.cpp', 'src/generator.cpp'],
     [('temporary file, fsync and rename', 'src/pdfwriter.cpp: write_to_file')],
     ['system calls on the output path, return code of capy_generator_write'])
prop('A08', 'Font files and binary data are parsed without invalid memory access',
     'Loading and subsetting a font from any byte content, valid or malicious, never reads or writes outside the supplied data and the library\'s own buffers: it either succeeds or reports an error (an exception that the C interface turns into an error code included).',
     ['inputs'], 'all byte contents of font files (TrueType, OpenType/CFF, collections), any table directory, any offsets and counts',
     'Tests load a few well-formed system fonts; corrupted offsets and counts are not covered and fuzzing cannot enumerate them.',
     ['src/ft_subsetter.cpp', 'src/cffsubsetter.cpp', 'src/bitfiddling.cpp', 'src/fontsubsetter.cpp'],
     [('bounds-checked extraction helpers', 'src/bitfiddling.cpp'), ('table readers', 'src/ft_subsetter.cpp, src/cffsubsetter.cpp')],
     ['error codes when loading fonts; sanitizer reports'])
prop('A09', 'Font subsets map every shown character to its own glyph',
     'Each character or glyph shown with a loaded font is assigned one code of two bytes in the subset of that font, and the written code shows the requested glyph of the original font: its outline, its width and, for a character, its text in the ToUnicode map. The same character always gets the same code, different characters or different glyphs never share one, codes never change once assigned (a glyph given by number keeps the text it was first used with), and code 0 is always the missing glyph. A request that does not fit is rejected.',
     ['inputs', 'histories'], 'all sequences of glyph requests on a font, of any length and in any order',
     'Tests show one or two short strings; collisions need many glyphs, subset overflow, composite glyphs or mixed code point/glyph id requests.',
     ['src/fontsubsetter.cpp', 'src/document.cpp', 'src/drawcontext.cpp', 'src/pdfwriter.cpp', 'src/ft_subsetter.cpp'],
     [('glyph subset assignment', 'src/fontsubsetter.cpp: get_glyph_subset'), ('text map and widths', 'src/pdfwriter.cpp: create_cidfont_subset_cmap'), ('glyphs of the embedded font', 'src/ft_subsetter.cpp: subset_glyphs')],
     ['bytes of text operators and the font\'s ToUnicode/width tables'])
prop('A10', 'A reset draw context behaves like a new one',
     'After a page or form object has been added successfully from a draw context, the context is reset for reuse and no trace of the previous content remains: its command stream, resources, marked content, annotations, widgets, structure uses, transition, page properties and open-bracket state are those of a freshly created context of the same kind.',
     ['histories'], 'all histories of calls before the reset',
     'Tests reuse a context for at most a couple of pages with the same features; a leaked resource or state only shows with a particular earlier page.',
     ['src/drawcontext.cpp', 'src/drawcontext.hpp', 'src/generator.cpp', 'src/commandstreamformatter.cpp'],
     [('context reset', 'src/drawcontext.cpp: clear'), ('reset after adding a page', 'src/generator.cpp')],
     ['resource dictionary and content of the next page'])
prop('A11', 'Outline tree links are mutually consistent',
     'In the written document outline every item\'s parent, previous, next, first and last links are mutually consistent: children of an item form exactly one doubly linked chain in creation order from its first to its last child, top-level items are chained under the root, and the counts agree with the number of children.',
     ['inputs', 'histories'], 'all outline trees: any number of items, any nesting, any order of creation',
     'Tests build one small outline; wrong links need deeper or wider trees and viewers tolerate many errors.',
     ['src/document.cpp'],
     [('outline serialization', 'src/document.cpp: create_outlines')],
     ['/Outlines tree of the output file'])
prop('A12', 'Colour components are clamped and written in order',
     'Whatever finite number an application passes for a device colour, separation or opacity component, the value stored and written lies between 0 and 1 (or the call is rejected) and values already in range are kept exactly; colour operators, gradient colours and mesh shading colours receive their components in the documented order with exactly the number of components of the colour space, ICC and Lab components as they were given.',
     ['inputs'], 'all finite double values for all component positions of all colour models',
     'Tests use a few in-range colours; clamping edges and component order for each colour model and operator are not enumerated.',
     ['src/pdfcommon.hpp', 'src/drawcontext.cpp', 'src/commandstreamformatter.cpp', 'src/colorconverter.cpp'],
     [('range limited number type', 'src/pdfcommon.hpp: LimitDouble'), ('colour operators', 'src/drawcontext.cpp')],
     ['operands of rg, RG, g, G, k, K operators'])
prop('A13', 'Annotations, widgets and structure items are placed at most once',
     'An annotation (form widgets included) or a structure item is used by at most one page: using it a second time in the same context, or adding a page that uses one an earlier page already uses, is rejected with an error and leaves the document unchanged. When a page is added successfully, every annotation and structure item its context recorded is registered with exactly that page (and, for structure items, with its own marked content number), and the written file says so: the page lists exactly its annotations, each naming that page, and the structure parent tree and the structure items refer to each other consistently.',
     ['histories', 'inputs'], 'all interleavings of annotate, widget and structure calls over any number of contexts',
     'Tests use every annotation once; double use needs a specific history across several contexts.',
     ['src/drawcontext.cpp', 'src/document.cpp'],
     [('usage registries', 'src/document.cpp: add_page'), ('per-context duplicates check', 'src/drawcontext.cpp: annotate')],
     ['return codes of capy_dc_annotate, capy_dc_add_form_widget, capy_generator_add_page'])
prop('A14', 'The C interface reports every failure by its error code, never otherwise',
     'No C++ exception ever leaves a function of the C interface: an error or exception raised inside the library becomes a nonzero error code. Results are stored through output pointers when and only when success is returned. Out-of-range booleans and lengths that are below -1 are rejected with an error code, and null pointers are rejected wherever the function checks for them, before anything is changed.',
     ['inputs', 'fault_sequences'], 'every exported function, all argument values, and every error or exception raised inside the library',
     'Tests call the roughly 300 functions through a binding that always passes valid pointers.',
     ['src/capi.cpp', 'src/errorhandling.cpp'],
     [('API boundary wrappers', 'src/errorhandling.hpp: API_BOUNDARY_START, CHECK_NULL'), ('C functions', 'src/capi.cpp')],
     ['return codes of capy_* functions'])
prop('A15', 'Page labels cover pages in strictly increasing order',
     'The page labels recorded for a document have strictly increasing start pages; a label that would break this is rejected with an error and leaves the earlier labels unchanged, an accepted label is recorded with exactly the style, prefix and start number the application gave, and the written page label tree lists exactly the recorded labels in order.',
     ['inputs', 'histories'], 'all sequences of page label calls with any page numbers',
     'Tests add two labels in correct order.',
     ['src/document.cpp'],
     [('page label insertion', 'src/document.cpp: add_page_labeling')],
     ['/PageLabels number tree', 'return code of capy_generator_add_page_labeling'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P))
