CLAIM['A10'] = 'Proved: PdfDrawContext::clear and the success paths of PdfGen::add_page / add_form_xobject leave every member equal to that of a newly constructed context. Harness: the same random application with reused and with new contexts must write identical files.'
CLAIM['A02'] = 'Proved for every draw-context method (all arguments, any recorded content, failing calls included): the text it appends is complete operators with their operands, and the open brackets in the text equal the recorded stack; steal/serialize succeed only with every bracket closed and hand over exactly the recorded text. Loops of any length through inferred invariants over the content grammar. Harness: random applications, written streams judged by an independent reader.'

CLAIM['A12'] = 'Proved for every finite argument: LimitDouble construction and assignment clamp and keep values in range; the colour operators and colour objects of the C interface store and write exactly the clamped components in the documented order and number (ICC and Lab components passed through in order); opacity of graphics states; gradient colours; mesh shading components scaled most significant byte first. Harness: extreme components through every colour call, operands read back from the written page.'
CLAIM['A01'] = 'Proved: every ObjectFormatter method appends exactly the tokens of its contract (application text quoted as one string or name token) and keeps the container stack; every function that builds an object, for all arguments and any number of loop iterations, hands over exactly one complete PDF object (dictionary keys are distinct names each with one value), stream dictionaries are closed once with filter and length. Harness: random applications, every object of the written file read by an independent strict parser.'
CLAIM['A15'] = 'Proved for all arguments and any recorded labels: a label is accepted exactly when its start page exceeds the last recorded one, and then recorded once with exactly the given style, prefix and start number, earlier labels untouched; the C function hands on exactly what was given; the catalog writes one number tree entry per recorded label, first to last, with exactly its start page, style, prefix and start number. Harness: random label sequences against a model, tree of the written file read back.'
CLAIM['A11'] = 'Proved for any recorded outline: add_outline accepts an item exactly under an existing parent, appends it to the items and to the child list of that parent and changes nothing else; create_outlines writes one object per item in order whose Parent, Prev, Next, First, Last and Count entries are those of the child lists, and a root over the top level items; two lemmas (table invariant kept by every call, links mutually inverse) over these contracts give the doubly linked chains. Harness: random outlines, the written tree walked link by link.'
CLAIM['A13'] = 'Proved for all arguments and any recorded state: annotate and add_bcd_structure accept an item exactly when it is not yet recorded by the context (and exists) and record exactly it; add_page is rejected exactly when some item is registered already, and then leaves the document unchanged, otherwise it registers every annotation with the new page object and every structure item with the page number and its content id, appends the parent tree entry and lists the annotations in the page object; the generator hands over what the context recorded; the writers of pages, annotations, structure items and the parent tree write exactly the registered links (loops of any length). Harness: random use by several contexts, registries read back from the file.'
CLAIM['A07'] = 'Proved with a ghost file system: write_to_file reports success only after every byte was accepted, flushed, synced, closed and the temporary file renamed to the requested name, and touches the requested name by that rename alone; every function between the interface and the file hands every failure of a callee on (one obligation per fallible function, loops of any length). Harness: the real library with the n-th write, flush, sync, close, rename failing or short.'
CLAIM['A05'] = 'Proved for all documents with the written file as ghost text: every recorded entry is the position (or place in the object stream) where that object number is written, every object of the table is written once and in order, the table and the cross-reference stream contain exactly the recorded entries, and every stream is written with /Length equal to the number of its data bytes, for every function that creates one. Harness: random documents and documents with 66,000 objects in both file formats against a strict reader.'
CLAIM['A14'] = 'Proved for every exported C function and all arguments, with every library operation allowed to succeed, fail or throw: no exception leaves it, failure of an operation is a nonzero code, output pointers are stored exactly on success, bad booleans, lengths and checked null pointers are rejected with no state changed. Which functions can throw is computed over the whole call graph. The expected argument checks are a reviewed table. Harness: every function with bad arguments and with failing allocations.'
CLAIM['A09'] = 'Proved for any font, any subset and any request: assignment of codes (construct, both get_glyph_subset with search and insertion, handle_subglyphs with composite glyphs of any number): entries are only appended, the code is the position of an entry that shows the requested glyph and holds the character, the search finds exactly the entry of the same request, code 0 stays the missing glyph, codes fit two bytes; get_subset_glyph uses the subset of the font. Text operators of any length: each written code is the one assigned to the element by the font of the text. Written tables, loops of any length: ToUnicode line i is code i and the UTF-16 text of entry i, with blocks of at most 100; the width array, the glyphs and the metrics of the font have one element per entry, computed from the glyph of the entry. Harness: random text in real TrueType and CFF fonts, every code of the written file followed back to outline, width and text with FreeType.'
CLAIM['A03'] = 'Proved for texts of any length: each quoting function (literal string, text string, file specification, name, UTF-16 string, XML character data and attribute value) against a decoder of the PDF or XML syntax: one complete token that decodes to exactly the text. At every call of a quoting function in the library, loops of any length included: a text of the application is handed over as a whole and to the quoting function of its type. Every C function with a text parameter takes the whole text, NUL terminated or as long as its length argument says. Harness: all short byte strings through every quoting function, and documents with text in every place that accepts it, read back.'
CLAIM['A06'] = 'Proved for all arguments and any document: every operation of document, generator and draw context that the C interface calls and that takes an identifier (or a draw context) or returns one succeeds only if each identifier, in nested objects and in lists of any length too, denotes an existing entry of the table of its kind, and a context only if it belongs to this document; a call that fails with an invalid identifier leaves every member of document and context unchanged; returned identifiers exist; only valid identifiers are recorded as used resources; no function removes an entry of a table; C functions hand identifiers on unchanged. Harness: random applications with and without calls that were given invalid identifiers write the same bytes.'
CLAIM['A08'] = 'Every function of the font readers and writers (ft_subsetter, cffsubsetter, bitfiddling, the part search of fontsubsetter) is verified on its own for all arguments and any number of iterations: each element access, subspan, memcpy, dereference, assertion and abort in it is an obligation; calls between them use contracts whose preconditions are obligations of the caller and whose postconditions (as many glyphs as offsets, as many metrics as glyphs, index sizes, a CID font maps its first glyph) are obligations of the callee. Bounded stand-in, not counted as proved: serialize_font and the offset patching of CFFWriter (harness).'
