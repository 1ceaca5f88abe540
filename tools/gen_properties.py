#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the statements)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
CORE, DEC, ENC, UTIL, XC, TF = ('ebmlite/core.py', 'ebmlite/decoding.py', 'ebmlite/encoding.py',
                                'ebmlite/util.py', 'ebmlite/xml_codecs.py', 'ebmlite/threaded_file.py')
P = []


def p(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=None)))


p('C01', 'Reads do not depend on where the shared stream was left',
  "Reading an element's value, raw bytes, raw value, children, length or indexed child gives a result determined by the element and the file contents alone, never by the position at which the stream shared with other elements happened to be left. This also holds when other elements are read between two steps of an iteration.",
  ['histories', 'inputs'], 'any interleaving of reads through elements sharing a stream; any element type; any starting stream position',
  'Tests read elements in a handful of fixed orders; the property quantifies over every earlier history of seeks.',
  [CORE, DEC], [('Element.value/getRaw/getRawValue seek before reading', 'Element'), ('iteration re-seeks before every child', 'MasterElement.__iter__, Document.__iter__, MasterElement.size')],
  ['Element.value', 'getRaw', 'getRawValue', 'iteration', 'len', 'indexing'])
p('C02', 'Eager, lazy and re-read values are the same',
  "An element's value is the same whether it was read when the element was parsed, on first access, on a later access, or again after its cached value was cleared. Clearing the cache returns the number of cached values dropped (including those of children when recursing) and leaves the element readable.",
  ['inputs', 'histories'], 'every element type, precache setting, payload and sequence of accesses and cache clearings',
  'Tests compare single sample values; they do not relate the eager and lazy paths for every type and payload size.',
  [CORE], [('precache in parseElement', 'MasterElement.parseElement'), ('lazy value property', 'Element.value, MasterElement.value'), ('gc', 'Element.gc, MasterElement.gc')],
  ['Element.value', 'Element.gc'])
p('C03', 'Element geometry: offsets, sizes and raw extents are exact',
  "A parsed element's offset is where its ID starts, its payload offset is offset plus ID length plus size-descriptor length, and its size is the decoded size; the next sibling starts exactly at payload offset plus size. Raw bytes are exactly the bytes from offset to the payload's end, and the raw value exactly those of the payload. The length (len) of an ASCII, binary or Void element is that size in bytes; that of a UTF-8 element is the number of characters of its value.",
  ['inputs'], 'every ID length, size-descriptor length, size value and element type',
  'Tests check a few fixed elements; header-length and size combinations are unbounded.',
  [CORE, DEC], [('parseElement computes offsets', 'MasterElement.parseElement'), ('getRaw/getRawValue', 'Element'), ('length of text and binary elements', 'StringElement, UnicodeElement, BinaryElement: __len__')],
  ['Element.offset/payloadOffset/size', 'getRaw', 'getRawValue', 'len(element)'])
p('C04', 'Iterating a master yields its children in order, inside its extent',
  "Iterating a master element of known size yields each child exactly once in file order, beginning at its payload offset, and never yields an element that starts at or beyond its payload's end. Length, indexing and value agree with that iteration.",
  ['inputs'], 'every known-size master, any number and size of children, followed by any data',
  'Tests iterate a few sample masters; contents after the extent, and counts of children, are unbounded.',
  [CORE], [('loop bound by payloadEnd', 'MasterElement.__iter__'), ('length and value', 'MasterElement.__len__, MasterElement.value')],
  ['iteration', 'len', 'value', 'indexing'])
p('C05', 'Only running out of data ends iteration quietly',
  "While iterating a document or master element (or computing the size of an unknown-size one), only running out of data at (or within) an element header ends the iteration without an error. Any other failure - an I/O error, an invalid element ID, or a payload that cannot be decoded - reaches the caller; creating a document never raises because of the file's contents.",
  ['fault_sequences', 'inputs'], 'a failure at any read or decode step of any iteration',
  'Tests never inject read or decode failures into iteration.',
  [CORE, DEC], [('except clauses around parseElement', 'MasterElement.__iter__, MasterElement.size, Document.__iter__'), ('header pre-read in the constructor', 'Document.__init__')],
  ['iteration', 'len', 'value', 'size', 'Document()'])
p('C06', 'Unknown-size masters end at the first non-child or end of file',
  "A master element whose size is unknown extends over consecutive elements whose IDs are its own schema children or schema globals, and ends immediately before the first other element, or at the end of the file. Its size, length and children all reflect that extent.",
  ['inputs'], 'every sequence of elements following an unknown-size master header',
  'One test builds a single unknown-size example.',
  [CORE], [('size property loop', 'MasterElement.size'), ('valid child test', 'MasterElement._isValidChild')],
  ['MasterElement.size', 'len', 'iteration'])
p('C07', 'Element ID and size decoding is exact for every encoding length',
  "For every first byte, the decoded length of an ID or size descriptor is the position of its highest set bit; a decoded size is the descriptor's value without the length marker, and exactly the all-ones value of each length decodes as unknown size. IDs keep their marker bits and IDs longer than four bytes raise IOError; exactly the descriptor's bytes are consumed.",
  ['inputs'], 'all first bytes, all following bytes, all lengths 1 to 8',
  'Tests sample some descriptors; the input space is 2**64.',
  [DEC], [('decodeIntLength, decodeIDLength', DEC), ('readElementID, readElementSize', DEC)],
  ['readElementID', 'readElementSize', 'decodeIntLength', 'decodeIDLength'])
p('C08', 'Each ID is dispatched to its schema class, otherwise to Unknown',
  "Parsing an element whose ID is in the document's schema yields an instance of the class the schema registered for that ID; any other ID yields the schema's unknown-element handler's object, carrying that ID and schema. Nothing else about the element or the stream affects this choice, and it never depends on whether the value is cached eagerly.",
  ['inputs'], 'every element ID and schema',
  'Tests parse a few IDs; nothing shows that no other input changes dispatch.',
  [CORE], [('lookup in schema.elements, fallback to schema.UNKNOWN', 'MasterElement.parseElement')],
  ['parsed element class and id'])
p('C09', 'Encoded IDs and sizes decode to themselves',
  "For every size up to 2**56-2, encoding it with no or any sufficient explicit length yields a descriptor of the minimal or given length that decodes to the same size and never to unknown; an explicit length too short raises ValueError. Unknown size encodes as all one bits of the requested length, and an element ID encodes as its own big-endian bytes with an impossible explicit length raising ValueError.",
  ['inputs'], 'all sizes, IDs and explicit lengths',
  'Tests sample a few sizes and lengths; class boundaries for every length are not covered.',
  [ENC], [('getLength, encodeSize, encodeId', ENC)], ['encodeSize', 'encodeId', 'getLength'])
p('C10', 'Every encoded element is framed ID, size of payload, payload',
  "Encoding a value yields the element's ID, a size descriptor equal to the number of payload bytes that follow (or unknown size, permitted for master elements only), and the payload. A list of values for a repeatable element yields one complete element per item in order with the same options applied to each, and raises ValueError for an element that is not repeatable; a master's payload is the concatenation of its items' encodings in the given order.",
  ['inputs'], 'every element type, value, explicit length and size-length, and list of values',
  'Tests encode a few short values; size/payload agreement must hold for every payload length and option.',
  [CORE], [('Element.encode framing', 'Element.encode'), ('master payload', 'MasterElement.encodePayload, MasterElement.encode'), ('document output', 'Document.encode')],
  ['Element.encode', 'Document.encode'])
p('C11', 'Explicit lengths are honoured exactly or refused',
  "When an explicit length is given, an encoded integer, binary, string, Unicode or void payload has exactly that length. Integers and binary data that do not fit raise ValueError instead of losing data, text is cut to the length, and floats and dates accept only the lengths they can be read back from.",
  ['inputs'], 'every value, type and explicit length',
  'Tests sample a few values and lengths.',
  [ENC, CORE], [('length handling in encode functions', ENC), ('length from schema', 'Element.encode')],
  ['encodeInt', 'encodeUInt', 'encodeBinary', 'encodeString', 'encodeUnicode', 'encodeFloat', 'encodeDate'])
p('C12', 'Writers and readers of each type agree on the representation',
  "For every element type, what is written for a value is what that type's reader turns back into the same value: unsigned and two's-complement big-endian integers of 0 to 8 bytes, IEEE big-endian floats of 0, 4 or 8 bytes, ASCII and UTF-8 text ended by a zero byte or the payload's end, raw binary, and dates as signed 64-bit nanoseconds since 2001-01-01 UTC. Integers outside the 64-bit range are refused, as are float, date and integer payload lengths the type does not have.",
  ['inputs'], 'all representable values and payload sizes of every type',
  'Round trips are tested on samples only.',
  [DEC, ENC, CORE], [('read* functions', DEC), ('encode* functions', ENC), ('parse and encodePayload per class', CORE)],
  ['read*', 'encode*', 'Element.parse', 'Element.encodePayload'])
p('C13', 'A schema is a consistent registry of its definition',
  "After a schema is created, an element class is reachable by its ID and by its name, belongs to that schema, and carries the type, ID, name, multiple, mandatory, precache and length of its first definition; it is a valid child of every master (or the root) it is defined under, and a global if declared so. A repeated definition by ID or name adds only a parent; one with conflicting type or attributes raises and leaves the registered class, attributes and globals unchanged.",
  ['inputs', 'histories'], 'every sequence of element definitions in either schema dialect',
  'Tests add a few elements; every combination and order of attributes and repeats is not covered.',
  [CORE], [('addElement', 'Schema.addElement'), ('dialect parsers and type tables', 'Schema._parseSchema, Schema._parseLegacySchema')],
  ['Schema[...]', 'Schema.elements', 'Element.children'])
p('C14', 'Schema cache returns the same instance unless reloading',
  "Loading or parsing a schema under the same name returns the same instance, while reload=True always returns a new one, which later loads then return. A load that fails raises and leaves the cache as it was, and loading by name or by the resolved file path share the instance.",
  ['histories'], 'every sequence of loads and parses, successful or failing',
  'Tests load a schema at most twice and never after a failure.',
  [CORE], [('SCHEMATA cache', 'loadSchema, parseSchema')], ['loadSchema', 'parseSchema'],
  [('SCHEMATA', 'loaded schemata by name', CORE)])
p('C15', 'Operations never change shared library state',
  "Apart from loading schemata into the schema cache and adding elements to a schema, no public operation (reading, encoding, converting, printing) changes a module's variables, an element or document class, a codec registry or a schema. Converting or parsing one document therefore cannot change the outcome of a later, unrelated operation.",
  ['histories'], 'every sequence of operations',
  'Each test looks at one operation in isolation; interference needs all pairs of operations.',
  [CORE, UTIL, ENC, DEC, XC, TF], [('no assignment to module or class state outside loading', 'all modules')], ['any later operation'])
p('C16', 'Caller-supplied arguments are never modified',
  "No public function modifies a list, dictionary, set, buffer or XML tree passed to it; only streams passed for output are written, and toXml only appends to the parent it is given.",
  ['inputs', 'histories'], 'every public function and mutable argument',
  'Tests do not compare arguments before and after calls.',
  [CORE, UTIL, ENC, XC], [('copies of arguments', 'encode*, addElement, printSchemata, xml2ebml')], ['arguments after the call'])
p('C17', 'Files are closed by whoever opened them, on every path',
  "Every file the library opens for a single operation (schema loading, xml2ebml, printSchemata, command-line output) is closed when the operation ends, whether it returns or raises, and a document opened from a filename closes its file on close or context exit. Streams supplied by the caller are never closed.",
  ['fault_sequences', 'inputs'], 'every exit, normal or exceptional, of every operation that opens or is given a stream',
  'Tests do not make conversions fail midway or check stream state afterwards.',
  [CORE, UTIL, 'ebmlite/tools/utils.py'], [('with blocks, finally', 'loadSchema, xml2ebml, printSchemata, load_files'), ('_ownsStream', 'Document')],
  ['file.closed'])
p('C18', 'Reading never opens for writing or writes the source',
  "Loading and reading documents and schemata opens files in read mode only, and never writes to, truncates or otherwise modifies the stream or file it reads from.",
  ['inputs'], 'every read operation on every element type',
  'Tests use fresh sample files and do not detect writes.',
  [CORE, DEC], [('open modes', 'Document.__init__, loadSchema')], ['source stream'])
p('C19', 'A thread-aware file gives every thread its own stream',
  "Every file operation on a thread-aware file acts on the stream belonging to the calling thread, opened on that thread's first use with the original arguments and reused afterwards, and returns what that stream returns for the same arguments. One thread's operations never touch another thread's stream.",
  ['schedules'], 'every interleaving of operations by any number of threads',
  'One multi-threaded test samples a few schedules of three methods.',
  [TF], [('getThreadStream and delegating methods', 'ThreadAwareFile')], ['read', 'seek', 'tell', 'other file methods'])
p('C20', 'A thread-aware file is read-only',
  "A thread-aware file cannot be created with any mode that writes, appends, updates or creates, whether given positionally or by keyword, and nothing is opened in that case. Its write, writelines and truncate always raise without touching any stream.",
  ['inputs'], 'every mode string and way of passing it; every call',
  'Tests never open one with a writing mode.',
  [TF], [('mode check', 'ThreadAwareFile.__init__'), ('write, writelines, truncate', 'ThreadAwareFile')], ['constructor', 'write', 'truncate'])
p('C21', 'Thread-aware housekeeping always releases the gate',
  "Closing and cleaning up a thread-aware file leave it usable by other threads even if closing a stream fails: the gate that other threads wait on is always set again. Closing affects only the calling thread's stream, closing all closes every stream, and cleanup forgets exactly the closed streams.",
  ['schedules', 'fault_sequences'], 'every failure point inside housekeeping; any number of threads',
  'Tests never close a thread-aware file, and never make a close fail.',
  [TF], [('_ready event with try/finally', 'closeAll, cleanup, close')], ['close', 'closeAll', 'cleanup'])
p('C22', 'XML written from a document is read back as the same elements',
  "For every element type, what toXml writes (tag, value or encoded text, and the id needed for unknown elements) is what XML-to-EBML conversion reads for that type, so each converts back to the same ID and value. Both directions handle every element type, text is never escaped twice, and binary data uses the codec named in the element's encoding attribute.",
  ['inputs'], 'every element type, value, codec and option',
  'Round trips are tested on sample files that contain no dates, non-ASCII text or unknown elements.',
  [UTIL, XC], [('type branches', 'toXml, xmlElement2ebml')], ['toXml', 'xmlElement2ebml'])
p('C23', 'Options apply at every depth of a recursive conversion',
  "Every option given to toXml, pprint and XML-to-EBML conversion (attributes to write, codecs, values, indentation, output, size length, permission for unknown elements) applies to nested elements exactly as it does to the top element.",
  ['inputs'], 'every option value and nesting depth',
  'Tests pass few options and look at the top level.',
  [UTIL], [('recursive calls', 'toXml, pprint, xmlElement2ebml')], ['toXml', 'pprint', 'xml2ebml'])
p('C24', 'XML-to-EBML conversion writes masters with correct sizes in place',
  "A master element converted from XML is written as its ID, a size descriptor and its children in order, the size being the number of bytes its children occupy and encoded in the width that was reserved for it; the stream is left at its end. The returned count is the number of bytes written, for every element, and comments write nothing.",
  ['inputs'], 'every XML tree, size-length option and starting stream position',
  'Tests convert sample trees only.',
  [UTIL], [('reserve, recurse, seek back and rewrite', 'xmlElement2ebml')], ['xmlElement2ebml', 'xml2ebml'])
p('C25', 'Binary codecs keep one contract',
  "Every registered codec, for encoding and decoding alike, returns the converted data when no stream is given, and otherwise writes exactly that data to the stream and returns the number of characters or bytes written. Each is registered under its own name, and decoding ignores the formatting (columns, indentation, line breaks, offsets) chosen when encoding.",
  ['inputs'], 'every codec, data, option and stream',
  'Tests use a few codec options and sample data.',
  [XC], [('encode/decode per codec', XC), ('BINARY_CODECS', XC)], ['BinaryCodec.encode', 'BinaryCodec.decode'])
p('C26', 'Command-line tools never overwrite without permission',
  "The conversion and viewing tools open an output file for writing only if it does not exist or overwriting was requested, and only after the input was found and the schema loaded; otherwise they exit with an error status and create nothing. Binary output is opened in binary mode and text output in text mode.",
  ['configurations', 'inputs'], 'every combination of arguments and file states',
  'Tests run the tools on a few valid inputs with fresh outputs.',
  ['ebmlite/tools/utils.py', 'ebmlite/tools/ebml2xml.py', 'ebmlite/tools/xml2ebml.py', 'ebmlite/tools/view_ebml.py'],
  [('load_files', 'ebmlite/tools/utils.py')], ['output file'])
p('C27', 'Generated IDs are valid, unused and within the requested range',
  "Every ID that createID returns is accepted by validateID, has the encoded length of the requested class, lies between the given minimum and maximum inclusive, and is neither excluded nor in the schema; the result holds the lowest such IDs, without repeats, and no more than requested. validateID accepts exactly the documented ranges, raising ValueError otherwise.",
  ['inputs'], 'every schema, class, range, exclusion and count; every integer ID',
  'Tests sample a few IDs and counts.',
  [UTIL], [('ranges tables', 'createID, validateID')], ['createID', 'validateID'])
p('C28', 'Crawling visits every element once, in document order',
  "Iterating flatly visits every element down to the given depth (without limit if none is given) exactly once, parents before children, in file order; verifying reads every leaf value at any depth and fails on any unknown element; dumping includes every child defined by the schema under its name, nested like the elements, collecting repeatable ones in lists in file order.",
  ['inputs'], 'every element tree and depth limit',
  'Tests crawl sample trees only.',
  [UTIL, CORE], [('flatiter', UTIL), ('Schema.verify, MasterElement.dump', CORE)], ['flatiter', 'Schema.verify', 'dump'])
p('C29', 'Schema listing and loading search the same places in the same order',
  "A schema loaded by base name that is not in the current directory is the first match found in the search paths in order, whether the default list or the one given; paths that name missing modules are skipped rather than failing. Listing reports, per base name, every file with a schema root element in that same order, and a name that is found nowhere raises IOError.",
  ['configurations'], 'every list of search paths and file layout',
  'Tests use the default paths and one module path.',
  [CORE], [('search loops', 'loadSchema, listSchemata'), ('_expandSchemaPath', CORE)], ['loadSchema', 'listSchemata'])
p('C30', 'Header information and header options are consistent',
  "Loading a document always reads the EBML header's contents into its information, and the headers option decides only whether that header appears among the root elements. Encoding with headers writes one EBML header holding the schema's defaults before the data, and XML conversion generates one only if asked to and the XML contains none.",
  ['inputs', 'configurations'], 'every document, schema and setting of the headers options',
  'Tests cover few combinations of schema, option and document.',
  [CORE, UTIL], [('header pre-read', 'Document.__init__'), ('_createHeaders', 'Document'), ('xml2ebml', UTIL)], ['Document.info', 'root elements', 'encoded bytes'])

# Not claimed: see MANIFEST not_applicable
p('C31', 'Whole documents survive a round trip',
  "Encoding data with a schema, reading the result and dumping it gives the data again, and encoding that dump gives the same bytes, with or without an EBML header. Converting such a document to XML and back, whichever annotations (offsets, sizes, types, ids) and whichever of the base64 and hex codecs are chosen, gives a document with the same elements in the same order and the same contents, and converting that one again gives the same bytes. This is for elements of the schema, with repeated siblings next to each other and text that XML can represent.",
  ['inputs'], 'all documents', 'Tests round-trip three sample files.',
  [CORE, UTIL], [('dump, encode, toXml, xml2ebml', CORE)], ['bytes'])
p('C32', 'Reading is lazy: payloads that are not asked for are not read',
  "Opening a document, and iterating, counting, indexing or crawling its elements, requests from the stream only element headers and the payloads of pre-cached elements and of the EBML header. Any other payload is requested only when its element's value or raw data is asked for, and then only that payload, so that the amount read never depends on the sizes of the payloads left alone. Parsing or iterating with nocache asks for no payload, pre-cached or not.",
  ['inputs'], 'all documents and payload sizes', 'Tests use small files and do not observe what is read.',
  [CORE, UTIL], [('MasterElement.parseElement, Element.value, Document.__init__', CORE), ('flatiter', UTIL)], ['reads on the stream'])
p('C33', 'Concurrent first use by many threads is linearizable',
  "Under any schedule of first uses, closes and cleanups by many threads, every thread-aware file operation behaves as if it ran alone at some moment between its call and return.",
  ['schedules'], 'all schedules', 'Tests run few schedules.', [TF], [('_ready event', TF)], ['results of operations'])
p('C34', 'Equality compares what it is documented to compare',
  "Elements are equal exactly if they have the same type, ID, size, offset and schema, and, for numbers, dates and text, the same value, wherever their payloads are, whichever stream they are read from and whatever is cached; unknown elements exactly if they have the same ID and value. Documents are compared by size, offset and schema, not by contents or name. Schemata are equal exactly if the attributes of their elements are, whatever their names and the order of definitions. An element or schema equals itself and nothing that is none, comparison is symmetric, != is its negation, and comparing never raises for readable elements.",
  ['inputs', 'histories'], 'every pair of elements, documents or schemata, in every state of caching',
  'Tests compare a few elements made by hand.',
  [CORE], [('Element.__eq__, IntegerElement.__eq__, FloatElement.__eq__, StringElement.__eq__, UnknownElement.__eq__', CORE), ('Schema.__eq__', CORE)],
  ['documents'])

p('C36', 'What is written about a document describes it',
  "toXml writes one XML element for each element of the document, in order and nested like them, named after it, with the ID (hexadecimal), type, offset and size the element itself reports and, except for masters and binary elements, its value as text; the root is named after the document's class and holds its source, its schema's name and its schema's file. pprint writes a line for each element, in document order, with the offset, size, name, ID and type (or number of children) the element itself reports, indented more than the line of its parent.",
  ['inputs'], 'every document',
  'Tests look at whether output is produced, or at one sample.',
  [UTIL], [('toXml', UTIL), ('pprint', UTIL)],
  ['xml', 'documents'])

p('C35', 'Every way in or out gives the same document',
  "Loading the same data from a stream, an open file, a file name, a path, a thread-aware file or bytes, by load(), loads(), calling the schema or its document class, gives documents with the same elements, information and size (or the size given), named as asked, else after the file without its extension, else after the document class. Encoding gives the same bytes whether to a stream or a string and whether from dictionaries or lists of pairs, and appends nothing else. XML converts to the same bytes and count whether given as an element, a tree, a name or a stream, whether written to a stream or a named file, and whether the schema or its name is given; loadXml gives the document that loading those bytes gives, wherever they are stored.",
  ['inputs', 'configurations'], 'every document and every combination of source, destination and entry point',
  'Tests use one or two entry points on sample files.',
  [CORE, UTIL], [('load, loads, __call__, encode, encodes', 'Schema'), ('Document.__init__, Document.encode', CORE), ('xml2ebml, loadXml', UTIL)],
  ['documents', 'bytes'])

p('C37', 'The command-line tools do what the library does',
  "ebml2xml writes the XML that toXml gives for the whole input, header included, as UTF-8, with the codec named for binary contents (base64 by default), with element IDs, offsets and sizes exactly if --max is given, and without line breaks between or in elements with --single. view_ebml writes the text pprint gives for the whole input with the codec named. xml2ebml writes the bytes xml2ebml() gives. list_schemata writes what printSchemata gives for the paths named before the standard ones, absolute unless --relative. The output goes to the file named with -o, else to standard output (which need not be able to seek), text as text and bytes as bytes, and nothing else is written to it.",
  ['inputs', 'configurations'], 'every input and every combination of command-line options',
  'Tests run each tool on one or two sample files with few options.',
  ['ebmlite/tools', UTIL], [('main', 'ebmlite/tools/ (ebml2xml, xml2ebml, view_ebml, list_schemata)'), ('load_files', 'ebmlite/tools/utils.py'), ('toXml, pprint, xml2ebml, printSchemata', UTIL)],
  ['tools', 'xml'])

with open(OUT, 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
print(len(P), 'properties')
