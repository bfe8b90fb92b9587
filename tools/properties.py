#!/usr/bin/env python3
"""Writes properties.jsonl. The table below is the single source of the property texts."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, state, mech, observe, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=hook)))

OUT="src/output.rs"; ANN="src/annotate.rs"; MD="src/mbus_data.rs"; XML="src/rscada_xml.rs"
APP="crates/m-bus-application-layer/src/lib.rs"; DI="crates/m-bus-application-layer/src/data_information.rs"
VI="crates/m-bus-application-layer/src/value_information.rs"; DR="crates/m-bus-application-layer/src/data_record.rs"
ELL="crates/m-bus-application-layer/src/extended_link_layer.rs"; VD="crates/m-bus-application-layer/src/variable_user_data.rs"
WIRED="crates/wired-mbus-link-layer/src/lib.rs"; WLESS="crates/wireless-mbus-link-layer/src/lib.rs"
CORE="crates/m-bus-core/src/lib.rs"; DEC="crates/m-bus-core/src/decryption.rs"; MFR="src/manufacturers.rs"
CLI="cli/src/main.rs"; PY="python/src/lib.rs"; WASM="wasm/src/lib.rs"

prop("C01","Total decoding: no input makes any entry point panic, abort or hang",
"For every byte sequence or text given to any public decoding, annotating or rendering entry point, with any key, output format and option, the call returns a result or a reported error. It never panics, overflows the stack, aborts the process or fails to terminate.",
["inputs","configurations"],"all byte strings and hex texts; all output formats, widths, keys; both plaintext-VIF feature settings",
"The suite decodes a few hundred well-formed captures and a few handwritten malformed ones; a crash on some other truncation, header chain or extension chain is invisible to it.",
[OUT,ANN,MD,XML,APP,DI,VI,DR,WIRED,WLESS],
[("read cursor","position in the frame, header or record list being consumed; must always advance and stay in bounds",APP)],
[("wired frame parser",WIRED),("application layer dispatch",APP),("DIB/VIB/data parsers",DI),("renderers",OUT),("annotator",ANN)],
["return value of decode/render/annotate/parse functions","process exit status"])

prop("C02","Wired frames: accepted exactly when well formed, fields taken from their bytes",
"A byte sequence is accepted as a wired M-Bus frame exactly when it is a lone acknowledgement character, or a short or long/control frame whose start bytes, repeated length, checksum, stop byte and control field are all valid for its exact length. When accepted, the frame kind, function, direction flags, address class and link payload are exactly those encoded in the bytes.",
["inputs"],"all byte strings, including every single- and double-byte corruption and truncation or extension of valid frames of every kind and length",
"Tests hold a handful of valid frames and one or two corruptions; they cannot show that no corrupted length, delimiter or checksum is accepted.",
[WIRED,OUT],
[("length field","claimed number of user bytes, sent twice",WIRED),("checksum","sum of user bytes modulo 256",WIRED)],
[("frame acceptance",WIRED),("control field to function",WIRED+" / "+CORE),("address classification",WIRED)],
["wired frame result (frame or error)","frame section of the decoded output"])

prop("C03","Wireless frames: length, CRC blocks and link identity decoded exactly",
"A wireless telegram is accepted exactly when its length field matches the telegram with link CRCs removed, and its manufacturer and BCD identification are valid; the reported manufacturer, identification, version and device type are those in the header bytes. Format A telegrams of every length have all their block CRCs removed and nothing else, a trailing frame CRC is removed exactly when it verifies over everything before it, and the payload that reaches the application layer is byte for byte what the sender framed.",
["inputs"],"all payload lengths and block layouts in Format A, Format B and CRC-less form; all header field values; corruptions of any byte",
"Captures cover a few lengths; block boundaries (16-byte multiples, final partial blocks of each size) are each a separate case.",
[WLESS,OUT],
[("block cursor","position of the current CRC block",WLESS),("L-field","announced length",WLESS)],
[("CRC stripping",WLESS),("frame parser",WLESS),("format detection",OUT)],
["stripped bytes","wireless frame result","meter identity and raw payload of the decoded output"])

prop("C04","Application headers: every CI byte decoded to its header fields or reported",
"For every control-information byte and header contents, the decoder either reports exactly the header kind, identity, access number, status, configuration/security mode and extended-link fields encoded in the bytes and starts the record data at the byte after the header, or reports that the application data is unsupported or incomplete. It never takes record data from header bytes nor drops payload bytes between header and records.",
["inputs"],"all 256 CI bytes; all header field byte values; all truncation points; extended link layers in front of other headers",
"Tests exercise about a dozen CI codes with fixed field values; offsets and field order for other codes and values are unconstrained.",
[APP,ELL,VD,OUT],
[("header","identity, access, status, configuration fields",APP),("ELL fields","communication control, access number, receiver, session, CRC",ELL)],
[("CI dispatch",APP),("header projection",OUT)],
["application-layer parse result","meter/transport/security sections of the decoded output"])

prop("C05","Records partition the payload: in order, nothing lost, duplicated or invented",
"The data records of a payload are consecutive, non-overlapping slices of it in transmission order, each consisting of one header followed by exactly the data bytes its header announces; only filler and reserved special-function bytes, which carry no data, lie between them. Manufacturer-specific and more-records-follow markers take the rest of the payload, and decoding stops with a report at the first record that cannot be completed, keeping every earlier record.",
["inputs"],"all record sequences over all header shapes and lengths, all payload bytes, all truncation points",
"Record lengths depend on combinations of data field, extensions and variable-length codes; a wrong length silently shifts every later record and tests only have a few sequences.",
[APP,DR,DI,VI,OUT],
[("record cursor","offset of the next undecoded payload byte",APP)],
[("record iterator",APP),("header/data length rules",DR)],
["record list (header and data hex, index)","reported record error and its offset"])

prop("C06","Function, storage, tariff and subunit numbers follow DIF and DIFE bits exactly",
"For every data information block, the reported function (instantaneous, maximum, minimum, error), storage number, tariff and subunit are the numbers formed by the corresponding bit groups of the DIF and all its DIFEs, least significant group first. A block with too many extension bytes is reported as an error rather than given a wrong number.",
["inputs"],"all DIF values and all DIFE chains up to and beyond the maximum length",
"Historical readings are told apart only by these numbers; tests cover one or two DIFEs with small values.",
[DI,OUT],
[("storage/tariff/subunit accumulators","bits collected across DIFEs",DI)],
[("DIB parsing",DI)],
["function, storage_number, tariff and subunit of decoded records"])

prop("C07","Raw data fields decode to exactly the encoded number or text",
"For every data field code and every data byte pattern, the decoded value is exactly the encoded little-endian two's-complement integer, BCD number, IEEE-754 real, or variable-length text, BCD or integer, with full precision. Invalid BCD digits and unsupported variable-length codes are reported as errors and never turned into a number.",
["inputs"],"all data field codes and LVAR codes with byte patterns covering every byte value in every position and all sign/boundary patterns",
"Tests use a few positive values; sign extension, odd widths (24/48 bit), precision above 2^53 and invalid digits need systematic coverage.",
[DI,DR,OUT],
[("data buffer","bytes after the record header",DI)],
[("fixed-width and BCD decoding",DI),("LVAR decoding",DI)],
["record values through the record API and decoded output"])

prop("C08","VIF/VIFE chains map to the specified quantity, unit and power of ten",
"For every value information block (primary, FB/FD extension tables, plain-text and manufacturer-specific VIFs, followed by any combinable VIFE chain) the reported quantities, unit and decimal scale are those specified for these codes, with each modifier contributing exactly once and in order. Codes without a meaning are labelled reserved or reported as unsupported, and extensions of manufacturer-specific codes carry no standard meaning.",
["inputs","configurations"],"all VIF bytes, all first extensions, all combinable VIFEs and chains of them; both plaintext-VIF layouts",
"There are over a thousand table entries and their pairwise compositions; tests check a few dozen and a wrong scale silently changes a bill by powers of ten.",
[VI,OUT],
[("scale exponent","accumulated power of ten",VI),("labels and units","accumulated quantity labels and unit components",VI)],
[("VIB parsing",VI),("orthogonal VIFE application",VI),("quantity/unit naming",OUT)],
["quantities, unit and value of decoded records","value information of the record API"])

prop("C09","Dates and times: exact calendar fields, ISO text only for complete valid values",
"For every bit pattern of the date, time and date-time encodings, each reported calendar component is the one encoded in its bit field, wildcard components are reported as wildcards and out-of-range ones as invalid. An ISO-8601 text is produced exactly when all components are concrete and in range, and the record's announced data length is respected whatever its quantity says.",
["inputs"],"all bit patterns of types F, G, I and J projected onto their fields, for all data field widths",
"Tests pin a few dates; 2^16 to 2^48 patterns exist and bit fields straddle bytes.",
[DI,DR,OUT],
[("bit fields","packed minute/hour/day/month/year",DI)],
[("temporal decoding",DI),("coding override by quantity",DR),("ISO rendering",OUT)],
["temporal record values in API and decoded output"])

prop("C10","Numeric readings are exact decimals: significand times power of ten plus offset",
"The decimal text reported for a numeric record is the exact value of the encoded integer times its power of ten plus any additive correction, with no rounding, no exponent notation and no stray leading zeros or sign errors. Floating-point records equal the encoded real times the same power of ten, and non-finite reals are named, never printed as numbers.",
["inputs"],"all significands at digit-length and sign boundaries, all reachable scales and additive corrections, all real exponents",
"Digit insertion, carry and sign handling interact; tests pin three combinations.",
[OUT,VI],
[("significand and scale","exact digits and the power of ten applied to them",OUT)],
[("decimal formatting",OUT)],
["value of decimal and float records in decoded output"])

prop("C11","Encrypted payload is never presented as readings without its key",
"When a telegram's header marks the payload as encrypted and no key is supplied, no canonical output format contains a data record decoded from the ciphertext, the output says the key is missing and the decode is partial, and the ciphertext appears only as raw hexadecimal (the libmbus-style XML of wired telegrams, which follows libmbus, is the exception). Supplying a key never exposes that key in any output, and cleartext telegrams are unaffected by a supplied key apart from a note that it was unused.",
["inputs","configurations"],"all header kinds and security modes, all payload bytes, all output formats, with and without key",
"Ciphertext usually parses as plausible records; each header kind, mode and renderer is a separate path.",
[OUT,ANN,MD,APP],
[("security decision","encrypted / key missing / decrypted",OUT)],
[("security preparation",OUT),("annotation of encrypted payload",ANN)],
["records, security and diagnostics sections","rendered text of every format"])

prop("C12","Decryption is correct AES-CBC with the telegram's own IV, or a reported error",
"For every supported security mode, key, header and ciphertext length, decryption with the right key turns exactly the announced blocks (the whole payload if no count is announced) back into the sender's plaintext, with the initialisation vector built from the telegram's own identity and access number; unsupported modes, missing keys and undersized buffers are reported as errors and never yield bytes. A key store returns the first key registered for a meter regardless of the other keys added before or after, and refuses keys beyond its capacity.",
["inputs","histories","configurations"],"all modes, payload lengths 0..N, header field values, buffer sizes; all add/lookup histories up to a bound",
"Tests decrypt a few captures; wrong IV byte order or block remainder handling shows only for other identities and lengths.",
[DEC,APP,OUT],
[("key store","ordered manufacturer/id to key entries",DEC),("IV","initialisation vector derived from the header",DEC)],
[("payload decryption",DEC),("decryption context",APP)],
["decrypted bytes and errors","decrypted_payload_hex and records of decoded output"])

prop("C13","Strict hex parsing: text accepted exactly when it denotes bytes unambiguously",
"A hexadecimal text is accepted exactly when, apart from surrounding whitespace, it is one even-length run of hex digits or a sequence of two-digit bytes (each optionally 0x-prefixed) separated by whitespace, colons or hyphens, and then yields exactly those bytes. Anything else is rejected with the position of the first offending element; text without any byte is reported as empty input.",
["inputs"],"all strings over a representative character alphabet up to a length bound, and all single characters in each position",
"A permissive parser silently decodes a different telegram; tests cover about ten strings.",
[OUT],
[("token cursor","start of the current hex token",OUT)],
[("strict hex parser",OUT)],
["decode-from-hex result, error code and byte offset"])

prop("C14","Annotation covers the frame contiguously and agrees with the decoder",
"For every byte sequence the decoder accepts, the annotated view returns segments that start at the first byte, end at the last, touch without gap or overlap, are never empty, and carry exactly the frame's bytes. Segments name the frame fields and their layers at their true positions, and the record segments delimit exactly the records the decoder reports, header and data bytes in the same groups and order, and any value a segment quotes is the one its bytes hold.",
["inputs"],"all frame kinds, CI codes, record sequences, truncations and encrypted payloads within the bounds",
"The annotator re-implements the grammar separately from the decoder; only exhaustive comparison shows the two agree everywhere.",
[ANN,MD],
[("segment list","half-open byte ranges with kinds and record groups",ANN)],
[("frame annotation",ANN),("hex view rendering",MD)],
["annotation result","annotated JSON and annotated text"])

prop("C15","Table output fits the requested width and shows every record",
"At every accepted width, every line of the table is at most that many terminal columns wide and box borders align, and concatenating a cell's lines gives back the complete field text, so no record, value, unit or diagnostic is truncated or omitted; control characters appear as replacement characters. Widths below the documented minimum are refused.",
["inputs","configurations"],"all widths from 0 to a bound times telegrams covering every record kind, wide and control characters and long texts",
"Wrapping depends on width modulo column layout and on character widths; tests try two or three widths.",
[OUT],
[("column widths","layout chosen from the requested width",OUT)],
[("table layout and wrapping",OUT)],
["table text"])

prop("C16","JSON, YAML, CSV and Mermaid carry the same decode, well formed for any content",
"Rendering one telegram as JSON, YAML and CSV yields documents that standard parsers accept and whose contents equal the decoded result field by field; Mermaid text contains every record with its reading in order and no unescaped content from the telegram. This holds whatever characters the telegram's text fields contain.",
["inputs","configurations"],"telegrams covering all record kinds and every character that can appear in text values; enrichment on and off",
"Escaping and column alignment depend on content; tests render a few benign telegrams.",
[OUT],
[("decoded result","the single canonical decode all formats project",OUT)],
[("renderers",OUT)],
["rendered text of each format"])

prop("C17","libmbus-style XML is well formed and shows the telegram's records and slave data",
"For every telegram it supports, the XML view is well-formed, lists each data record once in order with its function, storage number, tariff, device, unit, quantity and value derived from the same bytes, and gives the slave information of the header; wired telegrams without variable or fixed data are refused, and wireless ones without readable application data show the link identity only. Text from the telegram never breaks the markup.",
["inputs"],"all record kinds and VIFs, all text bytes, fixed and variable data, encrypted frames with and without key",
"The XML path has its own decoding tables, unrelated to the ones the other tests exercise.",
[XML],
[("record projection","values normalised to libmbus units",XML)],
[("XML rendering",XML)],
["XML text or error"])

prop("C18","Partial decodes are reported: state, diagnostics and offsets say what failed",
"A decode is reported complete exactly when its application header and all its data records were decoded and nothing stayed encrypted; otherwise it is partial and diagnostics name the failing layer with the byte offset of the first undecodable record, while everything decoded before it is identical to the decode of the intact telegram. Rejected inputs yield an error with a stable code and no output.",
["inputs","fault_sequences"],"every truncation and corruption point of telegrams built from all record kinds and headers",
"Each truncation point of each telegram is its own case; tests check a few.",
[OUT,APP,MD],
[("decode state","complete or partial",OUT),("diagnostics","ordered list with code, layer and offset",OUT)],
[("decode pipeline",OUT)],
["decode_state, diagnostics and records of decoded output","error code"])

prop("C19","Every front end gives the same answer as the library",
"The command-line tool, Python module, WebAssembly functions and one-call serialisation function return, for the same input text, format and key, exactly the library's rendering, or fail with the library's error code where the library fails. The command-line exit status is success exactly when output was produced.",
["inputs","configurations"],"telegrams of every kind and malformed texts times all formats, keys and options of each front end",
"No test compares the front ends; each has its own argument handling.",
[CLI,PY,WASM,MD,OUT],
[("request","input text, format, key, width, enrichment flag",OUT)],
[("argument handling",CLI),("bindings",PY)],
["stdout/stderr/exit status","returned strings and exceptions"])

prop("C20","Identity fields decode and encode consistently for every possible value",
"Manufacturer codes, BCD identification numbers, device types, function codes and security modes are decoded to exactly the value their bits encode, invalid encodings are rejected, and converting a decoded value back yields the original bits. A manufacturer's bundled name, website and description appear exactly when the registry lists the reported code, they are that manufacturer's own, and switching them off changes nothing else.",
["inputs","configurations"],"all 2^16 manufacturer words, all BCD byte patterns per position, all 256 device types and control bytes, all registry codes",
"Tests sample a few values per type; the whole domains are enumerable.",
[CORE,MFR,OUT,APP],
[("identity","manufacturer, id, version, device type",CORE)],
[("conversions",CORE),("registry lookup",MFR)],
["conversion results","meter identity and enrichment of decoded output"])

prop("C21","Syntax highlighting is lossless and never lets content become markup",
"For every source text and language, removing the highlighter's tags and undoing its escapes gives back exactly the source text, the tags are balanced, and no character of the source can introduce markup of its own.",
["inputs"],"all strings over a representative alphabet (quotes, brackets, escapes, digits, multi-byte characters) up to a length bound, for every language",
"Tests check one snippet per language; token boundary handling depends on every adjacent pair and unterminated literal.",
[WASM],
[("scanner position","byte offset in the source",WASM)],
[("highlighters",WASM)],
["returned HTML"])

prop("C22","Parsing through any API layer gives one consistent, repeatable result",
"The layered APIs (link frame, application layer, record iterator, combined parser) and the one-call decoder agree on every telegram: same acceptance, same headers, same records in the same order. Iteration ends after the first error or the last record and stays ended, and decoding the same input again, in any order with other inputs, gives the identical result.",
["inputs","histories"],"all frame kinds and record sequences within the bounds; all short sequences of API calls",
"Users mix the layers; tests exercise each alone with a fixed telegram.",
[APP,MD,OUT,WIRED,WLESS],
[("iterator","record cursor and exhausted state",APP)],
[("layered parsers",APP+" / "+MD)],
["record streams from each API"])

prop("C23","Decrypted hex view stays a valid frame showing the plaintext in place",
"When a key is supplied, the annotated view shows the frame with its payload replaced by the plaintext at the position of the ciphertext, lengths and checksum consistent and segments still covering every byte, together with the original encrypted bytes unchanged. Without a usable key the view falls back to the original bytes and marks the encrypted part.",
["inputs","configurations"],"wired and wireless encrypted telegrams of every payload length within the bound, Format A/B and CRC-less, right, wrong and no key",
"One capture is tested; header size, CRC and padding variants change the splice positions.",
[MD,ANN],
[("spliced frame","frame bytes with decrypted payload",MD)],
[("decrypted annotation",MD)],
["annotated JSON and text"])

prop("C24","Legacy output formats report the same records and values as the decoder",
"The legacy JSON, YAML, wide CSV, Mermaid and hex view renderings of a telegram list the same records, in the same order and with the same values and quantities as the record API, are well formed whatever the telegram contains, and fall back to an empty or error text only when the telegram is rejected. The lenient legacy hex reader accepts every spelling the strict one accepts with the same bytes.",
["inputs","configurations"],"telegrams of every frame kind and record kind, keys present or absent, all legacy formats",
"The legacy renderers iterate and format records with separate code; tests snapshot a few telegrams.",
[MD],
[("legacy projection","records formatted by the legacy code",MD)],
[("legacy renderers",MD)],
["legacy rendered text"])

prop("C25","Builds with fewer cargo features decode exactly the same",
"Cargo features add interfaces and never change results: for every byte sequence the build without features and the one with only decryption give the same frames, headers, records, values and errors as the full build. A build without decryption gives, without a key, every output of the full build unchanged; with a key it decodes cleartext telegrams exactly like the full build and for encrypted ones reports an error or the still closed telegram, never anything else.",
["inputs","configurations"],"every byte sequence, key present or absent, for the feature sets none, decryption, std+serde and all",
"The test suite is built and run with one feature set; an embedded user runs another one, on telegrams nobody tried with it.",
[APP,DI,DR,VI,MD,OUT,XML,DEC],
[("feature set","which parts are compiled in","Cargo.toml")],
[("feature-dependent branches",OUT),("feature-dependent branches of the decoders",DI)],
["parsed structures of each build","every output text of each build"])


prop("C26","Serialised parse results state exactly what the parsed structures hold",
"The serialised form of every parsed frame, header and record states what the structure holds: parts that can be read back give an equal value, raw bytes appear as their complete hex digits, readings appear with the same kind and value, and the records of a telegram appear in order up to the first one that cannot be decoded. JSON and YAML say the same.",
["inputs"],"every frame, header byte, record header and reading, in JSON and YAML",
"Serialisation is derived per type; a skipped, shortened or defaulted field only shows for values no test serialises.",
[APP,DI,DR,VI,ELL,WIRED,WLESS,CORE,MD],
[("serialised structure","the serde data model of a parsed telegram",MD)],
[("serialisation of the types",DR),("hex serialisation of byte fields",CORE)],
["serialised text","values read back from it"])

here=os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here,"..","properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))
