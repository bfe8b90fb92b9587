#!/usr/bin/env python3
"""Writes DESIGN.md: the prose below plus the explored spaces (`mc list`) and the planted defects."""
import glob
import json
import os
import subprocess

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

HEAD = """# Design

m-bus-parser is a sequential parser library with a command-line tool, a Python module, WebAssembly
functions and eight output formats. There are no threads, persistent states or crash points, so the
behaviours to explore are **inputs**, **operation histories on stateful objects** (record iterator, key
store, long-lived interpreter and module instances, calls following one another in a process) and
**configurations** (output format, width, key, enrichment, the cargo feature
`plaintext-before-extension`, the header in front of the records).

## Technique

Every property is decided by bounded model checking of the real code:

* A **space** is a function over a choice oracle (`Ch` in `harness/src/fw.rs`): each call of `ch.n(k)`
  branches k ways. The explorer visits **every** leaf of that choice tree in depth-first order, split
  over the cores. Nothing is sampled, no seed influences anything, and no solver is involved.
* At each leaf the input built from the choices is given to the crate compiled from /repo's working
  tree, through its public API only (or, for C19, to the compiled tool and bindings).
* The complete observable outcome that the property talks about is compared with a **reference model**:
  plain, boring Rust written from knowledge of EN 13757-3/-4, OMS and libmbus (the documents were not
  at hand), the README, the code and the property text. It shares no code with /repo (`model.rs`,
  `vif.rs`, `seg.rs`, an own AES and CRC, own CSV, XML, Mermaid, HTML and box-table readers in the
  checks). Libraries it does use: serde_json and serde_yaml as the "standard parsers" of C16, C19 and
  C24, and unicode-width for terminal columns in C15. serde_yaml also writes the YAML, so a fault
  common to its writer and reader would not be seen. Where the property is relational (parts of C11,
  C18, C19, C22), the oracle is the relation between executions.
* **Conformance** of model and code is therefore not a separate replay step: every explored trace of the
  model is executed on the implementation. `traces_validated_against_impl` counts these comparisons.
* Each check compares only the projection its own property speaks of. Wording of messages, struct
  layout, call structure, table colours and CSS classes are not compared. Reals are compared with 1e-12
  relative tolerance.

Evidence (`evidence/<id>.json`): `evaluations` = executions, `transitions` = edges of the choice tree
taken, `states` = distinct observed outcomes (digests of what the implementation returned, counted
per space in a 2^27-bit table and summed, so collisions make it a lower bound), `distinct_nontrivial`
= those that are not refusals, `exhaustive` = every space was walked to its end. A space that hits its
wall cap is reported as not exhaustive and never as complete. A run that saw fewer than two distinct
outcomes, or accepted nothing, ends with an engine error, so a vacuous exploration does not pass.

**Outcomes.** Exit 0: held everywhere. Exit 1: `VIOLATION property=<id> replay=<file>`. Anything else is
an engine error. Each space runs in a child process with a watchdog (30 s without progress of one
case), 2 MB stacks and an 8 GiB address-space limit. A crash or hang is re-run alone, and only
if it reproduces it is a violation. A panic whose location lies in the harness is an engine error, one
located in /repo or a dependency is a violation. Every violation is written as a replayable choice
sequence (`bash run.sh replay <file>`), and it is executed twice more before it is reported; the report
says so if it did not repeat.

**Tiers.** `quick` takes 2 to 80 s per check, and up to a minute of compiling. `thorough` uses the larger bounds given below in
parentheses and explores the same spaces otherwise.

**Builds.** `build.sh` compiles the harness against /repo as it is, into /verif/target*. C01, C05, C08,
C14 and C17 are explored in a second configuration of the crate as well (feature
`plaintext-before-extension`), C19 builds the tool, the Python module (loaded by the interpreter that
is there) and the WebAssembly functions for the host with stand-ins for the JavaScript values. No
hooks in /repo were needed.

## Properties

Bounds are those of the explored spaces. The cost is the quick tier on 8 cores.
"""

P = {
'C01': ("96 s", "Totality of every public entry point.",
        "The call returns. Panics, stack overflows, aborts (address-space limit), and cases that make no progress for 30 s are violations.",
        "A crash needs one particular combination of bytes, options and length. The tests use recorded telegrams. Exploration found nine such classes of input in the pinned tree."),
'C02': ("8 s", "Wired frames.", "An acceptance predicate over (start bytes, length fields, checksum, stop byte, control field, exact length) and the fields it implies.",
        "\"Exactly when\" quantifies over all damaged frames. Exploration found a wrong second start byte and a trailing-garbage acknowledgement being accepted."),
'C03': ("2 s", "Wireless frames.", "A sender model: the telegram is built from known content, framed with and without Format A blocks or a trailing CRC, then damaged. The receiver has to deliver that content or refuse.",
        "Block boundaries depend on the length, so all lengths times all damage positions matter."),
'C04': ("11 s", "Application headers.", "A header model giving kind, identity, access number, status, configuration, extended link layer and offset of the records for every CI byte. The same fields are compared in the application-layer API (including reset subcodes and the counters of fixed data).",
        "256 CI bytes times header contents times lengths. Recorded telegrams touch few of these combinations."),
'C05': ("25 s", "Record partition.", "A segmentation model that computes header and data extents, fillers, markers and the offset of the first record that cannot be completed.",
        "Loss or duplication shows only in sequences. All pairs of record shapes with all cuts, triples with the last one cut, and payloads up to 20000 records."),
'C06': ("4 s", "Data information.", "Bit groups assembled from DIF and DIFEs, least significant first, in 128-bit arithmetic.", "Wrong weights show only in longer chains with particular bits."),
'C07': ("20 s", "Raw values.", "Little-endian two's complement in i128, digit-wise BCD, IEEE-754 decoding, UTF-8 with Latin-1 fallback. Compared in the canonical output and in the value the record parser gives.", "Full precision for all widths cannot be sampled. All 8/16-bit patterns, all Unicode scalars and boundary combinations elsewhere are enumerated."),
'C08': ("18 s", "Value information.", "An independent table of the primary, FD and FB codes and the combinable extensions (`vif.rs`), folded over the chain.", "There are 2^7 codes per position and chains of them. All pairs and (on one VIF) triples are enumerated."),
'C09': ("11 s", "Dates and times.", "A calendar model of the types F, G, I and J, field by field.", "Every 16-bit date, every time of type J, both halves of F and every pair of adjacent bytes of I. Wildcards and out-of-range fields are rare in real telegrams."),
'C10': ("16 s", "Exact decimals.", "Big-decimal arithmetic on digit strings.", "Sign, carry and leading-zero errors depend on the digits. All 16-bit significands are combined with powers of ten and corrections."),
'C11': ("19 s", "No leak of ciphertext or key.", "Non-interference: two executions whose ciphertexts differ only in content have to give outputs that differ only where raw bytes are shown as hexadecimal. Absence of records and of any spelling of the key, presence of the key-missing report.",
        "A leak is a property of pairs of runs over all formats, header kinds and modes."),
'C12': ("21 s", "Decryption.", "An own AES-128-CBC sender with IV derivation encrypts known plaintext. Key stores against a first-match list over all addition histories.", "Lengths, block counts, header kinds and identity bytes all enter the computation."),
'C13': ("14 s", "Strict hexadecimal.", "A recogniser giving bytes or the position of the first offending element.", "All texts up to 6 characters over 16, and 8 over 8, and every Unicode scalar."),
'C14': ("82 s", "Annotation.", "A segment model (`seg.rs`) with layer, kind and extent of each segment, the value its bytes hold where a segment quotes one, and the records of the decoder.", "Contiguity must hold for all accepted frames, truncated and encrypted ones included."),
'C15': ("63 s", "Table.", "An own reader of box drawings measures column widths, rejoins cells and compares them with the decoded fields.", "Line breaking depends on width times text. All widths to 420, and all Unicode scalars (all of their contexts in the thorough tier only)."),
'C16': ("75 s", "Structured formats.", "Standard JSON and YAML readers, an own RFC 4180 reader and an own Mermaid reader. The contents have to equal the decoded result field by field.", "Escaping faults need particular characters at particular positions."),
'C17': ("41 s", "libmbus-style XML.", "An own XML reader and a model of the libmbus tables and number formatting.", "The tests compare recorded files. The tables have 2^7 entries per level."),
'C18': ("17 s", "Partial decodes.", "The model decode of the damaged telegram, and equality of everything before the damage with the decode of the intact one.", "All cuts and all single-byte changes."),
'C19': ("39 s", "Front ends.", "Equality with the library call made in the harness, error code and exit status included.", "No test compares the front ends with each other, and each of them has its own argument handling. Terminal output is explored on a pseudo-terminal."),
'C20': ("5 s", "Identity fields.", "Arithmetic on the bits, and a committed copy of the registry (`harness/data/registry.tsv`).", "All 2^16 manufacturer words, all bytes elsewhere."),
'C21': ("27 s", "Highlighter.", "An HTML reader that undoes tags and escapes, and requires balance.", "The grammars are state machines. All short texts and token sequences over their special characters are covered."),
'C22': ("21 s", "API layers and repetition.", "Equality between link, application, record and one-call results, and of repeated and reordered calls with calls in a fresh process.", "Histories and layer pairs are never tested together."),
'C23': ("31 s", "Decrypted view.", "A splice model: plaintext in place of the ciphertext, checksum and lengths recomputed, segments of that frame.", "All lengths times header kinds times framings."),
'C24': ("73 s", "Legacy formats.", "The records of the record API, found again by own readers in every legacy format. The strict reader as oracle of the lenient one.", "As C16, for the older code paths."),
'C25': ("33 s", "Feature sets.", "The same questions (harness/src/probe_*.rs) are compiled into the checker, which has every feature, and into libraries built from the same tree without features, with decryption only, and with std and serde but no decryption. The libraries are loaded and every answer compared as text. For a key given to the build that cannot use it, the model says whether there is anything to open. A feature set that does not compile is left out of the comparison and named by the build.", "The test suite is only ever built with one feature set."),
'C26': ("10 s", "Serialisation.", "The parsed structure itself: every part that can be read back is written, read back and compared; every other part of the serialised whole is compared with the serialised part, with the hex digits of its bytes or with the reading. The record list is compared with the records of the iterator. The structures are compared with the model by C02 to C10 and C22.", "Derived code that tests only meet with a few values."),
}

TAIL1 = """
No property is listed under not_applicable: all of them quantify over inputs, histories or
configurations, and each has a bounded space that is walked completely.

## Findings on the pinned tree

Repaired (one `fix:` commit each in /repo, listed as `fixed:` in known-findings.txt): sixty-two defects (a 63rd entry removes a compiler warning one of the repairs left),
among them nine classes of input that made a call panic, recurse or allocate without bound, accepted frames with broken start bytes or CRC blocks, wrong
storage numbers from the first DIFE on, wrong years in date-times, lost digits of long numbers, several
wrong units, records decoded from ciphertext, decryption beyond the announced blocks, ill-formed XML,
overwide table rows and legacy outputs that dropped records.

Known and left alone: **plain-text unit of VIF 0x7C without extension bit** (C05, C08; key
`plaintext-vif-7c`). In the standard layout the unit string is not consumed and is taken as data. The
repository's own test suite pins this behaviour (`KNOWN_MISMATCHES` in tests/rscada_xml.rs), so it
cannot be repaired without editing tests. The check recognises exactly this history: the implementation
agrees with the model that does not consume the string and disagrees with the one that does. Any other
deviation on such records is still reported. The other checks follow the implementation there.

## False alarms met while building, and what was changed

* A radio telegram whose last two bytes happen to be a valid CRC is indistinguishable from one with a
  trailing frame CRC. The sender model skips such contents (one in 65536), also behind Format A framing.
* A VIF block beyond the capacity of the decoder is reported as an error instead of being decoded.
  Chains beyond that capacity are only required to be reported, not to be decoded.
* Text of diagnostics, legacy labels and HTML classes was compared at first. It is not part of any
  property and is ignored now.
* libmbus-style XML of encrypted wired telegrams lists what libmbus lists. C11 names this exception.
* The WebAssembly functions cannot create JavaScript errors on the host, so stand-ins for the JavaScript
  types are compiled in instead. If a change of dependencies makes these unusable, the functions are
  called directly and only their successes are compared.
* Where no pseudo-terminal can be opened, the terminal space of C19 counts its cases as refused.

## Assumptions and limits

* The model follows the code where the M-Bus documents leave freedom or the code restricts itself
  knowingly: the invalid flag and the century bits of dates are ignored; a negative BCD number (F in the
  top digit) is an error; the byte order of CI 0x76 concerns BCD numbers only; for CI A0 to AF the
  device type is the upper half of its byte, in the IV too; security mode 7 means a zero IV without key
  derivation; the unit text of plain-text VIFs does not appear as `unit`; counters of fixed data do not
  appear in the canonical output.
* XML is declared ISO-8859-1 as in libmbus, while the string is Unicode. The check reads the characters.
* Mermaid's own entity notation (`#...;`) inside text readings is not treated as markup.
* serde-wasm-bindgen's conversion into JavaScript objects is not covered (the stand-in delivers JSON).
* Feature sets other than none, decryption, std+serde, all, and all with plaintext-before-extension are
  not explored; `defmt` is not.
* A line coverage measurement of the smaller quick spaces (llvm-cov, not part of any check) was used to look
  for code no space reaches. Left unreached on purpose: the conversion of control information to a
  direction, which no telegram output uses, comparison of texts with `==`, and the wording of errors.
* Bounded: a defect that needs more simultaneous unusual bytes than a space varies at once can be missed.
  Which positions vary together is what the lists above say.

## Planted defects

Each was written from the property text and the code, builds, passes the existing tests and has a
demonstration (`seeded/<id>/`). The last column is the space that reported it in the quick tier of the
property's check. S04 to S07, S10 to S12, S14, S20 to S22 and S26 were missed when first planted, and the space named
was added or extended because of it.

| id | property | needs | caught by |
|----|----------|-------|-----------|
"""

CAUGHT = {'S01': 'c06-chain', 'S02': 'c16-bytes', 'S03': 'c03-id', 'S04': 'c01-texts', 'S05': 'c02-surplus', 'S06': 'c12-length', 'S07': 'c05-many', 'S08': 'c22-history', 'S09': 'c08-fd-fb', 'S10': 'c14-len', 'S11': 'c24-length', 'S12': 'c07-unicode', 'S13': 'c10-scale', 'S14': 'c15-widths', 'S15': 'c18-security', 'S16': 'c20-enrich', 'S17': 'c06-chain', 'S18': 'c04-byte', 'S19': 'c16-words', 'S20': 'c13-affix', 'S21': 'c17-tail', 'S22': 'c05-run', 'S23': 'c19-cli-args', 'S24': 'c21-chars', 'S25': 'c23-length', 'S26': 'c11-header', 'S27': 'c09-j', 'S28': 'c25-key', 'S30': 'c25-ci', 'S31': 'c26-readings', 'S32': 'c26-header', 'S33': 'c22-parts'}

TAIL2 = """
Apart from these, single-token mutants of the sources were tried as an aid: 51 of 417 generated ones
were run against the checks of their files; 23 were caught, 8 did not compile and 20 survived. The
survivors lay in test modules, in texts no property speaks of, were equivalent, or showed a gap: the
manufacturer names (now c20-registry), a variable-length code (c07-lvar, c10-lvar) and the field names
of the annotated text view (c14-views). They are not part of any check.
"""

def main():
    spaces = {}
    for l in subprocess.run([V + '/target/debug/mc', 'list'], capture_output=True, text=True, check=True).stdout.splitlines():
        p, n, t = l.split(' ', 2)
        spaces.setdefault(p, []).append((n, t))
    titles = {}
    for l in open(V + '/properties.jsonl'):
        p = json.loads(l)
        titles[p['id']] = p['title']
    out = [HEAD]
    for p in sorted(P):
        cost, what, oracle, why = P[p]
        out.append(f'\n### {p} {titles[p]}\n\n{what} **Oracle.** {oracle}\n**Beyond tests.** {why} **Cost.** {cost}.\n\nEnumerated:\n')
        for n, t in spaces[p]:
            out.append(f'* `{n}` {t}')
    out.append(TAIL1.rstrip('\n'))
    for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
        i = f.split('/')[-2]
        m = json.load(open(f))
        out.append(f"| {i} | {m['property']} | {m['needs']} | {CAUGHT.get(i, '')} |")
    out.append(TAIL2)
    open(V + '/DESIGN.md', 'w').write('\n'.join(out).rstrip('\n') + '\n')

main()
