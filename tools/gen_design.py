#!/usr/bin/env python3
"""writes DESIGN.md: the text below, the bounds of the harness modules and the list of planted bugs"""
import ast
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TEXT = r"""# Solver-based checking of warcio

(written by tools/gen_design.py: bounds are taken from the harness modules, planted bugs from seeded/)

## 1. How a property is decided

The technique is symbolic execution of the real source, path by path, with z3 deciding every branch and every assertion.

1. **Encoding from the current source.** Each run reads `/repo/warcio/*.py` (and, for the capture properties, the
   interpreter's own `http/client.py` and `email` modules) and instruments the syntax tree (`symx/transform.py`): calls,
   subscripts, `in`, `%`, f-strings, dict and set displays, `del`, augmented assignments and bare `except` go through
   dispatch functions; nothing else is changed. Nothing of warcio is modelled by hand, nothing is cached between runs.
   `check.py Cxx` runs on whatever `/repo` holds (or `$SYMX_REPO`).
2. **Symbolic data** (`symx/values.py`, `terms.py`): integers are z3 integer terms; byte strings and text are sequences of
   concrete bytes, symbolic characters (integer terms) and *blobs*, which are runs of symbolic length and arbitrary content
   over letters that occur in no literal of the code (so that a search for a delimiter can skip them). A blob of
   length 0 to 2^33 costs as much as one of length 3: sizes are not enumerated. Where any byte matters, a harness uses
   symbolic bytes over 0..255 instead.
3. **Execution** (`symx/engine.py`): a branch on symbolic data asks z3 which sides are feasible under the path condition;
   both are explored. `S.check(...)` at the end of a path is a formula which must be unsatisfiable when negated. When all
   paths of all jobs have been explored this way the evidence says `exhaustive: true`; a path which the engine could not
   follow (a construct it has no encoding for), a solver timeout or an unfinished job makes it false and is counted. Such a
   path is never taken as a pass of the property: a witness of it is run on the real code.
4. **Environment** (`symx/stubs.py`): models of `io.BytesIO`, files, `zlib`, `hashlib`, `base64`, `datetime`/`calendar`,
   `re` (own matcher over symbolic text, `regex.py`), `uuid`, `json`, `urllib.parse`, sockets, and the file operations of `os`,
   `os.path` and `shutil` on the session's own files (also as the target of links). zlib: a gzip member or a
   zlib/raw stream is an opaque encoding of its content with a symbolic overhead length, decoded only as a whole member;
   reads that end inside it return a symbolic part. hashlib: an uninterpreted function of algorithm and bytes that is
   injective on the values of one path.
5. **Counterexamples** are made concrete (smallest sizes preferred), written to `out/` and run by `symx/replay.py` under
   /opt/venv's interpreter on the *unmodified* code with the real zlib, hashlib, io and datetime. Only what fails there is
   reported: `VIOLATION property=Cxx replay=out/....json`. What does not reproduce is counted as spurious, shown and makes
   the run not exhaustive.
6. **Validation of the encoding.** Per job up to two completed paths (more in thorough) are made concrete and run on the real
   code, and what the harness observed must be the same byte for byte (`traces_validated_against_impl`); a difference is
   counted as a mismatch, a failure there is a violation. `python3-vt check.py selftest` does so for the engine's
   treatment of the language.
7. **Termination.** A path has a step bound (20000 loop rounds) and 30 s of processor time, a worker 4 GB. A path that hits
   one is made concrete and run for real (15 s, then once more alone with 45 s): only if the real code also does not end
   is it a violation.

An oracle in a harness is written from the statement of the property, not from the code: it builds the expected bytes,
fields or moments from the inputs (for instance the chunks that were encoded, the records that were put in the file) and
compares for all values. Expected output never goes through warcio, except where the property itself is about agreement of
two of its functions (C05, C18, C25).

Why this reaches what the tests cannot: a test fixes a file, a block size and a way of reading. Here the block size, the
positions of all delimiters, the short reads, the read sizes, the cut position and the bytes around the structure are
symbolic at once, so the alignment cases (a delimiter split by a block end, a read that ends just at a boundary, a
length that is one off) are all decided.

Commands: `python3-vt check.py Cxx --tier quick|thorough` (quick 2 to 60 s on 8 cores; thorough up to 13 min: larger
bounds, more records, more calls). Evidence: functions encoded, bounds, paths, queries and solver time per run.

## 2. Properties: what is executed, against what oracle

- **C01** RecordBuilder, WARCWriter, ArchiveIterator and loaders end to end; oracle: the inputs given to the builder.
- **C02** WARCWriter on all record kinds; oracle: an independent splitter (`harness/wr.py`) that cuts the output by
  Content-Length and requires CRLF CRLF and nothing else; gzip: members hold exactly the plain file's bytes.
- **C03** same runs; digests recomputed (same uninterpreted function) from the bytes cut out of the output.
- **C04** ArchiveIterator over files put together from parts of symbolic length: offset and length must be the sums of the
  part lengths, for every consumption and question order.
- **C05** same file read twice: whole, and in a symbolic way (reads of any size, block sizes, short reads); the results must
  agree with each other and with the file's parts.
- **C06, C07** LimitReader and BufferedReader against a position in the known data, over call sequences with arbitrary sizes.
- **C08** DecompressingBufferedReader against member contents; plain data must come back unchanged.
- **C09, C10** ChunkedDataReader against the chunks encoded (C09) or an independent parser of the chunk grammar (C10).
- **C11** content_stream() against the payload that was encoded, per declared and actual encoding.
- **C12, C13, C14** StatusAndHeaders(Parser): independent line-by-line reference; model list with operations; reference
  quoting and re-parsing.
- **C15, C16** DigestVerifyingReader, loader options, Checker and command line; oracle: which digests were built wrong.
- **C17, C18** timeutils: calendar rules on fields (independent of datetime).
- **C19, C20, C21** ARC conversion, URI normalising, classification: expected from the fields the line was made of.
- **C22** files cut at a symbolic position: complete records must be unchanged, at most one prefix after them, and an end.
- **C23, C24, C25** recompress, extract, index through `warcio.cli.main`, output compared byte for byte with the expected.
- **C26, C27** the real `http.client` with capture_http's classes over a scripted peer: bytes of both directions, URLs; each
  exchange is also run without capture, and the client must see the same.
- **C28** fields of special records; **C29** all groupings of records into members; **C30** every combination of the reading
  options on every record kind, each record compared with its parts as the options say.
- **C31** one exception at a symbolic position of the input, payload source, output or connection; what came before is compared
  with the data, the exception must be the one raised, tools must fail.
- **C32** threads run one at a time under a scheduler (`harness/sched.py`) that may switch at every socket, output and lock
  operation; each switch is a symbolic decision, so all schedules with at most 2 (thorough 3) switches are executed. Locks of
  `threading` are replaced by ones that tell the scheduler who waits; output is split into records and compared per exchange.
  Threads with files of their own must write and read what they do alone.
- **C33** the command line tools on symbolic files, with the output new, existing or an input: all files are compared afterwards.

None is not applicable. What lies outside is listed per property in section 7 and in the manifest.

## 3. Trusted

The models of section 1.4 (tested by validation on each run, not proved), z3, the interpreter, the transformation of
operations, the oracles. Deflate's block structure is not modelled: a decompressor that returns output in unusual pieces is
covered only as far as the stand-in returns arbitrary parts. SHA and MD5 are uninterpreted. Threads
(C32) switch only at operations on sockets, outputs and locks.

## 4. Findings in warcio

Repaired (one `fix:` commit each, listed with their properties in known_findings.json as `fixed:`): 41 defects, in
readers (negative sizes, lines across blocks, single byte input, empty members), chunk parsing (sizes that are not hex,
long extensions), header writing (non-ASCII names, status lines, text outside parameters), Content-Length and digests of
records with generated, blank or filtered HTTP headers and of revisits, digest checking (encodings, unknown text,
empty and cut off records, unparsed HTTP), dates (aware moments), ARC version line, repeated URIs, and capture
(readinto, read1, shared recorder state, tunnels, other methods, IPv6, nested contexts, https of http.client, proxies, threads
sharing a writer), payloads of known length that cannot be sought, tools whose
output is their input.
Reverting any of them in a copy makes the check of its property (exit 1) fail again; this was run for all that revert
without conflict.

Known, not repaired: `blank_first_line` (C21): a file or gzip member that begins with a blank line gives a record without
type and headers with everything up to the end, where the archive-load error is due. Repairing it needs a decision
what blank leading lines mean (the iterator skips them between records).

## 5. False alarms that were corrected

- Replays that ran out of wall-clock time under load were taken for non-termination; processor time counts now, and a
  case that used it up is run again alone.
- C28 first read a pair's records through an iterator whose raw stream it had already replaced; the harness reads them
  before now. The record ids were predicted from the order of uuid calls; they are now compared only for what is
  required (form, difference, reference).
- A revisit with HTTP headers is written without payload on purpose; C23 excludes it and C28 requires it.
- Header lines of captured messages are normalised; C26 compares messages in normal form.
- HTTP headers which are no text in UTF-8 are printed as UTF-8 by extract (C24: outside).
- C29 first demanded rejection of members whose records have no separating line; the property cannot be decided there, since
  the next header line is taken for trailing data of a wrong length (C22).

## 6. Refactorings

Three copies of warcio with every module restructured (helpers extracted, loops turned round, comprehensions and regular
expressions in place of loops, state kept in other attributes, `match`, walrus, generators) pass the test suite; all
checks have to be quiet on them. This found places where the engine lost exhaustiveness (membership tests on symbolic
elements, dict.update from a generator, per-character loops over long runs), which were repaired. What the engine
cannot follow makes a run less exhaustive, never an alarm.

Automatic mutants (operators, constants, conditions, statements, arguments: 3294 places) were filtered by the test suite and
the survivors run against the checks of their module; what survived both was read: either equal in behaviour (message
texts, Python 2 code, unreachable), outside the properties, or the harness was extended.
"""


def consts(f):
    out = {}
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') in ('BOUNDS', 'OUTSIDE'):
            out[n.targets[0].id] = ast.literal_eval(n.value)
    return out


def main():
    out = [TEXT, '## 7. Bounds\n']
    for line in open(os.path.join(HERE, 'properties.jsonl')):
        p = json.loads(line)
        f = os.path.join(HERE, 'harness', p['id'].lower() + '.py')
        if not os.path.exists(f):
            continue
        c = consts(f)
        out.append('**%s %s.** Within: %s. Outside: %s.\n' % (p['id'], p['title'], c['BOUNDS'], c.get('OUTSIDE', '')))
    out.append('## 8. Planted bugs\n\nEach is caught by the check of its property (quick tier).\n')
    for f in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
        m = json.load(open(f))
        out.append('- %s (%s): needs %s' % (f.split(os.sep)[-2], m['property'], m['needs']))
    open(os.path.join(HERE, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')


main()
