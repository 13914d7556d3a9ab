"""Writes properties.jsonl from the table below (one place to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=observe, hook_needed=None)))

W='warcio/'
p('C01','Written records read back unchanged',
  'Any sequence of records built with the record builder and written with the WARC writer, plain or gzipped, is read back by the archive iterator as the same records in the same order: same record type, same WARC headers, same (ASCII) HTTP status line and headers, same payload bytes and same length. Nothing is lost, duplicated, reordered or moved from one record to another, whatever the payload contains or how long it is.',
  ['inputs','histories'],'all record types, header values, payload contents and sizes, gzip on/off, WARC 1.0/1.1, any number of records',
  'The writer tests round-trip about fifteen fixed records one at a time; no test varies payload bytes (blank lines, header look-alikes), sizes around the 16 KiB buffer, or sequences.',
  [W+'warcwriter.py',W+'recordbuilder.py',W+'archiveiterator.py',W+'recordloader.py',W+'statusandheaders.py'],
  [('BaseWARCWriter._write_warc_record',W+'warcwriter.py'),('ArchiveIterator._iterate_records',W+'archiveiterator.py'),('ArcWarcRecordLoader.parse_record_stream',W+'recordloader.py')],
  ['WARCWriter.write_record output','records yielded by ArchiveIterator'])
p('C02','Written framing: Content-Length, terminators, gzip members',
  'Every record the writer emits is header block, empty line, block, CRLF CRLF, where the Content-Length header equals the exact byte length of the block (for revisit records the HTTP headers only). This holds whether or not the caller supplied a length, and when HTTP headers are percent-encoded or removed by the header filter. With gzip enabled each record is exactly one complete gzip member and the members decompress to exactly the bytes the writer would have emitted uncompressed.',
  ['inputs','histories'],'all record shapes, payload sizes, header filters, length given or unknown',
  'Tests compare a few literal serialisations; the length arithmetic over HTTP header bytes, filtered headers and unknown lengths is only sampled.',
  [W+'warcwriter.py',W+'recordbuilder.py',W+'statusandheaders.py'],
  [('Content-Length computation',W+'warcwriter.py'),('GzippingWrapper',W+'warcwriter.py'),('compute_headers_buffer',W+'statusandheaders.py')],
  ['bytes written to the output file'])
p('C03','Written digests match the written bytes',
  'When the writer computes digests, the block digest it records is the SHA-1 (base32, prefixed "sha1:") of exactly the block bytes it writes and the payload digest that of exactly the payload after the HTTP headers. Warcinfo records get no payload digest, a revisit keeps the digest it was given, and a digest already present on a record of known length is kept; a record of unknown length gets freshly computed digests instead of stale ones. Computing digests leaves the payload to be written in full.',
  ['inputs'],'all record types, payload contents and sizes, seekable and unseekable payloads, length known or unknown, digests present or absent',
  'Tests compare fixed digests of a few 9-byte payloads; sizes beyond one read buffer and interaction with seeking, filters and unknown length are not covered.',
  [W+'recordbuilder.py',W+'warcwriter.py',W+'utils.py'],
  [('RecordBuilder.ensure_digest',W+'recordbuilder.py'),('Digester',W+'utils.py')],
  ['WARC-Block-Digest / WARC-Payload-Digest headers in the output'])
p('C04','Record offsets and lengths locate the records',
  'The offset the iterator reports for a record is the exact position in the file where that record (or its gzip member) starts, and the length is the exact number of bytes it occupies: up to the next member for gzip, excluding the blank lines between records for plain files. Opening the file at that offset yields that same record first. This is independent of how much of each record was consumed, of the block size, and of whether the input supports tell().',
  ['inputs','histories','configurations'],'all sequences of records and sizes, plain or gzip, WARC or ARC, blank-line counts, block sizes, consumption patterns, seekable or not',
  'Tests check offsets of four sample files with one buffer size; alignments of record ends with buffer boundaries are never varied.',
  [W+'archiveiterator.py',W+'bufferedreaders.py'],
  [('ArchiveIterator.read_to_end',W+'archiveiterator.py'),('_consume_blanklines',W+'archiveiterator.py'),('BufferedReader.rem_length',W+'bufferedreaders.py'),('UnseekableYetTellable',W+'archiveiterator.py')],
  ['get_record_offset()','get_record_length()','warcio index output'],
  [('offset','position of current record',W+'archiveiterator.py'),('member_info','(offset,length) once known',W+'archiveiterator.py')])
p('C05','Iteration does not depend on how data is consumed or delivered',
  'The sequence of records, their headers and their content are the same whether the caller reads none, part or all of each record before advancing, by read or readline of any size, and whatever the block size or the sizes of the pieces in which the underlying stream delivers the data. The iterator consumes the rest of a record by itself before it advances.',
  ['inputs','histories','schedules'],'all partial consumption patterns, block sizes >= 1 and short-read schedules of the source',
  'Tests iterate with the default block size over ordinary files, which always return full reads, and consume nothing or everything.',
  [W+'archiveiterator.py',W+'bufferedreaders.py',W+'limitreader.py'],
  [('ArchiveIterator.read_to_end',W+'archiveiterator.py'),('BufferedReader._fillbuff',W+'bufferedreaders.py'),('BufferedReader.read / readline refill loops',W+'bufferedreaders.py')],
  ['records yielded by ArchiveIterator'])
p('C06','A limited stream yields exactly its window',
  'A reader limited to n bytes returns, over any sequence of read and readline calls with any size arguments (including none and negative), exactly the next min(n, available) bytes of the underlying stream in order, and never takes a byte beyond the limit from it; tell() equals the number of bytes returned so far, and a bounded call never returns more than asked. Wrapping an already limited stream keeps the smaller limit, and a content length that is not a non-negative integer leaves the stream unwrapped.',
  ['inputs','histories'],'all limits, stream lengths, call sequences and size arguments',
  'Seven fixed examples over a 26-byte string; no negative sizes, no mixed histories, no streams shorter than the limit.',
  [W+'limitreader.py'],
  [('LimitReader.read/readline/_update',W+'limitreader.py'),('LimitReader.wrap_stream',W+'limitreader.py')],
  ['LimitReader API','bytes consumed from the wrapped stream'],
  [('limit','bytes still allowed',W+'limitreader.py')])
p('C07','The buffered reader is faithful for every block size',
  'Without decompression, any sequence of read and readline calls on a buffered reader returns exactly the bytes of the underlying stream in order, for every block size and every pattern of short reads: read(n) returns n bytes unless the data ends, readline stops at and includes the first newline (or at its size limit) wherever block boundaries fall, and only end of data yields an empty result for a non-zero size. tell() equals the bytes read into the buffer so far, of which rem_length() are still unread.',
  ['inputs','histories','schedules'],'all data, block sizes, short-read schedules and call sequences',
  'One doctest with block_size=3 on one string; boundary positions and limits are not varied.',
  [W+'bufferedreaders.py'],
  [('BufferedReader.read',W+'bufferedreaders.py'),('BufferedReader.readline',W+'bufferedreaders.py'),('_fillbuff/_process_read',W+'bufferedreaders.py')],
  ['BufferedReader API'],
  [('buff/buff_size','current decoded block',W+'bufferedreaders.py')])
p('C08','Gzip members are decoded exactly, plain data passes through',
  'The decompressing reader returns exactly the content of the current gzip member and stops at its end; read_next_member() continues with the next one, and with read_all_members the result is the concatenation of all members. Input that is not compressed is returned unchanged, all of it. All of this holds wherever member ends fall relative to block boundaries and however the source splits its data.',
  ['inputs','histories','schedules'],'all member contents and compressed sizes, block sizes, source short reads, zlib/raw deflate too',
  'Tests decompress one-member strings and one two-part mix with the default block size; boundary alignments and short reads are not exercised.',
  [W+'bufferedreaders.py'],
  [('BufferedReader._decompress',W+'bufferedreaders.py'),('read_next_member / empty',W+'bufferedreaders.py'),('_fillbuff loop',W+'bufferedreaders.py')],
  ['DecompressingBufferedReader API'])
p('C09','Well-formed chunked bodies decode to their payload',
  'For every division of a body into chunks, with any legal size spelling (hex case, leading zeros, chunk extensions) and the final zero chunk, the de-chunking reader returns exactly the body, for any sequence of read and readline calls. With a content encoding set, the de-chunked bytes are decompressed as one stream wherever the chunk boundaries fall, and a body cut off inside a chunk yields all bytes present.',
  ['inputs','histories'],'all bodies, chunkings, size spellings, read sizes, truncation points',
  'Doctests use three fixed chunkings; nothing varies spellings, boundaries against compression, or reads across chunks.',
  [W+'bufferedreaders.py'],
  [('ChunkedDataReader._try_decode',W+'bufferedreaders.py'),('ChunkedDataReader._fillbuff',W+'bufferedreaders.py')],
  ['ChunkedDataReader.read / readline','ArcWarcRecord.content_stream()'])
p('C10','Malformed chunked data never raises, never loses decoded chunks',
  'On arbitrary input the de-chunking reader, in its default mode, always terminates without an exception; data whose first line is not a chunk header (hex size, optional extension, CRLF, size at most 2^31) is returned unchanged in full, and chunks decoded before a malformed point are returned intact before the remaining data, which is then passed through undecoded (only the two bytes read in place of a missing chunk terminator are not returned). In strict mode a malformed chunk header, a missing chunk terminator or a cut-off chunk raises the chunked-data exception.',
  ['inputs'],'all byte strings as chunked input, up to the bound',
  'Four fixed malformed strings are tested and one strict-mode case.',
  [W+'bufferedreaders.py'],
  [('best-guess fallback in ChunkedDataReader._fillbuff',W+'bufferedreaders.py'),('header sanity checks in _try_decode',W+'bufferedreaders.py')],
  ['ChunkedDataReader.read with and without raise_exceptions'])
p('C11','Content stream decodes exactly what the HTTP headers declare',
  'The content stream of a record is its raw payload with transfer-encoding chunked removed and then a supported content encoding (gzip, deflate) decompressed, exactly as the HTTP headers declare, header and encoding names matched case-insensitively. An unknown or absent encoding, or a record without HTTP headers, gives the raw payload; payload not actually encoded as declared is passed through unchanged.',
  ['inputs','configurations'],'all payloads and combinations of transfer and content encoding headers, in any letter case',
  'Tests read four sample payloads; combinations of headers, letter case and mismatching declarations are not covered.',
  [W+'recordloader.py',W+'bufferedreaders.py'],
  [('ArcWarcRecord.content_stream',W+'recordloader.py')],
  ['record.content_stream().read()'])
p('C12','Header blocks are parsed line by line exactly',
  'Parsing a status line and header block yields every "name: value" line in order, with the name right-trimmed of blanks and the value trimmed at both ends and split at the first colon only; continuation lines are appended to the value before them, lines without a colon (and their continuations) are dropped, and parsing stops right after the first blank line, leaving the stream at the first byte of the body. Header bytes are decoded as UTF-8, or as ISO-8859-1 line by line when that fails; an empty stream raises EOFError.',
  ['inputs'],'all header blocks up to the bound: any bytes in names, values, separators, line ends and continuations',
  'A handful of literal header blocks; the interaction of colons, blanks, continuation and malformed lines, and undecodable bytes is not explored.',
  [W+'statusandheaders.py'],
  [('StatusAndHeadersParser.parse',W+'statusandheaders.py'),('decode_header',W+'statusandheaders.py'),('split_prefix',W+'statusandheaders.py')],
  ['StatusAndHeadersParser.parse result and stream position'])
p('C13','Header collections behave as ordered case-insensitive maps',
  'On any list of headers, lookup returns the value of the first header whose name matches ignoring case (or the default); replace changes exactly one matching header in place, keeping its spelling, order and all others, returns the old value, and appends when there is none; remove deletes exactly one matching header and tells whether it did; adding always appends. Sequences of such operations never alter any other header, and the dictionary-style access is equivalent. The status code is the first word of the status line; validating keeps a status line with a positive code and replaces any other, and nothing else; adding a range turns the collection into a 206 response with its three range headers and leaves all else. Two collections are equal exactly when protocol, status line and headers are.',
  ['inputs','histories'],'all header lists (including duplicates and mixed case) and operation sequences',
  'A linear doctest over one three-header list without duplicates.',
  [W+'statusandheaders.py',W+'utils.py'],
  [('get_header/replace_header/remove_header/add_header',W+'statusandheaders.py'),('headers_to_str_headers',W+'utils.py')],
  ['StatusAndHeaders API'])
p('C14','Serialised headers are ASCII-safe and parse back',
  'Serialising HTTP headers for writing always succeeds and yields pure ASCII: header values that are ASCII are emitted unchanged and in order, and non-ASCII ones are percent-encoded as UTF-8 so that decoding them gives back the text. Serialising and parsing gives the same protocol, status line and header list for every block of well-formed headers, and WARC headers with any Unicode text survive via UTF-8. A header filter drops exactly the headers it rejects.',
  ['inputs'],'all header names and values up to the bound, including non-ASCII, quotes, semicolons and parameters',
  'Three fixed non-ASCII headers are tested.',
  [W+'statusandheaders.py'],
  [('to_str/to_bytes/to_ascii_bytes',W+'statusandheaders.py'),('percent_encode_non_ascii_headers',W+'statusandheaders.py')],
  ['StatusAndHeaders.to_bytes / to_ascii_bytes'])
p('C15','Digest checking flags a record exactly when a digest mismatches',
  'With digest checking on, a record read to its end is reported failed exactly when a recorded block digest differs from the digest of its block or a recorded payload digest differs from that of the payload after the HTTP headers, or a digest is of unknown algorithm, and passed when those present match; with no digests, revisit records and unchecked modes it is neither. Base32, base16 in either case and base64 in both alphabets are accepted for the value, and the verdict does not depend on how the stream is read. Mode "raise" raises instead, "log" also writes to stderr.',
  ['inputs','histories','configurations'],'all blocks, payload splits, digest corruptions, encodings, read patterns and modes',
  'Six sample files and three byte replacements; corruption positions, empty payloads, read patterns and encodings are sampled.',
  [W+'digestverifyingreader.py',W+'recordloader.py',W+'archiveiterator.py'],
  [('DigestVerifyingReader._update/begin_payload',W+'digestverifyingreader.py'),('_compare_digest_rfc_3548',W+'digestverifyingreader.py'),('wrap_digest_verifying_stream',W+'recordloader.py')],
  ['record.digest_checker.passed / problems','ArchiveLoadFailed','stderr'])
p('C16','The check command exits 1 exactly when something failed',
  'The check command returns exit status 1 when any record of any input file fails its digest check or any input cannot be loaded, and 0 otherwise, regardless of the order or number of inputs and of verbosity. Every failing record is listed with its file, its offset and its problems; a file that cannot be loaded is reported and the remaining inputs are still processed.',
  ['inputs','histories','configurations'],'all sequences of good, corrupted and unloadable records and files, verbose or not',
  'Three fixed invocations.',
  [W+'checker.py'],
  [('Checker.process_all/process_one',W+'checker.py')],
  ['exit status and stdout of warcio check'])
p('C17','Timestamp parsing is total and clamps every field',
  'Parsing a timestamp of any text never fails: missing trailing fields take their latest value, fields that are out of range or not numeric are clamped into the calendar range, digits beyond the fourteenth are ignored, and the result is always a valid moment with year 1900 to 2999. A complete valid 14-digit timestamp in that range parses to exactly the moment it denotes, including leap days, and with tz_aware the same moment in UTC.',
  ['inputs'],'all strings up to 16 characters, every calendar date',
  'About twenty literal doctests; month lengths, leap years and partially numeric fields are sampled.',
  [W+'timeutils.py'],
  [('timestamp_to_datetime',W+'timeutils.py'),('pad_timestamp',W+'timeutils.py')],
  ['timestamp_to_datetime'])
p('C18','Date conversions round-trip',
  'For every valid moment, formatting as 14-digit timestamp, ISO date (with or without microseconds), HTTP date or epoch seconds and parsing back gives the same moment, to the second or, with microseconds, to the microsecond; conversion between two textual forms equals going through the moment. ISO fractions of any length are read as decimal fractions of a second, truncated to microseconds.',
  ['inputs'],'all dates in years 1000-9999 (1900-2999 where clamped), all times of day, all fraction digits',
  'One or two literal dates per function.',
  [W+'timeutils.py'],
  [('iso_date_to_datetime',W+'timeutils.py'),('datetime_to_iso_date',W+'timeutils.py'),('http_date_to_datetime',W+'timeutils.py'),('timestamp_to_sec/sec_to_timestamp',W+'timeutils.py')],
  ['timeutils functions'])
p('C19','ARC records are read and converted faithfully',
  'Every ARC record line, including URLs containing spaces, is split into exactly URL, IP, date, type and length, and the record stream is exactly the declared number of bytes after it, so the following record is found (the version block header line counts the lines after it). With arc2warc the WARC record has the same URL, IP, content and length, the WARC date denoting the ARC timestamp, type response, or warcinfo with the filename for the ARC file header.',
  ['inputs','histories'],'all header field texts, URL shapes, content and sequences of ARC records',
  'Four sample ARC files.',
  [W+'recordloader.py',W+'archiveiterator.py',W+'timeutils.py'],
  [('ARCHeadersParser.parse',W+'recordloader.py'),('ARC2WARCHeadersParser._get_protocol_and_headers',W+'recordloader.py')],
  ['records yielded by ArchiveIterator with and without arc2warc'])
p('C20','Target URIs are normalised and nothing else is changed',
  'When a record is loaded, a target URI wrapped in one pair of angle brackets loses exactly those, and every space in it becomes "%20"; any other target URI, and every other header of the record, is delivered unchanged. Loading an already normalised record changes nothing.',
  ['inputs'],'all target URI texts up to the bound',
  'Two sample files.',
  [W+'recordloader.py'],
  [('_ensure_target_uri_format',W+'recordloader.py')],
  ['WARC-Target-URI header of loaded records'])
p('C21','Records are classified and malformed input is reported cleanly',
  'A record is recognised as WARC exactly when its first line starts with a supported WARC version (ignoring case) and otherwise as ARC when it has the five ARC fields; any other first line raises the archive-load error, as does WARC data in the ARC-only iterator and ARC data in the WARC-only one. HTTP headers are parsed only for response, request and revisit records with an http or https target URI and non-empty content. A bad, negative or missing length or missing header never raises anything else.',
  ['inputs','configurations'],'all first lines, record types, URI schemes, length texts, missing headers',
  'Tests use a few bad files; combinations of missing or malformed headers are not tried.',
  [W+'recordloader.py',W+'statusandheaders.py',W+'archiveiterator.py'],
  [('_detect_type_load_headers',W+'recordloader.py'),('load_http_headers',W+'recordloader.py'),('parse_record_stream length handling',W+'recordloader.py')],
  ['records or exceptions from ArchiveIterator'])
p('C22','Truncated or mis-sized archives never corrupt complete records',
  'If an archive is cut off at any byte, iterating over what is left terminates and yields every record that is completely present unchanged and in order, followed by at most one shortened record holding a prefix of the true content (or by the archive-load error when the first line of the next record is itself cut). A record whose declared length is wrong, so that data other than a blank line follows its declared end, is noticed (warning and error count) and never changes the records before it.',
  ['inputs','crash_points'],'every cut position in every archive up to the bound, plain or gzip, and every wrong declared length',
  'One truncated sample file.',
  [W+'archiveiterator.py',W+'recordloader.py',W+'bufferedreaders.py',W+'limitreader.py'],
  [('ArchiveIterator._iterate_records',W+'archiveiterator.py'),('_consume_blanklines',W+'archiveiterator.py')],
  ['records yielded by ArchiveIterator, err_count, stderr'])
p('C23','Recompress preserves every record',
  'Recompressing a readable WARC or ARC file, whether plain, gzipped per record or gzipped in one piece, produces a file with the same number of records in the same order with the same types, headers, HTTP headers and content (ARC records converted; a revisit with HTTP headers has no payload), each in its own gzip member, with correct Content-Length, and reports that number. A file that cannot be read as WARC or ARC ends with a non-zero exit status.',
  ['inputs','histories','configurations'],'all sequences of records in every compression layout',
  'Five fixed files, checked by count or type only.',
  [W+'recompressor.py',W+'warcwriter.py',W+'archiveiterator.py'],
  [('Recompressor.recompress/load_and_write',W+'recompressor.py'),('decompress_and_recompress',W+'recompressor.py')],
  ['output file and exit status of warcio recompress'])
p('C24','Extract prints exactly the record at the offset',
  'Extracting at the offset of any record prints exactly that record: its WARC headers and HTTP headers if any (in normal form: version in capitals, CRLF line ends, UTF-8), and its raw payload, in full and nothing of its neighbours. With the headers option only the headers are printed, and with the payload option only the payload with transfer and content encoding removed, whatever its size.',
  ['inputs','configurations'],'all records, positions, payload sizes and encodings, three output modes',
  'Three fixed records of two sample files.',
  [W+'extractor.py'],
  [('Extractor.extract',W+'extractor.py')],
  ['stdout of warcio extract'])
p('C25','The index has one faithful line per record',
  'Indexing prints, for every record of every input in order, one JSON line holding exactly the requested fields that the record has, in the requested order: offset and length as reported by the iterator, the base file name, WARC headers and HTTP headers looked up ignoring case, and the HTTP status for responses and revisits. Requesting HTTP fields changes no other field.',
  ['inputs','configurations','histories'],'all records, header contents and field lists',
  'Two fixed invocations on four sample files.',
  [W+'indexer.py'],
  [('Indexer.process_index_entry/get_field',W+'indexer.py')],
  ['stdout of warcio index'])
p('C26','HTTP capture records exactly the bytes on the wire',
  'For each request made through http.client inside a capture context, the written request record holds exactly the bytes sent and the response record exactly the bytes received (header lines in the form warcio writes them), however the client sends the body and reads the response, and the client sees the same response as without capture. The response is written before its request, both carry the same URL and date and the request refers to the response; requests on connections made outside a capture context are not recorded, a context nested in another records alone until it is left, and a filter function can drop or replace the pair.',
  ['inputs','histories','schedules'],'all request/response bodies, read patterns (read, read(n), readinto, readline), sequences of exchanges and filters',
  'A few requests against a local server always read with one pattern.',
  [W+'capture_http.py',W+'warcwriter.py'],
  [('RecordingStream',W+'capture_http.py'),('RecordingHTTPConnection.send',W+'capture_http.py'),('RequestRecorder.done',W+'capture_http.py')],
  ['records written by capture_http'])
p('C27','Captured URLs are the requested URLs',
  'The URL recorded for a captured exchange is the one requested: scheme by connection type, host, port only when it is not the default, and the path as sent; for a request through an HTTP proxy it is the absolute URL in the request line, and through a tunnel the tunnelled host and port; IPv6 hosts are in brackets. WARC-Proxy-Host is there exactly for exchanges through a proxy or tunnel. Each exchange of a context gets its own URL and headers, unaffected by other exchanges before it.',
  ['inputs','histories'],'all hosts, ports, paths, direct, proxied and tunnelled connections, in any order',
  'Tests use one host and one proxy, one kind of connection per capture context.',
  [W+'capture_http.py'],
  [('RequestRecorder.extract_url',W+'capture_http.py'),('start / start_tunnel',W+'capture_http.py')],
  ['WARC-Target-URI and WARC-Proxy-Host of captured records'],
  [('connect_host/connect_port','tunnel target of the current connection',W+'capture_http.py')])
p('C28','Special records carry their mandated fields',
  'A revisit record has the profile of its WARC version, the referred-to URI and date, the given payload digest, and is written with HTTP headers only and no payload. A warcinfo record holds one "name: value" line per non-empty entry in order and the file name. Writing a request/response pair writes the response first, gives the request the same target URI and date as the response and a concurrent-to reference to its id; records get WARC-Date with second precision for WARC/1.0 and microseconds for 1.1, caller-supplied ids, dates and content types are kept.',
  ['inputs','configurations'],'all URIs, dates, digests, info entries, WARC versions and optional arguments',
  'Three revisit records, one warcinfo and one pair are tested.',
  [W+'recordbuilder.py',W+'warcwriter.py'],
  [('create_revisit_record',W+'recordbuilder.py'),('create_warcinfo_record',W+'recordbuilder.py'),('write_request_response_pair',W+'warcwriter.py'),('_init_warc_headers/curr_warc_date',W+'recordbuilder.py')],
  ['record headers and written bytes'])
p('C29','Multi-record gzip members are rejected, not misread',
  'When a gzip member holds more than one record, iteration yields the first record of that member intact and then raises the archive-load error with the recompress hint instead of yielding further records; files with exactly one record per member never raise it, wherever block boundaries fall and even if a member also holds extra blank lines after its record or is empty.',
  ['inputs','histories'],'all groupings of records into members, member sizes and block sizes',
  'Two fixed bad files with the default block size.',
  [W+'archiveiterator.py',W+'bufferedreaders.py'],
  [('ArchiveIterator._iterate_records / _raise_invalid_gzip_err',W+'archiveiterator.py')],
  ['records and exceptions from ArchiveIterator'])

p('C30','Reading options change only what they say',
  'Every combination of the reading options, in ArchiveIterator, WARCIterator and ARCIterator alike, changes only what the option stands for. no_record_parse leaves HTTP headers unread: http_headers is None and the content is the whole block. ensure_http_headers gives a record without HTTP headers "HTTP/1.0 200 OK" with the Content-Type of the record if it has one and the length of its content, and leaves the others as they are. verify_http rejects a HTTP head whose first word is no HTTP version (response, revisit) or method (request) and otherwise changes nothing. check_digests and arc2warc change no content. The type, headers, declared length, content type, order and number of records and the bytes of their content stay the same.',
  ['inputs','configurations'],'all combinations of five options and three classes, all record kinds and sequences, both ways of iterating',
  'Tests set one option at a time, with one sample file each.',
  [W+'recordloader.py',W+'archiveiterator.py'],
  [('ArcWarcRecordLoader.parse_record_stream',W+'recordloader.py'),('default_http_headers',W+'recordloader.py'),('ArchiveIterator / WARCIterator / ARCIterator',W+'archiveiterator.py')],
  ['records yielded by the iterators'])

p('C31','I/O errors are reported, never taken for an end of data',
  'When reading a source (archive, payload, connection) or writing an output fails with an exception, that exception reaches the caller unchanged: it is never taken for the end of a record or file, and reading does not go on behind it. Whatever was returned or written before is correct, and after a failed write the same writer writes the next record whole. Checking a file that cannot be read to its end does not report success, indexing and extracting do not end as if it were complete, and recompressing does not report success with records missing.',
  ['fault_sequences','inputs','configurations'],'every position of one fault in the input, payload source, output or connection; all record kinds, block sizes, ways of reading and tools',
  'No test lets a read or a write fail.',
  [W+'archiveiterator.py',W+'bufferedreaders.py',W+'limitreader.py',W+'warcwriter.py',W+'recordbuilder.py',W+'checker.py',W+'recompressor.py',W+'capture_http.py'],
  [('ArchiveIterator._iterate_records',W+'archiveiterator.py'),('BufferedReader._fillbuff',W+'bufferedreaders.py'),('BaseWARCWriter._write_warc_record',W+'warcwriter.py'),('Checker.process_one',W+'checker.py')],
  ['exceptions, data returned before, bytes written, exit status'])
p('C32','Threads keep their captured exchanges and their files apart',
  'When several threads capture HTTP exchanges at the same time, through connections of one context, through a context of their own with a writer each, or through contexts sharing one writer, every exchange is recorded exactly once with the bytes it sent and received, in the writer of its own context, as a whole response record followed by its request record, with no other record between or inside. Threads outside of any context are not recorded, a filter sees each exchange once, each client sees what it would without capture, and no thread waits for ever. Threads that write and read different archives at the same time, each with writers and iterators of its own, get and write exactly what they would alone.',
  ['schedules','inputs'],'all schedules of the threads within the bound on switches, all body lengths and read sizes',
  'Tests capture from one thread; one test starts a second thread for the server only.',
  [W+'capture_http.py',W+'warcwriter.py'],
  [('capture_http / httplib_patch / RequestRecorder',W+'capture_http.py'),('RecordingHTTPConnection',W+'capture_http.py'),('write_request_response_pair',W+'warcwriter.py')],
  ['bytes in each writer, values seen by each client'])
p('C33','Tools leave their input files as they are',
  'Indexing, checking, extracting and recompressing leave every input file with exactly the bytes it had, whatever it contains (an archive, a damaged or cut one, anything else), whichever options are given, and whether the tool succeeds or fails; besides the named output they write no file. When the named output is one of the inputs, the tool fails instead of overwriting it.',
  ['inputs','configurations'],'all archives and other files within the bounds, all tools and options, output new, existing or one of the inputs',
  'Tests look at the output of the tools only, and never name an input as output.',
  [W+'cli.py',W+'indexer.py',W+'recompressor.py',W+'checker.py',W+'extractor.py',W+'utils.py'],
  [('Recompressor.recompress',W+'recompressor.py'),('Indexer.process_all',W+'indexer.py'),('fsspec_open',W+'utils.py')],
  ['bytes of the input files, exit status'])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for q in P: f.write(json.dumps(q) + '\n')
    print(len(P), 'properties')
