#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the list stays reviewable)."""
import json
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files, **({"state": state} if state else {}),
        "mechanism": [{"name": n, "where": w} for n, w in mech],
        "observe_at": observe, "hook_needed": hook}})
R, L, S, F, M = "src/readers.rs", "src/lib.rs", "src/signatures.rs", "src/formats.rs", "src/macros.rs"
API = ["FileFormat::from_bytes", "FileFormat::from_reader", "FileFormat::from_file"]

p("C01", "Detection never panics or overflows, whatever the content",
  "For every byte content, every set of enabled reader features and both debug and release builds, every detection entry point returns normally: it never panics, aborts, overflows an integer or exhausts the stack, and detection from bytes always yields a format. This includes containers whose size, count, length and offset fields hold hostile values (0, 1, just below a header size, 2^31, 2^32-1, 2^63, 2^64-1).",
  ["inputs", "configurations"], "every byte string, every combination of reader features, debug and release arithmetic",
  "The tests run one well-formed sample per format; none holds a hostile size or offset field, so arithmetic on attacker-controlled fields is never exercised.",
  [R, L, M], [("offset arithmetic in the readers", R), ("length guards before slicing", M), ("fallback to the generic reader on reader errors", L)], API)
p("C02", "Every entry point gives the same answer for the same content",
  "For every content, detection from bytes, from a byte-slice conversion, from an in-memory seekable reader (by value, by mutable reference or buffered) and from a file on disk holding exactly that content give the same format. The answer is deterministic: repeating the call, calling concurrently from several threads, or building with or without overflow checks does not change it.",
  ["inputs", "schedules"], "every content, including malformed containers whose offsets point far beyond the end",
  "Each test uses a single entry point (from_file) on one sample; files and memory cursors differ in how they treat seeks past the end, which only malformed or huge offsets reveal.",
  [L, R], [("from_bytes / From<&[u8]> / from_file delegate to from_reader", L), ("seeks relative to hostile sizes", R)], API)
p("C03", "The way a reader splits its reads does not change the answer",
  "For every stream positioned at its start, the reported format depends only on the stream's content: not on how many bytes each read call chooses to return (at least one while data remain), and not on reads that are interrupted and have to be retried.",
  ["inputs", "schedules"], "every content and every legal schedule of short or interrupted reads, including one byte at a time",
  "Files and cursors used by the tests always fill the buffer in one read, so no short or interrupted read is ever observed.",
  [L, R], [("initial fill of the signature buffer", L), ("chunked reads in the PDF, SQLite, XML readers; BufReader in the others", R)], ["FileFormat::from_reader"])
p("C04", "I/O failures are reported or degrade safely, never misidentify",
  "A failure to open a file, or a failure while the beginning of the stream (its first 36,870 bytes) is being read, is returned as an error of the same kind and never as a format such as Empty. A failure at any later read or seek never panics and yields either an error of the same kind, the answer the fault-free run gives, or a more generic one (the container's own format, arbitrary binary data, or plain text when the content is text) - never a different specialised format.",
  ["fault_sequences", "inputs"], "every content and every position, kind and persistence of an injected read or seek failure",
  "No test injects an I/O error at all; the failing-read and failing-seek paths of every reader are never executed.",
  [L, R], [("? on the first read and on File::open", L), ("unwrap_or_else fallback to the generic reader", L), ("? in every format reader", R)], ["FileFormat::from_reader", "FileFormat::from_file"])
p("C05", "Work is bounded by a constant, independent of the stream's size",
  "Detection terminates after a number of read and seek calls and a number of bytes read that are bounded by a constant (at most 300,000 calls and 256 MiB), however long the stream is and whatever it contains: huge element counts, elements of size zero, self-referential or backward-pointing offsets, endlessly repeated headers, or streams of 2^40 bytes and more.",
  ["inputs"], "every content up to 2^62 bytes long, provided by a synthetic seekable stream",
  "Samples are at most 33 KB, so no processing limit is ever reached by a test.",
  [R], [("OBJECT_LIMIT, DESCRIPTOR_LIMIT, ELEMENT_LIMIT, BOX_LIMIT, CHUNK_LIMIT, ENTRY_LIMIT, READ_LIMIT, LINE_LIMIT", R)], ["FileFormat::from_reader"])
p("C06", "Memory use is bounded by a constant, whatever the content declares",
  "Detection never has more than 1 MiB of heap memory allocated at once, never requests a larger single block, and runs on a thread with 512 KiB of stack, whatever lengths the content declares (entry sizes, name lengths, string sizes, counts), however deep it nests, and however long the stream is.",
  ["inputs"], "every content, in particular declared lengths up to the maximum of their field",
  "Memory use is not observed by any test and the samples declare only small lengths.",
  [R], [("DESCRIPTOR_NAME_LIMIT, CODEC_ID_LIMIT, DOC_TYPE_LIMIT, EOCD_MAX_SIZE and the bounded read_bytes calls", R)], ["FileFormat::from_reader", "FileFormat::from_bytes"])
p("C07", "Every supported signature is recognised wherever the rest of the bytes vary",
  "A stream that carries all bytes of one of a supported format's signatures at their offsets, and no complete signature of another format with an equally long or longer defining signature, is identified as that format, whatever all its other bytes are and however long it is (including a stream that ends exactly where the signature ends). With all reader features disabled that format is the answer itself; with reader features enabled it is the answer for every format that has no reader.",
  ["inputs", "configurations"], "each of the 726 signature alternatives times every surrounding content and stream length",
  "Each format has one or two fixed samples: most alternatives (line endings, BOM variants, brands, byte orders, offsets) and all surrounding contents are untested.",
  [S, M, L], [("signatures! table", S), ("from_signature matching", M), ("36,870-byte signature buffer", L)], API)
p("C08", "The longest defining signature wins when several signatures match",
  "When a stream carries complete signatures of several formats, it is identified as the one with the longest defining signature, where a format's defining length is the total number of bytes of its longest signature alternative; among formats with equal defining length any matching one may be reported. In particular a signature that extends another format's signature always wins over it.",
  ["inputs"], "every stream that carries two or more complete signatures at once",
  "The samples carry one signature each except where a fixture happens to cover a specialisation; overlapping pairs (tens of thousands are compatible) are untested.",
  [S, M], [("table listed in descending order of size, first match returned", S), ("from_signature", M)], ["FileFormat::from_bytes"])
p("C09", "No format is reported without its complete signature; Empty only if empty",
  "A stream that carries no complete supported signature is reported as arbitrary binary data, or as plain text where text detection is enabled and the content is text; changing or cutting off any single byte of the only signature present makes the format no longer reported. Empty is reported for zero-length streams and only for them.",
  ["inputs", "configurations"], "every stream without a complete signature, in particular all one-byte corruptions and truncations of all signatures",
  "Tests only feed positive samples (plus one zeroed buffer); over-matching signatures are never exercised.",
  [S, M, L], [("length guard and comparison in from_signature", M), ("nread == 0 test", L), ("default format", L)], API)
p("C10", "Only the first 36,870 bytes decide the signature",
  "For formats identified by signature alone, bytes after the first 36,870 never influence the answer: appending, removing or altering data there leaves it unchanged, and signatures ending exactly at byte 36,870 are still found. The initial read never depends on data beyond that window even for streams of practically unlimited length.",
  ["inputs"], "every content prefix times every tail of every length (including none and sparse tails beyond 4 GiB)",
  "No sample is longer than 33 KB; the third ISO 9660 position at the very end of the window has no sample.",
  [L, S], [("buf: [0; 36_870]", L), ("largest signature offset 36865 + 5", S)], ["FileFormat::from_reader", "FileFormat::from_file"])
p("C11", "Each reader feature affects only its own container family",
  "For every content and every two sets of enabled reader features, the answers can differ only if the content's signature belongs to a family whose reader is enabled in exactly one of them, or (for text detection) if neither a signature nor a reader settles the format. A disabled reader leaves its container reported as the container itself; enabling the umbrella feature equals enabling all individual ones; no combination of features fails to build.",
  ["configurations", "inputs"], "all contents times feature sets (none, each single one, all but each one, all, umbrella, random subsets)",
  "The tests run with no features and with all features only; the 4,094 other combinations are never built, and no test compares two combinations.",
  [R, L, "Cargo.toml"], [("cfg(feature) arms of from_fmt_reader and from_generic_reader", R), ("[features]", "Cargo.toml")], ["FileFormat::from_bytes in separately built configurations"])
p("C12", "ZIP packages are identified by their first identifying entry",
  "With ZIP detection enabled, a well-formed archive of any number of entries (those after the first 1,024 identify nothing) is reported as the documented format of the first entry, in central directory order, whose name identifies one (exact names such as AndroidManifest.xml, or documented folder/extension patterns such as word/*, xl/*, Payload/*.app/*, top-level *.fb2); an archive with META-INF/MANIFEST.MF and no identifying entry is a JAR, and any other archive is a ZIP. Names that merely resemble an identifying name (other case, extra path component, prefix or suffix) identify nothing.",
  ["inputs"], "every list of entry names, every position among the first 1,024 entries of the identifying one",
  "One archive per format with few entries, the identifying one near the front; no near-miss names, long lists or combinations.",
  [R], [("from_zip_reader: match on filename", R)], API)
p("C13", "ZIP packages with a stored mimetype entry are identified by its content",
  "With ZIP detection enabled, an archive whose first identifying entry is an uncompressed (stored) entry named mimetype is reported as the documented format of that media type, surrounding whitespace ignored, and as ZIP for any other media type; a compressed mimetype entry identifies nothing. The entry has ordinary 32-bit size and offset fields (it lies within the first 4 GiB). The position of the entry in the archive and the lengths of its local name, local extra field and central extra field do not matter.",
  ["inputs"], "every documented media type, near-miss media types, every entry position and field length",
  "One sample per media type, mimetype always first with no extra field; near-misses, compressed entries and late positions are untested.",
  [R], [("from_zip_reader: mimetype arm reading the local header", R)], API)
p("C14", "ZIP detection does not depend on archive layout",
  "For a well-formed archive the answer depends only on the entry names (and the stored mimetype content): entry contents, compression methods, sizes, extra fields, entry comments, an archive comment of any length up to 65,535 bytes, ZIP64 end records, data between the entries and the central directory, and central directories located beyond 4 GiB do not change it. An archive comment may contain bytes that resemble ZIP record signatures without being a complete end-of-central-directory signature.",
  ["inputs"], "every archive, rendered with every choice of layout",
  "Samples are plain archives without comments, ZIP64 records or large offsets.",
  [R], [("EOCD backward search, ZIP64 locator, central directory walk", R), ("rfind (Boyer-Moore-Horspool)", R)], API)
p("C15", "Compound files are identified by their root CLSID at any directory location",
  "With CFB detection enabled, a compound file of version 3 (512-byte sectors) or 4 (4,096-byte sectors) whose root directory entry carries one of the documented class identifiers is reported as the matching format, wherever the first directory sector is located and whatever all other bytes are. With any other class identifier it is a Works word processor document if the second directory entry is named MatOST, a Works 6 spreadsheet if the third is named WksSSWorkBook, and a compound file otherwise.",
  ["inputs"], "all documented class identifiers, all one-bit corruptions of them, every directory sector location, both versions",
  "One fixture per format; all use version 3 or whatever location the sample happens to have, alternatives of the same format are partly unsampled.",
  [R], [("from_cfb_reader: sector arithmetic, GUID table, directory entry names", R)], API)
p("C16", "Matroska/WebM detection depends on the element tree, not on its encoding",
  "With EBML detection enabled, a well-formed EBML document whose tracks are described before its first cluster and within the first 256 elements is WebM if its DocType is webm, a generic EBML document if its DocType is neither webm nor matroska, and otherwise Matroska 3D if a track has a non-zero stereo mode, else video, audio or subtitle Matroska by the best kind of codec present (video before audio before subtitles), else generic EBML. Element order, unknown or void elements, payload contents, unknown-size segments, clusters after the tracks and the width in which sizes and integers are encoded (1 to 8 bytes) do not change the answer.",
  ["inputs"], "every such element tree times every encoding of it",
  "Five fixed samples, each with a single track layout and one encoding.",
  [R], [("from_ebml_reader: VINT decoding, element skipping, flags", R)], API)
p("C17", "MP4 detection depends on the track handlers, not on box layout",
  "With MP4 detection enabled, a well-formed file with an MP4 brand and its tracks within the first 256 boxes is MP4 video if any track's media handler is video, else MP4 audio if any is sound, else MP4 subtitles if any is sbtl, subt or text, else plain MPEG-4. Order of boxes and tracks, unknown boxes, box contents, media data before or after the movie box, 32-bit or 64-bit box sizes, media data beyond 4 GiB and a last box of size zero (extending to the end) do not change the answer.",
  ["inputs"], "every such box tree times every layout of it",
  "Three 32-byte samples in which the handler box directly follows the file type box.",
  [R], [("from_mp4_reader: box walk, 64-bit sizes, handler flags", R)], API)
p("C18", "ASF detection depends on the header objects, not on their order or contents",
  "With ASF detection enabled, a well-formed header of at most 256 objects is a DVR-MS recording if an extended content description lists a descriptor named 'DVR File Version...' among its first 32 descriptors, else WMV if any stream is video, else WMA if any is audio, else generic ASF. Object order, unknown objects, object and descriptor sizes, descriptor name lengths, value types and contents do not change the answer.",
  ["inputs"], "every such header",
  "Three minimal samples with a single header object each.",
  [R], [("from_asf_reader: object walk, descriptor walk", R)], API)
p("C19", "RealMedia detection depends on the stream MIME types, not on chunk layout",
  "With RealMedia detection enabled, a well-formed file of at most 64 header chunks is RealVideo if any media properties chunk declares a video/ MIME type, else RealAudio if any declares an audio/ one, else generic RealMedia, whatever the order and sizes of chunks, the stream names (0 to 255 bytes), the type-specific data and other chunks.",
  ["inputs"], "every such chunk list",
  "Two 88-byte samples with a single media properties chunk.",
  [R], [("from_rm_reader: chunk walk", R)], API)
p("C20", "MZ executables are classified by their extended header, wherever it is",
  "With EXE detection enabled, an MZ or ZM file with a complete 64-byte header is a DLL if the extended header it points to starts with the PE signature and has the DLL characteristic set, a PE executable if not set, a linear executable for LE or LX, a new executable for NE, and an MS-DOS executable when the offset points at or beyond the end or to anything else. The offset of the extended header and all other bytes, including the other characteristic bits, do not matter.",
  ["inputs"], "every extended header offset, signature and characteristics value",
  "Five tiny samples, each with one offset and one characteristics value.",
  [R], [("from_exe_reader", R)], API)
p("C21", "ID3v2 tags are skipped exactly, so the audio behind them is identified",
  "With ID3v2 detection enabled, a stream starting with one or more well-formed ID3v2 tags (any version 2.2 to 2.4, any size up to 256 MiB, with or without extended header and footer; up to 64 tags) is FLAC if the data behind the tags starts with the FLAC marker, MP3 if it starts with an MPEG layer 3 sync word, and ID3v2 otherwise (other data, a few bytes, or nothing at all), whatever the tags contain.",
  ["inputs"], "every chain of tags, flags, sizes and payload",
  "Three 22-byte samples, each with one empty tag and no flags.",
  [R], [("from_id3v2_reader: tag loop, synchsafe size, footer", R)], API)
p("C22", "The Illustrator marker in a PDF is found wherever it is in the first 32 MiB",
  "With PDF detection enabled, a PDF is reported as Adobe Illustrator artwork if the marker AIPrivateData occurs completely within the 32 MiB following its 5-byte signature - including across any internal chunk boundary and after any partial repetition of the marker - and as PDF if the marker does not occur at all.",
  ["inputs"], "every marker position up to 32 MiB, every surrounding content and read granularity",
  "One AI sample with the marker near the start; chunk boundaries are never crossed.",
  [R], [("from_pdf_reader: chunked search with overlap", R), ("find (Boyer-Moore-Horspool)", R)], API)
p("C23", "Sketch documents are told from other SQLite 3 databases",
  "With SQLite detection enabled, an SQLite 3 database is reported as a Sketch document if the text com.bohemiancoding.sketch3 occurs completely within the 32,768 bytes following its 100-byte header, and as SQLite 3 if that text does not occur, whatever all other bytes are and wherever the database ends.",
  ["inputs"], "every marker position in the window, near-miss markers, every database length",
  "One sample of each kind with one marker position.",
  [R], [("from_sqlite3_reader", R), ("find (Boyer-Moore-Horspool)", R)], API)
p("C24", "XML vocabularies are identified anywhere in the first 8 KiB",
  "With XML detection enabled, a document that starts with an XML declaration (with or without byte order mark) and contains the root marker of exactly one documented vocabulary completely within the 8,192 bytes that follow its first 5 bytes is reported as that vocabulary, whatever precedes the root (comments, doctype, processing instructions, white space) and whatever follows; two-part vocabularies (TTML and the Uniform Office formats) need both their parts. A document with no such marker is reported as XML.",
  ["inputs"], "every documented vocabulary and spelling, every prologue and marker position",
  "One or two samples per vocabulary with one short prologue; marker positions and window edges are untested.",
  [R], [("from_xml_reader: ordered marker search", R), ("find (Boyer-Moore-Horspool)", R)], API)
p("C25", "Unrecognised content is plain text exactly when its first lines are clean UTF-8",
  "With text detection enabled, non-empty content without a recognised signature is plain text if its first 16 lines, as far as they lie in the first 65,536 bytes, are valid UTF-8 without control characters other than white space, and arbitrary binary data if they are not. Line terminators, multi-byte characters (also across the 65,536-byte limit or read boundaries), line lengths and anything after those lines do not matter.",
  ["inputs"], "every UTF-8 text, and every invalid sequence or control character inserted at every position",
  "One ASCII sample; no multi-byte text, no limit, no negative sample.",
  [R], [("from_txt_reader: take(READ_LIMIT), lines().take(LINE_LIMIT), control-character test", R)], API)
p("C26", "Every format reports its documented, well-formed and unambiguous metadata",
  "Every format - in particular every format that detection returns - reports the documented name, short name, media type, extension and kind, and displays as its name; names are non-empty and unique, media types follow RFC 6838 syntax, extensions are non-empty without leading dot. The default format is arbitrary binary data.",
  ["inputs"], "all 447 formats and every format reached by detecting generated content",
  "Four doc-tests read one attribute each of single formats; no test reads the metadata of the others.",
  [F, M, L], [("formats! table", F), ("accessor generation", M), ("Display, Default", L)], ["FileFormat::name", "short_name", "media_type", "extension", "kind", "Display"])
p("C27", "Damaged containers stay in their family or fall back to generic formats",
  "For every content with all reader features enabled - in particular every truncation, corruption, extension or splice of a valid container - the answer is the format of its signature, one of the documented sub-formats of that format, or a generic fallback (arbitrary binary data, or plain text if the content is text); formats without a reader are reported unchanged. A sub-format of another family is never reported.",
  ["inputs"], "every corruption of every container family",
  "Tests contain no damaged container.",
  [R, L], [("from_fmt_reader dispatch", R), ("fallback on error", L)], API)
p("C28", "Detection leaves nothing behind and does not depend on its surroundings",
  "Detection, from bytes, a reader or a file, only inspects: after the call no heap memory, file descriptor, thread or child process of it remains (apart from one-time initialisation or bounded caches), nothing was printed, the working directory and environment are as before, and the file (content, times, permissions) and its directory are unchanged. The answer does not depend on environment variables, the working directory, the user (as long as the file may be read), or limits on descriptors and file writing.",
  ["inputs", "histories", "configurations"], "every content, well-formed or damaged, through every entry point, in every surrounding",
  "Tests look at the returned format only, in one surrounding; a leak on one path of one reader shows only over many calls with contents that take that path.",
  [L, R], [("from_file opens read-only and drops the file", L), ("readers own their buffers", R)], API)
p("C29", "Answers do not depend on the platform's word size and byte order",
  "The same content gets the same answer on every platform the crate compiles for - 32-bit or 64-bit, little- or big-endian - and detection panics on none of them. In particular a stream of more than 4 GiB, and a 64-bit length, offset or count stored in a file, mean the same where usize has 32 bits.",
  ["inputs", "configurations"], "every content, well-formed or damaged, of any length, on every kind of platform",
  "The tests run on the machine that runs them, on samples of a few hundred bytes.",
  [R, L], [("64-bit lengths, offsets and counts compared with limits of type usize", R), ("read_u16_le .. read_u64_be, read_vint", R)], ["FileFormat::from_bytes", "FileFormat::from_reader"])
json_lines = "".join(json.dumps(x, ensure_ascii=False) + "\n" for x in P)
open("/verif/properties.jsonl", "w").write(json_lines)
print(len(P), "properties")
try:
    import jsonschema
    sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for x in P: jsonschema.validate(x, sch)
    print("valid")
except ImportError: pass
