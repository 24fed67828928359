//! The properties, each as an executable check of one generated case.

use crate::engine::{Ctx, Res, Src};

pub mod containers;
pub mod effects;
pub mod general;
pub mod io;
pub mod portable;
pub mod signatures;

pub struct Prop {
    pub id: &'static str,
    /// Cases in the quick and thorough tiers.
    pub quick: u64,
    pub thorough: u64,
    pub run: fn(&mut Src, &mut Ctx) -> Res,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    /// Configurations of the crate that the check compares with (see the driver crate).
    pub drivers: &'static [&'static str],
    /// Number of cases after which every enumerated dimension has been covered once, if any.
    pub enumerated: fn() -> u64,
}

fn none() -> u64 {
    0
}

const ORACLE: &str = "the frozen tables in harness/data are the documented catalogue and signatures of the pinned tree";
const DOMAIN: &str = "contents outside the documented structure of the container are not judged by this property";

macro_rules! prop {
    ($id:literal, $quick:expr, $thorough:expr, $run:path, $rule:expr, [$($a:expr),*], [$($d:literal),*], $e:expr) => {
        Prop { id: $id, quick: $quick, thorough: $thorough, run: $run, rule: $rule, assumptions: &[$($a),*], drivers: &[$($d),*], enumerated: $e }
    };
}

pub static PROPS: &[Prop] = &[
    prop!("C01", 400_000, 12_000_000, general::c01,
        "valid containers of 11 families, stamped signatures, text and noise, damaged 0 to 6 times (hostile numbers in recorded size/count/offset fields, flips, truncation, insertion, splices, self-repetition), detected with overflow checks on, in a release build, and without or with single readers; non-trivial: at least one damage was applied, or an endless stream",
        ["abnormal endings other than panics are seen as the death of the process running the case"], ["umbrella-release", "none", "txt"], none),
    prop!("C02", 360_000, 4_000_000, general::c02,
        "the contents of C01 up to 4 MiB; each is detected through every entry point, from files on a memory-backed and a disk-backed file system, under any file name and extension, through links and every path type, repeatedly, before and after other (also similar) contents, in a release build and (every 64th case) from four threads at once; also files of the kernel whose recorded size is zero, containers spread over up to 96 MiB, and sparse files with holes up to terabytes; non-trivial: damaged, or carrying a container signature",
        ["the sandbox's file systems are representative"], ["umbrella-release"], none),
    prop!("C03", 250_000, 8_000_000, io::c03,
        "the contents of C01, mostly intact, read through a repeating schedule of short reads (1 byte up to just below the request) and interruptions; the answer is compared with that of a reader that always fills the buffer; non-trivial: at least one short or interrupted read happened",
        ["readers eventually make progress: a schedule never interrupts forever"], [], none),
    prop!("C04", 300_000, 8_000_000, io::c04,
        "half of the cases: an intact container whose fields are read in steps of 1 to 24 bytes, each read and seek call of the fault-free run (50 of them if there are more than 100) failing in turn; the other half: the contents of C01, each of up to 24 calls in turn or up to 12 calls; a call fails once or from then on with one of 18 error kinds, as a custom, bare or operating system error; also contents in pipes, which cannot be seeked; the outcome is compared with the fault-free answer, the signature's format and the generic formats; opening of missing, unopenable, forbidden and directory paths; non-trivial: a fault was reached",
        ["errors other than Interrupted are not retried"], [], none),
    prop!("C05", 45_000, 400_000, general::c05,
        "streams of up to 2^60 bytes that keep a reader busy (endless elements of size zero or minimal size, counts at their maximum, self-referential offsets) and the damaged contents of C01 extended by up to 2^50 bytes; the run must end within 300,000 calls and 256 MiB read; non-trivial: stream longer than 1 MiB or an endless repetition",
        ["the call and byte budgets (300,000 and 256 MiB) stand for 'a constant'; the worst case of the pinned tree is about half of them"], [], none),
    prop!("C06", 120_000, 3_000_000, general::c06,
        "containers one of whose length, size or count fields (or two equal adjacent ones) is large, in streams long enough to hold as much, and the contents of C01 and C05; the call runs on a thread with 512 KiB of stack, whose heap memory is counted by the allocator; non-trivial: damaged or endless",
        ["memory of the operating system is not counted"], [], none),
    prop!("C07", 4_000_000, 60_000_000, signatures::c07,
        "each of the 726 signature alternatives in turn, stamped on an arbitrary background of arbitrary length (ending exactly at the signature up to beyond the window, every 16th up to 2^62 bytes); judged without readers in a separate process and with all readers in this one; non-trivial: the background is not empty or the stream ends exactly at the signature",
        [ORACLE], ["none"], || crate::tables::SIGS.len() as u64),
    prop!("C08", 3_000_000, 40_000_000, signatures::c08,
        "each of the compatible pairs of signature alternatives of different formats in turn (plus random triples), stamped together on an arbitrary background; the answer must be in the set of formats of greatest defining length; non-trivial: at least two formats' signatures are complete",
        [ORACLE], ["none"], || crate::tables::PAIRS.len() as u64),
    prop!("C09", 4_800_000, 60_000_000, signatures::c09,
        "each constrained byte of each signature alternative takes each of the other 255 values in turn; or the stream is cut there, the signature is moved, put after a byte order mark or white space, written in other case, encoding or byte order; beginnings and trailers of unsupported formats, uniform bytes, noise, empty streams; non-trivial: not empty, and neither noise nor uniform",
        [ORACLE], ["none"], || 320 * crate::tables::SIG_BYTES.len() as u64),
    prop!("C10", 1_200_000, 15_000_000, signatures::c10,
        "reader-less signatures and signature-free binary contents whose bytes after the first 36,870 are replaced, removed, extended to up to 2^60 bytes, to the sizes of disk images, or end with the trailers of other formats; non-trivial: the two contents differ beyond the window",
        [ORACLE], ["none"], || 2 * crate::tables::SIGS.len() as u64),
    prop!("C11", 600_000, 6_000_000, general::c11,
        "the contents of C01 up to 1 MiB, detected by separately built configurations: none, all, umbrella, every single reader, all but one, and random subsets; non-trivial: the content has a container signature or is text",
        [ORACLE, "a configuration that fails to build while the full one builds is a violation"], ["*"], none),
    prop!("C12", 1_800_000, 25_000_000, containers::c12,
        "archives of 0 to 1,024 entries whose names are drawn from every documented name and pattern, near misses of them and unrelated names; the answer follows from a table of naming rules; non-trivial: at least one entry",
        [ORACLE, DOMAIN], [], || 30),
    prop!("C13", 3_000_000, 40_000_000, containers::c13,
        "archives with a mimetype entry (every documented media type in turn, near misses, white space, stored or compressed) at any position among other entries, with local and central extra fields of any length; non-trivial: at least one entry",
        [ORACLE, "mimetype entries with 32-bit sizes and offsets"], [], || crate::gens::zip::MIMES.len() as u64),
    prop!("C14", 1_600_000, 30_000_000, containers::c14,
        "archives of the same entries under different layouts: comments up to 65,535 bytes with signature fragments, ZIP64 end records, gaps, reordered local entries, central directories beyond 4 GiB; non-trivial: at least one entry",
        [ORACLE, DOMAIN, "archive comments hold no complete end-of-central-directory signature"], [], none),
    prop!("C15", 1_000_000, 15_000_000, containers::c15,
        "compound files of both versions with every documented class identifier in turn, near misses and random ones, directory at any sector up to 2^32, any entry names; non-trivial: always",
        [ORACLE, DOMAIN], [], || crate::gens::cfb::CLSIDS.len() as u64 + 2),
    prop!("C16", 4_000_000, 60_000_000, containers::c16,
        "EBML trees (document type, tracks with codecs and stereo modes, void/unknown/checksum elements, clusters) under random order and width of all encodings, known and unknown segment sizes, payloads up to 6 GiB; non-trivial: Matroska document with tracks",
        [ORACLE, DOMAIN], [], none),
    prop!("C17", 3_500_000, 60_000_000, containers::c17,
        "box trees with every MP4 brand in turn, tracks of all handler kinds, unknown boxes, 32- and 64-bit sizes, payloads up to 8 GiB, a last box of size zero; non-trivial: at least one track",
        [ORACLE, DOMAIN], [], || 29),
    prop!("C18", 2_200_000, 40_000_000, containers::c18,
        "header objects in any order with stream types, extended content descriptions of up to 300 descriptors with names of any length, unknown objects up to 5 GiB; non-trivial: at least one object",
        [ORACLE, DOMAIN], [], none),
    prop!("C19", 4_000_000, 60_000_000, containers::c19,
        "chunk lists with media properties of any MIME type, stream names of 0 to 255 bytes, chunk sizes up to 4 GiB; non-trivial: at least one stream",
        [ORACLE, DOMAIN], [], none),
    prop!("C20", 8_000_000, 80_000_000, containers::c20,
        "MZ/ZM headers whose extended header offset points at PE/LE/LX/NE headers, at anything else, inside the first header, or beyond the end, offsets up to 2^32-1; non-trivial: the offset points into the stream",
        [ORACLE, DOMAIN], [], none),
    prop!("C21", 8_000_000, 80_000_000, containers::c21,
        "1 to 64 tags of versions 2.2 to 2.4 with and without extended header and footer, sizes up to 256 MiB, followed by FLAC, MP3 or other data; non-trivial: always",
        [ORACLE, DOMAIN], [], none),
    prop!("C22", 120_000, 1_000_000, containers::c22,
        "PDF bodies with the marker at positions biased to multiples of likely chunk sizes up to the 32 MiB limit, preceded by partial repetitions, with near-miss fragments elsewhere; or without the marker; non-trivial: marker present or body longer than a chunk",
        [ORACLE, DOMAIN], [], none),
    prop!("C23", 1_800_000, 25_000_000, containers::c23,
        "databases with the marker anywhere in the 32,768-byte window (biased to its end), near-miss fragments, or without the marker and ending anywhere; non-trivial: body not empty",
        [ORACLE, DOMAIN], [], none),
    prop!("C24", 450_000, 6_000_000, containers::c24,
        "documents of every vocabulary in turn (and unknown ones) with declarations, byte order marks, fillers with near-miss markers, roots biased to the end of the 8,192-byte window; non-trivial: known vocabulary",
        [ORACLE, DOMAIN], [], || crate::gens::xml::VOCABULARIES.len() as u64 + 5),
    prop!("C25", 500_000, 6_000_000, containers::c25,
        "texts of 1- to 4-byte characters with flaws (control characters, invalid or truncated sequences) at random positions, around the 16th line and the 65,536-byte limit, and texts in other encodings; compared with an independent decoder; non-trivial: more than one byte",
        [ORACLE], ["txt"], none),
    prop!("C26", 1_200_000, 4_000_000, general::c26,
        "every format in turn (all accessors against the documented catalogue, uniqueness and syntax rules against every other format), and whatever detection reports for a generated content; non-trivial: always",
        [ORACLE], [], || crate::tables::FORMATS.len() as u64),
    prop!("C27", 700_000, 12_000_000, general::c27,
        "the contents of C01, some extended up to 2^50 bytes; the answer must be a format of the signature model, a documented sub-format of it, or a generic fallback; non-trivial: at least one damage was applied",
        [ORACLE], [], none),
    prop!("C28", 500_000, 8_000_000, effects::c28,
        "the contents of C01 up to 1 MiB, given as bytes, readers and files to processes of their own: ordinary ones, ones without environment, with odd environments, in other and removed directories, of an unprivileged user, and with limits on descriptors and writing; before and after each call the process counts its heap memory, file descriptors, threads, children and output, and notes its directory and environment; non-trivial: damaged, or carrying a container signature",
        ["growth that ends within 1,000 further calls is initialisation or a bounded cache", "memory obtained from the operating system other than through the allocator is not counted"], [], none),
    prop!("C29", 250_000, 5_000_000, portable::c29,
        "intact and damaged containers, half of them longer than 4 GiB, text and noise, given to the crate on other machines: as WebAssembly, which has 32 bits, and (one of 100) in an emulator of a big-endian machine of 32 bits (thorough: also ones of 64 bits and of 32 bits and little-endian); the answer must be the one given here; non-trivial: longer than 4 GiB or recognised by signature",
        ["node's WebAssembly and Miri are faithful", "contents for which detection reads at most 20,000,000 bytes with at most 400,000 calls; in the emulator 30,000 and 2,000"], [], none),
];

pub fn find(id: &str) -> Option<&'static Prop> {
    PROPS.iter().find(|p| p.id == id)
}
