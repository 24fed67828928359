#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json
T = {
 "C01": ("property-based fuzzing with hostile container fields; oracle: returns normally", "all container families, hostile values in every recorded numeric field, debug arithmetic in-process and release arithmetic / reader subsets in separate processes"),
 "C02": ("differential property-based testing across entry points, call histories, threads and builds", "memory-backed and disk-backed files stand for all file systems"),
 "C03": ("metamorphic property-based testing over generated read schedules", "schedules repeat a generated pattern of up to 11 steps"),
 "C04": ("fault injection with generated fault positions, kinds and persistence; oracle: fault-free answer and signature model", "up to 100 fault points per case among all calls of the fault-free run, one at a time"),
 "C05": ("generated endless streams through a counting reader; invariant on calls and bytes", "300,000 calls and 256 MiB stand for 'a constant'"),
 "C06": ("generated hostile streams under a counting allocator; invariant on peak heap, on a thread with a bounded stack", "1 MiB of heap and 512 KiB of stack; memory of the operating system is not counted"),
 "C07": ("property-based testing with every signature alternative enumerated on generated backgrounds; oracle: independent signature model", "the documented signature table of the pinned tree, frozen"),
 "C08": ("property-based testing over every compatible pair of signatures; oracle: longest-signature model", "the documented signature table of the pinned tree, frozen"),
 "C09": ("property-based testing with one-byte corruptions and truncations of every signature byte; oracle: signature model", "the documented signature table of the pinned tree, frozen"),
 "C10": ("metamorphic property-based testing: contents that differ only beyond the window", "tails up to 2^60 bytes, provided by synthetic streams"),
 "C11": ("differential property-based testing between separately built feature configurations", "none, all, umbrella, each single reader, all but each, and seed-dependent random subsets of the readers"),
 "C12": ("model-based generation of archives; oracle: table of naming rules over entry names", "well-formed archives; entries after the first 1,024 identify nothing"),
 "C13": ("model-based generation of archives with mimetype entries; oracle: table of media types", "32-bit size and offset fields"),
 "C14": ("metamorphic property-based testing: generated archive layouts of the same entries", "well-formed archives; comments without a complete end record signature"),
 "C15": ("model-based generation of compound files; oracle: table of class identifiers", "well-formed compound files"),
 "C16": ("model-based generation of EBML trees under random encodings; oracle: computed from the tree", "tracks before the first cluster and within 256 elements"),
 "C17": ("model-based generation of box trees under random layouts; oracle: computed from the tree", "tracks within 256 boxes"),
 "C18": ("model-based generation of ASF headers; oracle: computed from the objects", "at most 256 objects"),
 "C19": ("model-based generation of RealMedia chunk lists; oracle: computed from the chunks", "at most 64 chunks"),
 "C20": ("model-based generation of MZ executables; oracle: computed from the header", "complete 64-byte MZ header"),
 "C21": ("model-based generation of ID3v2 tag chains; oracle: computed from the payload", "at most 64 tags"),
 "C22": ("property-based testing with generated marker positions; oracle: naive search", "markers up to 32 MiB"),
 "C23": ("property-based testing with generated marker positions; oracle: naive search", "markers in the documented window"),
 "C24": ("model-based generation of XML documents; oracle: the vocabulary put in", "at most one vocabulary marker per document"),
 "C25": ("property-based testing of generated texts; oracle: independent UTF-8 decoder", "first 16 lines within 65,536 bytes"),
 "C26": ("exhaustive enumeration of formats against the documented catalogue, plus metadata of formats detected from generated contents", "the documented catalogue of the pinned tree, frozen"),
 "C27": ("mutation fuzzing of generated containers; oracle: signature model and family table", "the documented families of the pinned tree, frozen"),
 "C28": ("property-based testing in observed processes with varied surroundings; invariant on what each call leaves behind, differential on the answer", "eight kinds of surroundings; growth must persist over 1,000 further calls to count"),
 "C29": ("differential property-based testing between machines: generated contents given to the crate on this one, as WebAssembly (32 bits) and in Miri emulating big-endian machines", "node's WebAssembly engine and Miri are faithful; the standard library of the other machines is built from source"),
}
checks = [{
  "property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
  "evidence_file": f"evidence/{i}.json", "technique": t, "level": "exploration",
  "level_note": f"Generated-input search with a fixed number of cases per run, a pure function of VERIF_SEED and the code; no proof of absence. Domain and trust: {n}.",
} for i, (t, n) in T.items()]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": [],
     "notes": "No hooks are needed: every check observes the public API. Defects found and repaired: known_findings.txt."}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
open("/verif/MANIFEST.json", "a").write("\n")
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    print("valid", len(checks))
except ImportError: pass
