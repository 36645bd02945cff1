"""Regenerates MANIFEST.json and the list of repairs in known_findings.json (maintenance tool, not a check)."""
import json, subprocess
PY = "/opt/veriftools/pyvenv/bin/python"
FIX = {
 "889cd2b": ("C03", "compiled reader of a block with one field followed by one padding byte failed"),
 "4024451": ("C03", "compiled reader lost the stream offset when a block does not start where the previous field ended"),
 "ad12772": ("C03", "compiled reader failed on zero-length arrays next to padding"),
 "a3b1a63": ("C12", "composite values of a flag with duplicate members could not be used"),
 "5463bb1": ("C12", "flags with a signed type lost negative values"),
 "b288679": ("C06", "bit fields that share a storage unit were aligned/offset individually"),
 "59e2110": ("C06", "values that do not fit in a bit field clobbered neighbouring fields on dump"),
 "886c33b": ("C06", "bit fields in a signed storage unit could not be written"),
 "3a0eee9": ("C19", "pack/unpack disagreed on sizes that are not a multiple of 8 bits and on negative values without a size"),
 "01238b7": ("C03", "compiled reader of arrays of byte-based enums and pointers gave other values than the interpreted one"),
 "87da344": ("C16", "a failing dereference left the stream at another position"),
 "08ecd28": ("C07", "arrays up to the end of the stream took a partial last element or failed on it"),
 "3ae7616": ("C09", "T(bytes) of a structure with a single char field differed from parsing a stream"),
 "198a533": ("C11", "assignments through nested or anonymous structures of a union did not reach the union"),
 "d99b797": ("C11", "unions lost bytes that are padding in their largest field; dynamic unions recorded wrong extents"),
 "573e872": ("C10", "evaluating an expression changed the expression; identifiers were confused with unary operators"),
 "11272fb": ("C13", "comments joined tokens, or did not end at \\r"),
 "51c5290": ("C13", "whitespace around array brackets and pointer stars changed a field"),
 "f8a0aba": ("C13", "line breaks and spacing inside enum and constant definitions changed their values"),
 "653e2ac": ("C14", "default values were shared between instances"),
 "5abfa73": ("C07", "negative array lengths; lengths not enforced for elements of a dynamic size"),
 "cffecfc": ("C07", "array lengths used constants instead of the preceding field of the same name"),
 "51deead": ("C19", "dumpstruct failed on bit fields and on instances that were not parsed"),
 "900ac70": ("C20", "uint48 was named int48 in stubs"),
 "a9e7549": ("C10", "sizeof of type names of multiple words was rejected"),
 "84051a1": ("C20", "anonymous structures were named after a pointer or array declaration"),
 "49fd988": ("C20", "stubs of aliases and nested structures referred to names that do not exist"),
 "7cf6a87": ("C20", "stubs of structures with fields self and _self were not valid Python"),
 "d0a3a56": ("C20", "stubs of definitions named __debug__ were not valid Python"),
 "b922ec0": ("C03", "native byte order: compiled readers failed with @, and bit-fields were read and written in the wrong order with @ and ="),
 "f19dd48": ("C20", "stubs of anonymous enums, empty enums and Python keywords were not valid Python"),
 "bb583c8": ("C17", "structures with a field named self or cls could not be instantiated or parsed"),
 "9505e06": ("C13", "a field named flag was parsed as the start of a flag definition"),
 "363f30c": ("C18", "a failing commit left the structure in an update for good"),
 "7571c80": ("C03", "compiler silently dropped arrays of types it does not support"),
 "e3d0a7e": ("C08", "unions accepted short reads and left the stream at the wrong position"),
 "9ce8739": ("C12", "members of a flag and of an enum with equal values compared equal"),
 "3b4e08c": ("C13", "redeclaring an alias for the same target could make it cyclic"),
 "0a9f80c": ("C16", "pointers in unions were dereferenced in the buffer of the union instead of the stream"),
 "af594a7": ("C03", "compiled and interpreted readers disagreed on aligned structures read from a misaligned position"),
 "e1d509e": ("C03", "compiled readers read a bit-field of char from the storage unit of a uint8 bit-field next to it"),
 "f7221c0": ("C17", "a bytes value given together with keyword values was parsed instead of taken as a field value"),
}
k = json.load(open("known_findings.json"))
full = dict(l.split(" ", 1)[::-1][::-1] for l in [])
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout.split("\n")
out = []
for l in log[::-1]:
    if " fix:" not in l: continue
    h = l.split()[0]
    p, what = FIX[h[:7]]
    out.append(f"fixed: property={p} {h[:12]} {what}")
assert len(out) == len(FIX), (len(out), len(FIX))
k["fixed"] = out
json.dump(k, open("known_findings.json", "w"), indent=1)
titles = {d["id"]: d["title"] for d in map(json.loads, open("properties.jsonl"))}
try: LEVELS = json.load(open("levels.json"))
except FileNotFoundError: LEVELS = {}
checks = []
for i in range(1, 21):
    p = f"C{i:02}"
    lv = LEVELS.get(p, {})
    checks.append({"property": p, "quick_cmd": f"{PY} run.py {p}", "thorough_cmd": f"VERIF_TIER=thorough {PY} run.py {p}",
                   "technique": lv.get("technique", "contracts on the real code, executed over generated definitions and inputs (bounded stand-in)"),
                   "level": lv.get("level", "exploration"), "level_note": lv.get("note", "bounded: generated definitions x inputs against an independent specification")})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": [], "notes": "see DESIGN.md"}, open("MANIFEST.json", "w"), indent=1)
