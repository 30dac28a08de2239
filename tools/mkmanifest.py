#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(HERE + "/properties.jsonl")]
EXH = "exhaustive bounded exploration of the real code"
DONE = {
 "C01": ("stateless exhaustive exploration of disc definitions, real builder and reader against the supplied model", "every definition of the stated families is built and read back; trusts the AES/SHA-1 crates for the decoding side"),
 "C03": ("stateless exhaustive exploration of disc definitions, image judged by an independent decoder", "every block of every image of the stated families is decrypted and rehashed independently"),
 "C04": ("stateless exhaustive exploration of disc definitions, layout judged on the decrypted image", "every byte of the decrypted data of every image of the stated families is accounted for"),
 "C05": ("exhaustive exploration of builder operation sequences with injected failures", "all histories up to the stated depth over the stated operations, each finished image judged independently"),
 "C06": ("exhaustive enumeration of trees, real serializer against an independent table model", "all trees up to the stated size; larger ones only in fixed shapes"),
 "C07": ("exhaustive enumeration of Unicode names against the real serializer", "every Unicode scalar value alone and embedded; pairs and lengths as stated"),
 "C08": ("explicit-state exploration of edit sequences, real tree against a map model", "all edit sequences up to the stated depth over colliding names, compared with the model after every step"),
 "C09": ("exhaustive enumeration of trees and callback decisions against a traversal model", "all trees up to the stated size with every stop, rename and change decision"),
 "C11": ("explicit-state exploration of window operation sequences against a bounded-file model", "all operation sequences up to the stated depth over the stated windows"),
 "C13": ("exhaustive fault enumeration on the real builder (every operation of destination, source and definition)", "every single fault point of the stated builds, every pair in the thorough tier"),
 "C16": ("stateless exhaustive exploration of size tuples with a progress model", "all size tuples up to the stated count plus the families of C01"),
 "C23": ("explicit-state exploration of seek/write/flush histories of the real stream against a flat file model", "all histories up to the stated depth over the stated positions and lengths; needs the verif-hooks feature to reach the private stream"),
}
DONE.update({
 "C02": ("exhaustive exploration of directory trees and listing orders (readdir controlled by the harness) on the real code", "all trees up to the stated size in every listing order; every set of missing files"),
 "C10": ("explicit-state exploration of seek/read/open sequences of the real reader against a flat array model", "all operation sequences up to the stated depth over boundary positions and lengths, on hand-made images"),
 "C12": ("exhaustive fault enumeration on the real reader (every operation of the source)", "every single fault point of the stated reading sessions, followed by a retry"),
 "C14": ("exhaustive enumeration of damaged tables, words, truncations and directories on the real code", "all small tables, every word of every structure with extreme values; crashes, aborts and hangs are observed from outside the process"),
 "C15": ("exhaustive enumeration of structure bytes against independent layout tables", "every byte of every structure takes every value; words in pairs over extreme values"),
 "C17": ("exhaustive exploration of listing orders, old destination contents and extract-rebuild cycles on the real code", "all listing orders of the stated directories; stated kinds of old content"),
 "C24": ("exhaustive exploration of colliding directory entries and listing orders on the real code", "all small folders over case variants and entry kinds in every listing order"),
})
DONE.update({
 "C18": ("exhaustive enumeration of hand-made images and requests on the real Python extension", "every combination of the stated sizes, positions, trees, sections and system files; each result is compared byte for byte"),
 "C19": ("exhaustive enumeration of hostile names on the real Python extension, run as an unprivileged user", "all names and pairs of the stated alphabet in four shapes; everything outside the destination is compared"),
 "C20": ("explicit-state exploration of call sequences on the real Python extension against a model", "all call sequences up to the stated depth over three images"),
 "C21": ("exhaustive enumeration of requests to the real command line tool", "every stated image, section, spelling and invalid request; output, files and exit status are judged"),
 "C22": ("exhaustive enumeration of hand-made source images on the real copy function", "all subsets of movie entries, the stated sizes, layouts, partitions and system files"),
})
DONE.update({
 "C25": ("exhaustive enumeration of sources, destinations, rebuild sequences and write limits on the real Python extension", "every combination of the stated sources, former destinations and callbacks, all rebuild sequences up to the stated depth, a write limit at every block"),
})
DONE.update({
 "C26": ("exhaustive enumeration of definitions on both sides of every format limit on the real builder", "every stated definition at and around each limit; accepted ones are judged like in C01, C03 and C04"),
})
FAULT = {"C12", "C13"}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in DONE:
        t, n = DONE[i]
        checks.append(dict(property=i, quick_cmd=f"./check.sh {i} quick", thorough_cmd=f"./check.sh {i} thorough",
            technique="model checking: " + t, level="fault_enumeration" if i in FAULT else "model_checking", level_note=n))
    else:
        na.append(dict(property=i, reason="check not built yet"))
hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%h", "--grep=verif-hooks feature"], capture_output=True, text=True).stdout.split()
m = dict(version=1, setup_cmd="bash setup.sh",
    hooks=dict(guard="cargo feature verif-hooks", enable="mc_stream depends on disc_riider with features = [\"verif-hooks\"]; every other harness uses the crate without it", source_commits=hook),
    checks=checks, not_applicable=na,
    notes="All checks run the real code of /repo's working tree; see DESIGN.md.")
json.dump(m, open(HERE + "/MANIFEST.json", "w"), indent=1)
open(HERE + "/MANIFEST.json", "a").write("\n")
print(len(checks), "checks,", len(na), "not applicable")
