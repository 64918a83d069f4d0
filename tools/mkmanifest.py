#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the table below."""
import json, os, re, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
PBT = "property-based testing: "
CODEC = ("Generated-input search (rapid, shrinking) against an independent reference implementation of the standard; "
         "no absence proof. Trusts the reference model in harness/wire.go and plus.go.")
SRV = ("Generated histories against the real server on a loopback socket with a recording storage, judged by a reference "
       "decoder and a model of the receiver; no absence proof, schedules are sampled, not enumerated.")
TECH = {
 "C01": (PBT + "encode/decode round trip over generated packets", CODEC),
 "C02": (PBT + "differential test against a reference encoder/decoder, generated packets", CODEC),
 "C03": (PBT + "structured and coverage-guided byte fuzzing of every decoder with crash, hang and memory oracle", CODEC),
 "C04": (PBT + "generated packets with injected bit bursts, checksum oracle", CODEC),
 "C05": (PBT + "truncation and length mutation of generated packets, and coverage-guided fuzzing, against a strict reference decoder", CODEC),
 "C06": (PBT + "decode/encode/decode metamorphic relation on generated, mutated and coverage-guided bytes", CODEC),
 "C07": (PBT + "exact-arithmetic oracle and monotonicity over the full value ranges", CODEC),
 "C08": (PBT + "encoding with stale lengths and oversize content against reference lengths and checksums", CODEC),
 "C09": (PBT + "out-of-range values with a non-interference oracle", CODEC),
 "C10": (PBT + "input immutability, repetition and concurrency differential", CODEC),
 "C11": (PBT + "result code compared with the reference decoder's layer verdict on mutated packets and coverage-guided bytes", CODEC),
 "C12": (PBT + "differential test against the published protobuf schema via an independent codec", CODEC),
 "C13": (PBT + "generated packets, JSON document compared with a model of the document", CODEC),
 "S01": (PBT + "generated packet sequences against a model of the confirmations", SRV),
 "S02": (PBT + "generated packet sequences against a model of the stored positions", SRV),
 "S03": (PBT + "metamorphic relation over generated segmentations", SRV),
 "S04": (PBT + "fault injection into generated packet sequences", SRV),
 "S05": (PBT + "generated concurrent client histories, per-connection model; race detector", SRV),
 "S06": (PBT + "byte-stream fuzzing with a service probe after each stream", SRV),
 "S07": (PBT + "storage gate and failure injection over generated sequences", SRV),
 "S08": (PBT + "generated authorization packets against a model", SRV),
 "S09": (PBT + "generated response and foreign-protocol packets against a model", SRV),
 "S10": (PBT + "generated send/silence timelines with measured gaps", SRV + " Timing deviations count only when they reproduce."),
 "S11": (PBT + "generated connect/stop histories", SRV),
 "S12": (PBT + "generated sensor packets against a model of the stored record", SRV),
}
STO = ("Generated configurations and records against wire-level stand-ins of the six brokers (harness/brokers.go); no "
       "absence proof. Trusts the stand-ins' reading of the six protocols.")
PROG = ("Generated invocations of the program built from the current tree; no absence proof. Trusts the reference model "
        "in harness/wire.go.")
TECH.update({
 "T01": (PBT + "generated sets of failing and working storages against a delivery model", STO),
 "T02": (PBT + "generated parameters and payloads delivered to recording broker stand-ins", STO),
 "T03": (PBT + "generated broker faults injected at each protocol stage", STO),
 "T04": (PBT + "generated storage sections against a model of what must be connected", STO),
 "T05": (PBT + "JSON round trip of generated records through an independent reader", STO),
 "F01": (PBT + "round trip of generated settings through YAML files, and malformed files", PROG),
 "G01": (PBT + "generated arguments and generated server replies against a model of packet and exit status", PROG),
 "G02": (PBT + "generated packet files and server answers against a model of the bytes sent and printed", PROG),
 "M01": (PBT + "generated configuration files and packet histories against the running program", PROG),
})
PENDING = "The check for this property is not built yet."
extra = os.path.join(here, "tools", "manifest_extra.py")
if os.path.exists(extra):
    exec(open(extra).read())
src = "".join(open(os.path.join(here, "harness", f)).read() for f in os.listdir(os.path.join(here, "harness")) if f.endswith(".go"))
have = set(re.findall(r'ID:\s*"([A-Z]\d\d)"', src))
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo: every check drives exported packages or the built programs. "
              "check.sh <ID> <replay file> re-runs a saved case."}
for p in props:
    i = p["id"]
    if i in have and i in TECH:
        t, n = TECH[i]
        m["checks"].append({"property": i, "quick_cmd": "./check.sh " + i,
                            "thorough_cmd": "./check.sh " + i, "technique": t,
                            "level": "exploration", "level_note": n})
    else:
        m["not_applicable"].append({"property": i, "reason": PENDING})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed;", [x["property"] for x in m["not_applicable"]])
