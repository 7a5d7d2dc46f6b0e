#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the notes below; a property is claimed iff its check exists."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{R}/properties.jsonl")]
MC = "model_checking"; EX = "exploration"; FE = "fault_enumeration"
TRUST = (" Trusts: the askar-crypto stand-in (primitives; validated by the 164 upstream unit tests incl. fixed vectors), "
         "the independent reference implementation in harness/src/refjose.rs, rustc.")
NOTES = {
 "C01": (EX, "exhaustive enumeration of packing configurations and message shapes on the real code, round trip checked on each"),
 "C02": (EX, "exhaustive enumeration of layer stacks (library-made and reference-made) on the real code against a metadata model"),
 "C03": (EX, "exhaustive enumeration of single and paired alterations of real envelopes, real unpack run on each"),
 "C04": (EX, "exhaustive enumeration of signature/key/header variations on the real code against a reference verifier"),
 "C05": (EX, "exhaustive enumeration of held-key subsets and packing modes; byte-level secrecy and freshness monitor"),
 "C06": (EX, "exhaustive enumeration of all small DID documents against a reference negotiation model, replayed on the real code"),
 "C07": (EX, "exhaustive enumeration of authentication-key lists and held subsets against a reference selection model, replayed on the real code"),
 "C08": (EX, "exhaustive enumeration of rotation tokens (issuer, subject, key, algorithm, mutation) against a reference verifier"),
 "C09": (EX, "exhaustive enumeration of routing configurations; every onion peeled hop by hop by the reference implementation"),
 "C10": (MC, "explicit-state exploration of a model of the unpack loop over all layer stacks up to a depth; every model trace replayed on the real code"),
 "C11": (EX, "exhaustive bounded grammar and byte mutation of every input kind, real code run on each under panic/hang containment"),
 "C12": (FE, "enumeration of every resolver call as a fault point (singly and in pairs) for every fault kind, on the real code"),
 "C13": (MC, "stateless exploration of all poll interleavings and cancellation points of concurrent operations on the real code"),
 "C14": (EX, "exhaustive enumeration of message shapes and JSON member variations against a reference codec"),
 "C15": (EX, "exhaustive enumeration of key encodings on both sides and of malformed/mismatched material"),
 "C16": (EX, "exhaustive enumeration of packing configurations; every envelope judged by a strict independent implementation"),
 "C17": (EX, "exhaustive enumeration of conforming wire variations made by the reference implementation, real unpack run on each"),
 "C18": (EX, "exhaustive enumeration of addressing combinations against a reference predicate, with a resolver-call monitor"),
 "C19": (MC, "exploration of all answer orders, timings and double answers of callbacks through the FFI adapters on the real code"),
 "C20": (EX, "exhaustive enumeration of document, service and secret shapes and of resolver queries against reference answers"),
 "C21": (EX, "exhaustive enumeration of service configurations against a reference selection model, replayed on the real code"),
 "C22": (MC, "explicit-state Dolev-Yao exploration: closure of attacker moves over real envelopes, every reachable message replayed into the real unpack"),
 "C24": (EX, "exhaustive enumeration of option, metadata and error combinations at the serialisation boundary against independent JSON forms"),
 "C23": (EX, "exhaustive enumeration of self-inconsistent but correctly encrypted envelopes, real unpack run on each"),
 "C25": (EX, "exhaustive enumeration of held-key subsets and damaged recipient entries, real unpack run on each"),
 "C26": (EX, "exhaustive enumeration of single and paired irrelevant changes to documents and wallets, every operation re-run on the real code and compared"),
 "C27": (EX, "exhaustive enumeration of operations, resolver faults and malformed secrets with a key-material monitor on everything said"),
 "C29": (MC, "exploration of all answer forms, deviations and promise/job-queue schedules through the JavaScript wrapper's sources over a model of JavaScript values"),
 "C30": (MC, "stateless exploration of operation histories with failures and drops, and of two-operation schedules; every layer opened by the reference and its values compared with all before"),
 "C31": (EX, "exhaustive enumeration of operations, layer stacks and resolver failures with a monitor on every question asked, against the parties a reference walk derives"),
 "C32": (MC, "explicit exploration of a network of nodes running the real library: every route, habit assignment and duplicated delivery"),
 "C28": (MC, "stateless exploration of all operation histories up to a depth over a changing world; every step compared with a fresh process"),
}
NA = {}
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(f"{R}/harness/src/props/{i.lower()}.rs") or os.path.exists(f"{R}/ffi/src/{i.lower()}.rs") or os.path.exists(f"{R}/js/src/{i.lower()}.rs"):
        lvl, t = NOTES[i]
        checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
            "technique": t, "level": lvl,
            "level_note": "Holds on every execution inside the bounds listed in the evidence file; nothing is claimed beyond them." + TRUST})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
m = {"version": 1, "setup_cmd": "./build.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(f"{R}/MANIFEST.json", "w"), indent=1); open(f"{R}/MANIFEST.json", "a").write("\n")
import subprocess, sys
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json"))); print("valid", len(checks), "claimed", len(na), "not")
except ImportError: print("run with python3-vt to validate")
