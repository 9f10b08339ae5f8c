#!/usr/bin/env python3
"""Writes MANIFEST.json: the technique and the assurance of every check."""
import json, os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("generated round-trip against an independent encoder", "arbitrary transactions, up to several hundred elements and 64 KiB payloads; not every length"),
 "C02": ("generated round-trip, fresh and dirty destination", "every kind of part with arbitrary fields"),
 "C03": ("differential testing against a reference encoder", "trusts the reference encoder in harness/src/enc.rs, written from the format"),
 "C04": ("generated round-trip and differential layout test in dirty buffers", "trusts the reference receipt encoder"),
 "C05": ("structured mutation fuzzing of encodings with allocation accounting", "corruptions of valid encodings (count, length and identifier words, splices, truncations) and random bytes; a counting allocator bounds memory by the input"),
 "C06": ("generated encodings, every prefix and identifier enumerated", "every strict prefix and every short buffer of each generated value, wrong identifiers sampled"),
 "C07": ("generated serde round-trips (JSON text and bincode)", "two formats: a human-readable and a binary one"),
 "C08": ("grammar-based text fuzzing against a reference formatter", "texts made by mutating valid forms, with multi-byte characters"),
 "C09": ("metamorphic edits plus reference id", "the id is recomputed independently; SHA-256 is trusted"),
 "C10": ("metamorphic edits of mutable fields", "compositions of edits of every field that may change, and the crate's own preparation and signing"),
 "C11": ("stateful histories against a cacheless twin", "histories of edits and operations; the documented stale window is not observed"),
 "C12": ("differential testing of offsets against a reference layout", "all indices and several beyond the end of each generated transaction"),
 "C13": ("generated values against a variant table and reference layout", "trusts the table of fields per variant"),
 "C14": ("generated key sets and signing orders against a reference signer", "secp256k1 is trusted; keys are drawn from a pool"),
 "C15": ("tampering of signed transactions against a reference verdict", "trusts key recovery of fuel-crypto"),
 "C16": ("generated predicates against a reference code root", "near-miss owners; trusts the reference RFC 6962 tree"),
 "C17": ("differential testing against a rule model, near-valid generation", "trusts the rule model in harness/src/expect.rs; at most a few faults per case"),
 "C18": ("differential testing against a rule model, near-valid generation", "trusts the rule model; at most a few faults per case"),
 "C19": ("differential testing against a rule model, near-valid generation", "trusts the rule model"),
 "C20": ("differential testing of single elements against a rule model", "trusts the rule model and the reference verdict on signatures"),
 "C21": ("differential testing against exact wide arithmetic, boundary generation", "values cluster at the overflow and rounding boundaries"),
 "C22": ("metamorphic growth of transactions against a reference size", "trusts the reference encoder for the size"),
 "C23": ("differential testing against an exact ledger model", "trusts the ledger model in 128-bit arithmetic and the rule model"),
 "C24": ("stateful chains of checks and conversions against a model", "every implemented conversion between the checked forms, in random chains"),
 "C25": ("differential testing against a reference RFC 6962 tree", "trusts the reference tree; SHA-256 is trusted"),
 "C26": ("differential and metamorphic testing against a reference sparse tree", "trusts the reference sparse tree; distinct keys"),
 "C27": ("differential testing against reference hashes", "SHA-256 is trusted"),
 "C28": ("generated transactions against a reference blanking", "trusts the list of fields that may change"),
 "C29": ("stateful builder call sequences against a model", "sequences of builder calls ended by one finalization and plain constructors; keys from a pool"),
 "C30": ("generated update sequences against a record model", "every setter and every subset of missing parameters"),
 "C31": ("the models of the standard build run against a build without std", "the alloc and serde configuration"),
 "C32": ("generated inputs against a listing model", "asset and contract ids drawn from small pools so that they repeat"),
 "C33": ("generated arguments against a table of fields per kind", "trusts the table of fields per receipt kind"),
 "C35": ("seeded generation of samples and factory transactions against the other properties' models", "seeds are sampled; variation of a value is judged over batches of 64, variants over 250 transactions"),
 "C36": ("fuzzing of every operation on values decoded from mutated encodings", "up to four corrupted words per encoding; panics, ids, offsets and verdicts are judged, other results by the other properties"),
 "C37": ("generated chains of transports judged by an independent model at every hop", "twelve ways to pass a transaction on, in chains of up to five and all in a row"),
 "C34": ("metamorphic single-field edits and reference orderings", "hash is compared through one hasher per pair"),
}
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
checks = []
for p in props:
    i = p["id"]
    tech, note = T[i]
    checks.append({
        "property": i,
        "quick_cmd": f"./check {i} quick",
        "thorough_cmd": f"./check {i} thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": "property-based testing: " + tech,
        "level": "exploration",
        "level_note": "Random search, not proof: " + note + ".",
    })
json.dump({
    "version": 1,
    "setup_cmd": "./check C01 quick && ./check C31 quick && ./check C35 quick",
    "checks": checks,
    "not_applicable": [],
    "notes": "No hooks: every check uses the public interface. properties.jsonl and this file are written by tools/.",
}, open(f"{V}/MANIFEST.json", "w"), indent=1)
open(f"{V}/MANIFEST.json", "a").write("\n")
