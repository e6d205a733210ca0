#!/usr/bin/env python3
"""Writes MANIFEST.json. Run by hand when a check is added."""
import json, os, subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MODEL = "trusts the reference codec and endpoint models in vcommon/ and harness/src/model.rs, and ring and the sha2 crate for signatures and hashes; explores only generated cases, in the configurations of configs/ that check.py lists for it"
T = {
 "C01": ("property-based testing: whole sessions over generated slots, chains and buffers, in lockstep with a reference model of either side", "every step of every generated session is compared byte for byte; " + MODEL),
 "C02": ("property-based testing with fault injection: generated and exhaustively enumerated transport manipulations of sessions; oracle: what was signed is what the requester recorded", "every bit of every message of a session is flipped in turn, further manipulations are random; " + MODEL),
 "C03": ("stateful fuzzing of the responder with structured and mutated requests; oracle: invariants and a final honest session", "random histories; panics, hangs (60 s) and signals count as violations; " + MODEL),
 "C04": ("stateful fuzzing of the requester with structured and mutated responses; oracle: invariants on result and state", "random histories; panics, hangs (60 s) and signals count as violations; " + MODEL),
 "C05": ("structured fuzzing of every decoder; oracle: totality, capacity bounds, prefix and suffix relations", "random bytes, mutations of valid messages, all prefixes; " + MODEL),
 "C06": ("property-based round-trip testing of every message, with exhaustive sweeps of small fields", "generated values within the limits of each configuration; " + MODEL),
 "C07": ("differential testing of encoders and decoders against a reference codec written from the specification, with exhaustive single-byte substitution", "two codecs must agree on every generated byte string; " + MODEL),
 "C08": ("model-based testing: all accepted request paths up to a length times an alphabet of requests, all headers in all phases, random histories; oracle: responder model", "exhaustive within the stated lengths, random beyond; " + MODEL),
 "C09": ("metamorphic testing: a restarted responder against a fresh one under the same requests and the same random stream", "random and enumerated histories before and after the restart; " + MODEL),
 "C10": ("model-based testing: all message codes and versions in all phases, peer capability words, random histories; oracle: requester model", "exhaustive in the headers, random in the histories; " + MODEL),
 "C11": ("model-based testing at the capacity boundary: histories padded to end within bytes of the configured transcript size; oracle: list of messages", "generated histories; " + MODEL),
 "C12": ("exhaustive sweep of hash and signature algorithm offers and generated structure lists; oracle: offered and supported sets, then the later steps of the session", "all hash by signature offers in one configuration's sweep, random structures; " + MODEL),
 "C13": ("exhaustive sweep of selection fields and structure lists; oracle: membership in the offer", "all values of every field one at a time, pairs of bits, random rest; " + MODEL),
 "C14": ("exhaustive sweep of version entries and generated version lists; oracle: highest common version", "all 65536 single entries, pairs of interesting entries, all list lengths; " + MODEL),
 "C15": ("exhaustive sweep of single flags, exponents and reserved bytes, and generated flag words, in both roles; oracle: model", "random beyond single bits and pairs; " + MODEL),
 "C16": ("property-based testing over slot populations and all slot numbers; oracle: reference digests and chain layout", "generated populations; " + MODEL),
 "C17": ("property-based testing of challenges over slots, negotiation and failing signers; oracle: independent signature verification over the reference transcript", "generated populations and histories; " + MODEL),
 "C18": ("metamorphic testing: the same operation with every buffer size; oracle: the reply in an ample buffer", "every size from zero to beyond the message, for each request and message kind; " + MODEL),
 "C19": ("property-based testing of refusals by generated causes; oracle: well-formed error of a class that fits the cause", "generated causes in every phase; " + MODEL),
 "C20": ("model-based testing of operation sequences on the byte and bit codec; oracle: bit-level reference", "random sequences over random buffers; trusts the small reference in the check"),
 "C21": ("property-based round-trip and structured fuzzing of certificate chains; oracle: reference chain parser", "generated chains, header and length boundaries; " + MODEL),
 "C22": ("property-based testing of signature conversion against an independent DER encoder, and of verification against ring called directly, with edge values", "generated and enumerated integers, genuine and altered signatures; " + MODEL),
 "C23": ("differential testing of digests against the sha2 crate over generated data and partitions", "all lengths up to a bound, random partitions; trusts the sha2 crate"),
 "C24": ("dynamic monitoring with a counting global allocator during generated sessions, hostile messages and codec calls", "zero allocations on every generated case; random coverage of error paths; " + MODEL),
 "C25": ("property-based testing of the build script over generated configuration files, and of each limit in libraries built from several configurations", "generated files against a reference validator; limits probed in the configurations of configs/; " + MODEL),
 "C26": ("model-based testing in builds without the features; oracle: nothing beyond what both sides advertise", "exhaustive paths of bounded length and random requests; " + MODEL),
 "C27": ("property-based testing with a recorded random source: every nonce must be the bytes drawn for it", "generated histories of challenges; the system random source itself is replaced by a recorded one; " + MODEL),
 "C28": ("property-based testing over generated certificate hierarchies with one or more broken links, held by a peer that owns the leaf key; oracle: how the hierarchy was built", "generated hierarchies; trusts the certificate builder in vcommon/src/der.rs; " + MODEL),
 "C29": ("metamorphic testing: each endpoint alone in a copy of a fresh process, against all of them interleaved or in threads, with shared dirty buffers, in another", "generated sets of one to five endpoints with generated histories and interleavings; thread schedules are the operating system's"),
}
BUILT = open(os.path.join(HERE, "tools/built")).read().split()
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout
m = {
 "version": 1,
 "setup_cmd": "python3 check.py --setup",
 "hooks": {
  "guard": "cfg flag verif_hooks",
  "enable": "harness/.cargo/config.toml passes --cfg verif_hooks in rustflags; cargo runs in /verif/harness",
  "source_commits": [l.split()[0] for l in log.splitlines() if l.split(" ", 1)[1].startswith("hook:")],
 },
 "checks": [],
 "not_applicable": [],
 "notes": "check.py builds the harness against /repo's working tree once per configuration and runs the property's parts in each. VERIF_SEED fixes every random choice.",
}
for p in props:
    i = p["id"]
    if i in BUILT:
        m["checks"].append({
            "property": i,
            "quick_cmd": f"python3 check.py {i}",
            "thorough_cmd": f"python3 check.py {i} --tier thorough",
            "technique": T[i][0],
            "level": "exploration",
            "level_note": T[i][1],
        })
    else:
        m["not_applicable"].append({"property": i, "reason": "its check is not built yet"})
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
