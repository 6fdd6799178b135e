#!/usr/bin/env python3
"""writes MANIFEST.json"""
import json
T = "deterministic simulation with fault injection: "
checks = {
 "C01": ("seeded histories on a simulated store, all reads compared with a list model", "every history step is followed by a full comparison"),
 "C02": ("seeded store failures, panics and bad items inside every write operation, retry compared with an undisturbed twin", "faults hit individual store calls of each operation"),
 "C03": ("seeded crash points with every prefix of the block writes surviving, reopening from surviving roots", "durable state is the ordered prefix of block writes"),
 "C04": ("seeded histories with failures, rollbacks and reopening, key stream ranges of all blocks handed to the store are checked for overlap", "the key stream range of a block is read from its public header"),
 "C05": ("seeded histories and boolean queries in all reading styles against a filter over the model", "query answers are computed from the model, index visits from an independent tree walk"),
 "C06": ("seeded histories, tiling of chunks checked for all chunked reads", "ranges and data of every chunk are checked against the model"),
 "C07": ("seeded unavailability of blocks and failing fetches during reads; results have to be exact prefixes followed by an error", "all iterators, streams and lookups"),
 "C08": ("seeded sequences of snapshots with sub-ranges, read faults, simulated thread pool and polling order; delivered elements compared with the model", "polling, spawned readers and arrival of snapshots are scheduled by the seed"),
 "C09": ("seeded sequences of snapshots with sub-ranges, read faults, simulated thread pool and polling order; delivered elements compared with the model", "polling, spawned readers and arrival of snapshots are scheduled by the seed"),
 "C10": ("seeded thread schedules of readers, writers and cache maintenance on shared snapshots and caches", "threads switch at locks, store accesses and between operations; one runs at a time"),
 "C17": ("seeded thread schedules and store faults over MemCache, BranchCache and streams with tiny caches, compared with cache-less twins", "bytes of a branch in the cache are bounded from below by its structure"),
 "C18": ("seeded thread schedules over MemStore, histories checked for linearizability", "duplicate puts may be refused when there is no room"),
 "C11": ("seeded histories with retain under faults, model of what has to stay and what has to go", "freeing is demanded for packed streams only"),
 "C12": ("seeded loss of blocks followed by repair, compared with the surviving elements", "loss of arbitrary blocks, not corruption of their content"),
 "C13": ("seeded histories ending in unpacked trees, packed under faults, structure and reopening checked", "packedness is defined independently of banyan's own check"),
 "C14": ("seeded histories under random configurations, every block decoded and its structure and summaries recomputed", "limits are those of the largest configuration used on the stream"),
 "C15": ("seeded histories, network faults, crashes and collections in a simulated cluster of key-less replicas, completeness and content checked whenever a replica considers itself complete", "the replication protocol is a stand-in"),
 "C16": ("seeded histories with garbage collection that only sees visible links, at every point", "links are compared with those known to have been put into the values"),
 "C19": ("seeded nested builder transactions ended by commit, drop, error or panic, under store faults", "stream compared with its state at the start of the transaction"),
 "C20": ("seeded histories with separate keys, readers with all combinations of right and wrong keys", "cryptographic strength is assumed, only the use of the keys is checked"),
 "C22": ("seeded histories with crashes, power losses, lost log tails and disk errors at any call of SQLite to a simulated file system, content and completeness of everything that is left checked after every reopening", "the file system below SQLite is a stub in memory"),
 "C23": ("seeded answers and connection failures of a simulated daemon on the loopback network for every request, blocks and whole streams compared with what was stored", "requests are redirected with the http_proxy setting, timeouts of the client are not exercised"),
 "C24": ("seeded histories of tagged elements, re-shaped, reopened and under store faults, queried in all reading styles and compared with a model that looks at one element at a time", "elements without tags are a known finding and are looked at in a tenth of the runs"),
 "C25": ("seeded histories in which nodes of this version and nodes of a frozen older version take turns with the same stream, with failures and crashes", "the older version is a copy of 0.18.0 (with the fixes) in /verif/old, shared libraries below are the same"),
 "C27": ("seeded publications and subscriptions through a simulated daemon with scripted answers, arbitrary chunking and failures, compared with the daemon's log", "requests are redirected with the http_proxy setting, timeouts of the client are not exercised"),
 "C28": ("seeded histories of streams with all kinds of values whose blocks are dumped and drawn to failing writers from a store with lost blocks and failing reads, compared with the encoded model", "the encoders of libipld and the formatter of cbor-data are trusted"),
 "C21": ("seeded unavailability of all blocks that are not needed for a read or append", "needed blocks are computed from an independent tree walk"),
}
extra = {}
try:
    exec(open(__file__.replace("mk_manifest.py", "mk_manifest_more.py")).read())
except FileNotFoundError:
    pass
checks.update(extra)
na = {
 "C26": "Rewriting a boolean expression is a pure function of its input: there is nothing for a simulator to schedule or to fail. (The effect of tag expressions on tree reads is C24.)",
}
later = {p: "The simulation for this property is not built yet." for p in
  ["C08","C09","C10","C15","C17","C18","C22","C23","C24"] if p not in checks}
m = {
 "version": 1,
 "setup_cmd": "./build.sh " + ("sim sim-utils" if "C24" in checks else "sim"),
 "hooks": {"guard": "--cfg banyan_sim", "enable": "RUSTFLAGS=\"--cfg banyan_sim\" (set by /verif/env.sh, cfg is off by default)",
   "source_commits": ["4132836"]},
 "checks": [{
   "property": p,
   "quick_cmd": f"./check.sh {p}",
   "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {p}",
   "technique": T + t,
   "level": "exploration",
   "level_note": "Seeded search over histories, schedules and faults on the real code, each run repeatable from its seed; a violation is minimised and written as a replay file. Absence of violations is evidence for what was explored, not a proof. Notes: " + n + ".",
 } for p, (t, n) in sorted(checks.items())],
 "not_applicable": [{"property": p, "reason": r} for p, r in sorted({**na, **later}.items())],
 "notes": "replay a violation with ./replay.sh FILE; known findings and fixes are listed in known_findings.txt; see DESIGN.md",
}
json.dump(m, open(__file__.replace("mk_manifest.py", "MANIFEST.json"), "w"), indent=1)
