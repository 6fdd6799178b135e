//! What the evidence says about each property
use crate::engine::About;

const REAL_HIST: &str = "banyan crate as built from /repo (StreamBuilder, Transaction, Forest, TreeIter, IndexIter, queries, ZstdDagCborSeq, Index, BranchCache, MemCache), with zstd, chacha20 and cbor";
const STUB_HIST: &str = "block store (content addressed, with fault injection, crash and loss), the process (a crash drops everything but the store), the items and the embedded links, tree types (numeric keys, min/max summaries)";
const MEASURE_HIST: &str = "hash of the shape of the tree (level, sealed flag, number of children or elements, purged parts) after every successful write operation";
const A_HIST: &[&str] = &[
    "the store returns what was put under a digest or an error; bit rot inside a block is not simulated",
    "one writer per stream at a time, as the API demands with &mut StreamBuilder",
    "the block codec (ZstdDagCborSeq::decrypt, items) is shared between the code under test and the independent tree walk; its errors show up as wrong values, since values carry ids and are compared byte by byte with the model",
];

fn hist(prop: &str) -> About {
    let rule = match prop {
        "C01" => "a case is a seed that generates a configuration, cache sizes, keys and a history of appends, unpacked appends, packing, reopening, rollbacks and reads; non-trivial: a tree of more than two levels was read in all ways, or an append or read happened after something else than an append",
        "C02" => "a case is a seeded history where most write operations have store failures, panics or unacceptable items injected, followed by a retry; non-trivial: an operation really failed",
        "C03" => "a case is a seeded history with crashes inside and between operations, of which a prefix of the block writes survives, and reopening; non-trivial: the stream was reopened or crashed at least once",
        "C04" => "a case is a seeded history with failures, rollbacks, packing, retain and reopening, key stream ranges of all blocks handed to the store are compared; non-trivial: an operation failed",
        "C05" => "a case is a seeded history followed and interspersed by boolean queries over keys and offsets in all reading styles; non-trivial: a query selected some but not all elements",
        "C06" => "a case is a seeded history with chunked reads of all four kinds; non-trivial: a read returned more than two chunks",
        "C07" => "a case is a seeded history with reads during which chosen blocks are unavailable or the n-th fetch fails; non-trivial: a read returned an error",
        "C11" => "a case is a seeded history with retain operations; non-trivial: retain removed at least one element",
        "C12" => "a case is a seeded history with loss of blocks and repair; non-trivial: repair found something",
        "C13" => "a case is a seeded history with many unpacked appends and packs; non-trivial: an unpacked tree was packed",
        "C14" => "a case is a seeded history under a random configuration, every block of every tree is checked; non-trivial: a tree had more than two levels",
        "C16" => "a case is a seeded history of values with embedded links and garbage collections that see only the visible links; non-trivial: a collection deleted something",
        "C19" => "a case is a seeded history with nested builder transactions ended by commit, drop, error or panic; non-trivial: a transaction had at least one step",
        "C20" => "a case is a seeded history with different keys for values and index, blocks and trees are opened with all combinations of keys; non-trivial: a reader with only the index key was checked",
        "C21" => "a case is a seeded history with reads and appends during which all blocks that are not needed are unavailable; non-trivial: some blocks were needed and some were unavailable",
        _ => "",
    };
    About {
        rule,
        real: REAL_HIST,
        stub: STUB_HIST,
        measure: MEASURE_HIST,
        assumptions: A_HIST,
        min_runs: 2000,
    }
}

fn live(prop: &str) -> About {
    About {
        rule: if prop == "C08" {
            "a case is a seeded schedule of writer steps, snapshot notifications, polls of the consumer and of spawned tasks, read failures, unavailable blocks, lagging replication, cancellation and resubscription, for a random query, range and form of forward live stream; non-trivial: elements were delivered and a fault fired or more than two snapshots were seen"
        } else {
            "a case is a seeded schedule as for C08, for the reverse live stream; non-trivial: elements were delivered and a fault fired or more than two snapshots were seen"
        },
        real: "Forest::stream_trees, stream_trees_chunked(_threaded, _reverse) with everything below them: traversal, decryption, caches, channels of the futures crate; the writer",
        stub: "executor (the simulator polls, with flag wakers, spurious polls and arbitrary order), thread pool (spawned tasks are handed to the simulated executor), block store of the reader, snapshot channel",
        measure: "hash of (elements written, delivered, resume offset, ended, running tasks, queued snapshots, active faults) after every step of the schedule",
        assumptions: &[
            "snapshots get longer, as documented",
            "for reverse streams the first snapshot determines which elements must be delivered, the caller has to make sure that it covers the range",
            "how read errors show up in the stream is not specified, only what is delivered",
        ],
        min_runs: 3000,
    }
}

fn conc(prop: &str) -> About {
    About {
        rule: match prop {
            "C10" => "a case is a seeded prologue of writes to one or two streams and two to four threads that write, read snapshots taken at any time before in all reading styles, reopen roots, reset caches and offer blocks, with a seeded schedule (random or PCT priorities) and sometimes store failures; non-trivial: more than two snapshots and at least one read",
            "C17" => "a case is a seeded program of one to three threads over a MemCache on a failing store, over a BranchCache, or of streams with tiny caches as for C10, with a seeded schedule; non-trivial: something was in the cache in the end, or as for C10",
            _ => "a case is a seeded program of two or three threads that put and get blocks on one MemStore near its size limit, with a seeded schedule; non-trivial: operations of different threads overlap",
        },
        real: "MemStore, MemCache, MemWriter, BranchCache, Forest, Transaction, StreamBuilder and everything below them, on real OS threads",
        stub: "thread scheduler (one thread runs at a time; who continues at each lock, store access and between operations is decided by the seed), parking_lot mutex replaced by a wrapper which asks the scheduler, base block store with failures and loss",
        measure: "hash of the schedule (thread switches), of operation histories and of tree shapes",
        assumptions: &[
            "threads are switched only at locks, store accesses, hashing and between operations: code between those points has no shared mutable state (no unsafe, no other synchronisation in the crate)",
            "weak memory effects are not simulated, all sharing goes through mutexes and Arc",
            "the pairing of writers with streams is fixed: one writer per stream",
        ],
        min_runs: if prop == "C18" { 20000 } else { 3000 },
    }
}

fn repl() -> About {
    About {
        rule: "a case is a seeded history of a writer that publishes roots, one to three replicas without keys, a network with loss, duplication, delay, reordering and partitions, crashes with loss of unsynced writes, garbage collection by visible links on every node, and reads by key holders on partial replicas; non-trivial: a fault or a collection happened and a replica became complete",
        real: "Forest, Transaction, StreamBuilder, block format, all reads, caches on all nodes",
        stub: "replication protocol (announce, want, blocks; retries every tick), network and clock (simulated milliseconds), block stores (unsynced tail is lost in a crash)",
        measure: "hash of (up, newest root, complete roots, number of blocks) of all nodes every 16 network events, and tree shapes",
        assumptions: &[
            "the replication protocol itself is a stand-in, banyan only provides blocks and visible links",
            "blocks are verified by digest on receipt, as content addressed stores do",
            "liveness: after faults stop every replica must be complete within a bound proportional to the number of blocks and round trips",
        ],
        min_runs: 2000,
    }
}

pub fn about(prop: &str) -> About {
    match prop {
        "C15" => repl(),
        "C10" | "C17" | "C18" => conc(prop),
        "C08" | "C09" => live(prop),
        _ => hist(prop),
    }
}
