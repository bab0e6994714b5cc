//! Which worlds decide which property, on which builds, and what the evidence says about them.
pub struct Job {
    pub world: &'static str,
    pub variant: &'static str,
    pub variants: Vec<&'static str>,
    pub share: u32,
}
fn j(world: &'static str, variant: &'static str, share: u32) -> Job {
    Job { world, variant, variants: vec![], share }
}
fn diff(world: &'static str, v: &[&'static str], share: u32) -> Job {
    Job { world, variant: "", variants: v.to_vec(), share }
}
pub fn jobs(prop: &str, _tier: &str) -> Vec<Job> {
    match prop {
        "C01" | "C02" | "C03" | "C04" | "C05" | "C06" | "C09" | "C10" => vec![j("cluster", "cov", 3), j("cluster", "chk", 1)],
        "C07" => vec![j("streams", "cov", 3), j("streams", "chk", 1)],
        "C08" => vec![j("entropy", "cov", 3), j("entropy", "chk", 1)],
        "C11" => vec![j("threads", "mem", 3), j("threads", "lazymem", 1)],
        "C12" => vec![j("threads", "lazymem", 3), j("contexts", "cov", 2), j("contexts", "lazy", 1)],
        "C15" => vec![j("erasure", "lto", 2), j("erasure", "plain", 1), j("erasure", "plainchk", 1), j("erasure", "o0", 1)],
        "C13" => vec![j("genio", "plain", 1)],
        "C14" => vec![j("threads", "mem", 2), j("components", "cov", 3), j("components", "chk", 1)],
        "C18" => vec![j("registers", "cov", 3), j("registers", "chk", 2)],
        "C16" => vec![
            diff("cluster", &["cov", "chk", "lazy", "nostd", "nostdchk"], 4),
            diff("entropy", &["cov", "chk", "lazy", "nostd", "nostdchk"], 1),
            diff("mixed", &["f-none", "f-nonechk", "f-std", "f-lazy", "f-hmac", "f-static", "f-std+hmac", "f-std+static"], 3),
            diff("streams", &["cov", "chk", "lazy"], 1),
            diff("registers", &["cov", "chk", "nostd"], 1),
        ],
        _ => vec![],
    }
}
pub fn quick_secs(prop: &str) -> u64 {
    match prop {
        _ => 40,
    }
}
pub fn thorough_secs(prop: &str) -> u64 {
    match prop {
        _ => 900,
    }
}
pub struct Info {
    pub rule: &'static str,
    pub inter: &'static str,
    pub real: Vec<&'static str>,
    pub stub: Vec<&'static str>,
    pub assume: Vec<&'static str>,
}

const LIB: &str = "all of libsecp256k1 and libsecp256k1-core from /repo's working tree, unmodified source, release optimisation (cov) and with debug assertions and overflow checks (chk)";
const CLUSTER_STUB: [&str; 6] = [
    "nonce candidates: a copy of the hmac-drbg crate whose output the simulator may replace; unarmed it is the crate's own code",
    "network: discrete-event queue (loss, duplication, delay, reordering, partitions, damage, splicing)",
    "disks: records in memory (lost, torn and stale writes); only what was written survives a crash",
    "clock: the event queue's virtual time; the system clock as the library sees it (clock_gettime, gettimeofday, time)",
    "randomness: the seed; getrandom as the library sees it",
    "crash inside an operation: the process forks and is ended at a chosen control-flow edge of the library, or unwinds at a chosen edge",
];
pub fn info(prop: &str) -> Info {
    let cluster_inter = "hash of the order and kind of deliveries, crashes and timer events of a run";
    let base = vec![
        "the reference model (sim/src/model: integers, curve, ECDSA, encodings, HMAC-DRBG in code of its own) is right; it shares no code with the library",
        "seeded search: what no run reached is not covered",
    ];
    match prop {
        "C11" => Info {
            rule: "each run draws 2-5 threads (one run in ten up to 32), each a list of calls (all operations of the API) over shared contexts and shared keys, and for each call a schedule rule: preempted at every k-th instrumented edge, around shared-memory accesses, stalled until the others are done, or abandoned for good. One check is one result compared with the result the same call gives alone, or one context table compared with its content before. Non-trivial and distinct: a run with at least one switch inside a call, counted by (call, rule class, outcome).",
            inter: "hash of the sequence (thread, instrumented event number, switched to) of a run",
            real: vec![LIB, "std's Once and locks under lazy_static (their futex calls are the simulator's)"],
            stub: vec!["thread scheduler: one thread runs at a time; the simulator hands over at instrumented edges, loads and stores of the library", "futex wait and wake", "sched_yield, nanosleep"],
            assume: vec!["a thread switch may happen between any two instrumented edges or memory accesses of the library; weak-memory reordering between them is not simulated", "seeded search: what no run reached is not covered"],
        },
        "C12" => Info {
            rule: "threads world: several threads make the first use of the lazily created contexts at once, or create contexts of their own, under a seeded schedule. contexts world: a process creates, inspects, uses and drops contexts on a heap filled with old data and fenced with red zones, in threads with enough or little stack; in forked processes memory runs out at the k-th allocation. One check is one table entry set compared with the model's table, one red zone, one exit status, or one call result. Distinct by (step kind, heap content class, allocation number, outcome).",
            inter: "hash of the sequence (thread, event, switched to) in runs with racing threads",
            real: vec![LIB, "the lazy_static build of the library", "std's Once (its futex calls are the simulator's)", "std's allocation-failure handler"],
            stub: vec!["global allocator (content of fresh and of released memory, red zones, failure at the k-th allocation)", "thread scheduler", "futex"],
            assume: vec!["the reference tables are computed by the model and by nothing of the library", "seeded search: what no run reached is not covered"],
        },
        "C13" => Info {
            rule: "each run draws a generator (or the whole build script, in scratch directories) and a list of write faults: short writes, EINTR, a disk that is full after k bytes, an error at the k-th write, a write of nothing, a kill inside the k-th write followed by a rerun, stale files of an older build; a fault may be aimed at writes of one shape (row ends, separators, closing text). One check is one Result or one file's content compared with the model's table. Distinct by (generator, fault kinds, where, outcome).",
            inter: "hash of the sequence of write results the disk gave",
            real: vec!["libsecp256k1-gen-ecmult, libsecp256k1-gen-genmult, libsecp256k1-core and /repo/build.rs, unmodified source", "std's File"],
            stub: vec!["write, writev, fsync, close and friends on the watched files (interposed libc entry points)", "process kill: _exit of a forked copy in the middle of a write"],
            assume: vec!["a build script killed by the system loses its process, not writes already made (no power loss)", "seeded search: what no run reached is not covered"],
        },
        "C14" => Info {
            rule: "each run is a history of calls on shared keys and contexts in which components the caller plugs in (generator, digest, serializer, deserializer, text sink) fail by error or panic at the n-th use, or make any other call of the library from inside, to any depth. Every other call is compared with the result it gave before any failure. Distinct by (component, where it failed, call after it, outcome).",
            inter: "hash of the thread schedule in runs of the threads world",
            real: vec![LIB, "serde_json, bincode in the serde calls"],
            stub: vec!["the caller's components", "thread scheduler in the threads world"],
            assume: vec!["unwinding panics (panic=abort builds end the process by definition)", "seeded search: what no run reached is not covered"],
        },
        "C15" => Info {
            rule: "each run keeps keys in drawn kinds of memory (stack frame alive or gone, heap, vector, static, inside other structures, during unwinding), uses them in a drawn history, clears them, and takes a memory image at a drawn later instant: at once, at release, after release, after reuse. One check is one image searched for any four consecutive bytes of the secret. Distinct by (kind of memory, uses before, instant).",
            inter: "hash of (kind of memory, uses, instant) sequences of a run",
            real: vec!["libsecp256k1 built four ways: opt-level 3 with fat LTO, opt-level 3, opt-level 3 with debug assertions, opt-level 0; not instrumented"],
            stub: vec!["global allocator (image at the instant memory is released)", "the process image (read by the simulator)"],
            assume: vec!["only the memory of the key object itself is claimed; copies the caller or compiler made elsewhere are not", "the installed compiler"],
        },
        "C16" => Info {
            rule: "the same seeds (histories of deployments with crashes and network faults, faulty entropy, faulty serde streams, computations with field, scalar and group values, hostile inputs) run in every build that offers the calls; their event logs, which contain every result and error kind, are compared byte by byte. One check is one event log compared. Distinct by (step kind, input class, outcome).",
            inter: "hash of the order of events of a run, identical in every build",
            real: vec!["the library built as: default, default with debug assertions, lazy-static-context, no_std, no_std with debug assertions, no static context at all (hmac off), std only, lazy without hmac, hmac only, static only, std+hmac, std+static"],
            stub: CLUSTER_STUB.to_vec(),
            assume: vec!["builds for the host's target only (no 32-bit or big-endian target is installed)", "seeded search: what no run reached is not covered"],
        },
        "C18" => Info {
            rule: "each run draws 1-3 nodes with registers of field elements, scalars, affine and jacobian points, and a history of public operations on them (every operation in each of its forms, in-place results over whatever the destination held), mixed with storing, sending, crashes and reloads. Limbs, values and relations between points are drawn mostly from their extremes. One check is one register compared with the model after an operation, or one answer. Distinct by (operation, operand classes, magnitudes, relation of the points).",
            inter: "hash of the sequence (kind of step, node) of a run",
            real: vec![LIB],
            stub: vec!["network between the nodes: a list of messages (loss, duplication, reordering)", "disks: records in memory; a crash may fall between any two records of a save", "the seed is the only randomness"],
            assume: vec!["operations are called within the magnitude and normalisation requirements the code documents or asserts", "the reference model is right; it shares no code with the library", "seeded search: what no run reached is not covered"],
        },
        "C07" => Info {
            rule: "each run draws keys and serde formats (serde_json over readers and slices, bincode, and a format of the simulator's own that hands data over borrowed, copied, owned or as a sequence) and a fault list for the stream below: short reads and writes, EINTR, errors, truncation, corruption, failing or panicking format. One check is one key, Result or byte string compared with the model. Distinct by (format, direction, fault kinds, outcome).",
            inter: "hash of the sequence of (kind of step, faults injected in it) of a run",
            real: vec![LIB, "serde_json, bincode"],
            stub: vec!["Read and Write below the formats", "a serde format of the simulator's own"],
            assume: base,
        },
        "C08" => Info {
            rule: "each run feeds SecretKey::random a drawn byte stream: stuck, zero, equal to n, above n, boundary and biased draws in any mixture, ending in a valid draw or a panic at any point of a fill, with retries. One check is the key and the number of bytes drawn compared with the model, or a panic payload. Distinct by (sequence of draw classes, failure point, outcome).",
            inter: "hash of the sequence of (kind of step, faults injected in it) of a run",
            real: vec![LIB],
            stub: vec!["the random generator"],
            assume: base,
        },
        _ => Info {
            rule: "each run draws a deployment of signers, verifiers, watch-only replicas, key-exchange peers and a hostile sender, a workload weighted for this property, and faults of network, disks and processes; values are drawn mostly from boundary classes (limb patterns, neighbours of 0, n, n/2, p, related points, crafted nonces). One check is one library result compared with the reference model or with an earlier result of the same request; liveness is checked as: everything outstanding is accepted within a bounded number of redeliveries after faults stop. Distinct by (operation, input classes, outcome).",
            inter: cluster_inter,
            real: vec![LIB],
            stub: CLUSTER_STUB.to_vec(),
            assume: base,
        },
    }
}
