use ethsim::{budget, calls, cli, damage, load, logs, threads};
use simcore::driver::Prop;

#[global_allocator]
static ALLOC: simrt::alloc::SimAlloc = simrt::alloc::SimAlloc;

const LOADER: &[&str] = &["ethabi loader and serialiser (instrumented)", "serde_json", "std::io::BufReader", "std HashMap"];
const CODEC: &[&str] = &["ethabi encoder, decoder, event and filter code (instrumented)", "ethabi loader at every restart"];
const NET: &[&str] = &["link (loss, duplication, delay, partition, corruption)", "node and chain (reference model)", "clock and timers", "hash-seed source"];
const STREAM: &[&str] = &["byte stream (simulated reader/writer)", "disk images (model)", "hash-seed source (getrandom)"];

fn props() -> Vec<Prop> {
	vec![
		Prop {
			id: "C01",
			run: load::c01,
			runs: [400_000, 1_500_000],
			cap_s: [70, 800],
			level: "exploration",
			rule: "one run = one generated ABI document in one JSON form, loaded several times in simulated processes with different hash seeds through differently split and interrupted streams, each load compared with the model; non-trivial when the document has an entry and some read was short or interrupted",
			real: LOADER,
			stub: STREAM,
			assumptions: &["the model of JSON ABI documents matches the Solidity ABI JSON specification"],
			must: &["short_read", "interrupted_read", "big_document", "tuple_array", "overload", "field_missing", "field_twice", "field_of_wrong_kind", "entry_of_unknown_kind", "no_type", "no_list_of_entries"],
			prepare: None,
		},
		Prop {
			id: "C02",
			run: load::c02,
			runs: [400_000, 2_000_000],
			cap_s: [70, 800],
			level: "exploration",
			rule: "one run = one generated ABI document loaded from streams that fail or end at chosen byte positions, then once from a healed stream; non-trivial when a fault fired before the document was complete",
			real: LOADER,
			stub: STREAM,
			assumptions: &["an error after the complete document (in trailing white space) may or may not be noticed"],
			must: &["read_error", "premature_end", "resumable_error"],
			prepare: None,
		},
		Prop {
			id: "C03",
			run: load::c03,
			runs: [400_000, 1_500_000],
			cap_s: [70, 800],
			level: "exploration",
			rule: "one run = a chain of save / crash or write fault / restart / load over generated contracts on a simulated disk; non-trivial when a crash or write fault hit a save in progress",
			real: LOADER,
			stub: STREAM,
			assumptions: &["bytes that are not one complete JSON document must be rejected; a mixture that happens to be a complete plain ABI must load as exactly that ABI or be rejected"],
			must: &["short_write", "interrupted_write", "write_error", "crash_prefix", "crash_zero_tail", "crash_stale_tail", "crash_torn_sectors"],
			prepare: None,
		},
		Prop {
			id: "C04",
			run: damage::c04,
			runs: [400_000, 1_500_000],
			cap_s: [70, 800],
			level: "exploration",
			rule: "one run = one generated ABI document with bytes or tree nodes damaged, loaded under a step and memory budget, and used if accepted; every run is non-trivial because every run damages the document",
			real: LOADER,
			stub: STREAM,
			assumptions: &["decoding is exercised only against types with no zero-size component (the ABI has none)", "invalid UTF-8 and lone surrogates may or may not be refused"],
			must: &["type_name_damaged", "bit_flipped", "deep_components", "damaged_but_accepted", "damaged_and_refused", "decoded_against_damaged", "parsed_against_damaged"],
			prepare: None,
		},
		Prop {
			id: "C05",
			run: threads::c05,
			runs: [400_000, 1_500_000],
			cap_s: [70, 800],
			level: "exploration",
			rule: "one run = two to five threads making calls on one shared contract, released one at a time at compiler-inserted edges, allocations and futex waits, some stalled for good in mid-call; then all calls again alone; non-trivial when at least one preemption happened inside the library",
			real: &["ethabi library (instrumented)", "real OS threads", "std synchronisation primitives"],
			stub: &["thread scheduler (one thread runs at a time, switched by the tape)", "futex system calls", "hash-seed source"],
			assumptions: &["sequentially consistent memory; switches happen at control-flow edges, allocations and futex calls of the library"],
			must: &["preemption", "stalled_caller"],
			prepare: None,
		},
		Prop {
			id: "C06",
			run: calls::c06,
			runs: [400_000, 2_000_000],
			cap_s: [70, 800],
			level: "exploration",
			rule: "one run = one to three callers and a node exchanging up to seven calls over a link that loses, duplicates, delays, reorders, partitions and corrupts, with callers restarting; non-trivial when a payload was damaged or at least four events were handled",
			real: CODEC,
			stub: NET,
			assumptions: &["the reference encoder and decoder follow the Solidity ABI specification", "payloads that would expand beyond 80000 elements are not delivered (C07 covers the budget)"],
			must: &["message_lost", "message_duplicated", "message_delayed", "partitioned", "truncated", "length_or_offset", "crash_restart", "wrong_arguments", "deployment", "damaged_but_readable", "damaged_and_refused"],
			prepare: None,
		},
		Prop {
			id: "C08",
			run: logs::c08,
			runs: [400_000, 2_000_000],
			cap_s: [70, 800],
			level: "exploration",
			rule: "one run = up to eight logs of the events of a generated contract delivered to one or two readers over a link that loses, duplicates, delays, replays and corrupts; non-trivial when at least one delivery happened",
			real: CODEC,
			stub: NET,
			assumptions: &["the reference encoder follows the Solidity specification of indexed parameters"],
			must: &["message_lost", "message_duplicated", "message_delayed", "topic_lost", "topic_added", "topics_swapped", "topic_corrupted", "foreign_topic", "foreign_log", "crash_restart", "damaged_but_readable", "damaged_and_refused"],
			prepare: None,
		},
		Prop {
			id: "C09",
			run: logs::c09,
			runs: [400_000, 2_000_000],
			cap_s: [70, 800],
			level: "exploration",
			rule: "one run = one to three subscriptions against a node with up to six blocks, reorganisations, lost and duplicated notifications and client restarts; non-trivial when the chain held a log of a subscribed event",
			real: CODEC,
			stub: NET,
			assumptions: &["a null position of a filter matches any topic, present or not, as the JSON-RPC specification says"],
			must: &["reorganisation", "crash_restart", "criterion_for_unindexed", "criterion_of_wrong_type", "log_selected", "log_passed_over"],
			prepare: None,
		},
		Prop {
			id: "C07",
			run: budget::c07,
			runs: [400_000, 2_000_000],
			cap_s: [70, 800],
			level: "exploration",
			rule: "one run = two to five hostile or damaged payloads decoded as results or logs of a generated contract, each under an allocation budget and a step budget computed from the bytes received and the elements present; non-trivial when at least one payload was judged",
			real: CODEC,
			stub: &["allocator (accounts, enforces the budget)", "node (hostile)", "step counter at compiler-inserted edges"],
			assumptions: &["the budget is 32 KiB plus 32 bytes per byte received, 640 per element present, 12 per byte of contents present, and 64 per byte of type names", "payloads whose overlapping frames denote more than 80000 elements are not judged"],
			must: &["hostile_lengths", "looping_offsets", "large_payload", "announced_much", "length_or_offset", "truncated"],
			prepare: None,
		},
		Prop {
			id: "C10",
			run: cli::c10,
			runs: [400_000, 1_500_000],
			cap_s: [70, 800],
			level: "exploration",
			rule: "one run = up to three requests against one generated ABI file, each executed once or twice as a real process of the tool under a plan of short, interrupted and failing opens, reads, writes and allocations; non-trivial when the tool was executed at least once",
			real: &["the ethabi executable, built from /repo/cli (shipped and checked builds)", "std, clap, kernel file system in a scratch directory"],
			stub: &["open, read, write, malloc and getrandom of the C library (interposed by LD_PRELOAD, decided by the plan)"],
			assumptions: &["failures of standard output persist once they begin (full disk, closed pipe)", "standard output is open when the tool starts"],
			must: &["interrupted_read", "read_error", "open_error", "short_write", "interrupted_write", "write_error", "stderr_error", "allocation_failure", "file_truncated", "file_missing", "malformed_value", "encode_params", "encode_function", "decode_params", "decode_function", "decode_log", "answered", "not_answered"],
			prepare: None,
		},
	]
}

fn main() {
	std::process::exit(simcore::driver::main(&props()));
}
