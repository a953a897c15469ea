RS = "db/rocks_store.cc"
PROPS = [
 dict(id="C01", title="Acknowledged store writes survive a process crash at any point",
  statement="Every write the store reported as successful is there after the process dies at any point and the store is reopened, on every branch, unchanged. A write that was not acknowledged is there either entirely or not at all, and reopening succeeds after any crash.",
  over=["crash_points", "schedules", "histories", "fault_sequences"],
  q="all histories of single and batched writes, flushes, compactions, branch creations and drops, with the process dying before, in the middle of or after any disk operation, and any number of restarts",
  why="The tests open a store on a healthy disk, never kill the process and never reopen after a failed operation; they see one history each.",
  files=["db/rocks_store.cc", "db/rocks_store.hpp"],
  state=[("records", "reduced object states keyed by (form, id)", "one RocksDB column family per branch")],
  mech=[("Write / Write(Records)", RS), ("Open / OpenAll", RS), ("merge operator", RS)],
  at=["Read", "Iterator", "OpenAll"], tech="crash points placed at every disk operation by seed, whole RocksDB on a simulated disk, reference model of the history",
  note="Seeded search over crash points and background-work schedules; page cache survives a process crash (RocksDB WAL is written before the acknowledgement). Trusts RocksDB's own code."),
 dict(id="C02", title="Power loss never tears a write or a batch and keeps a prefix of the history",
  statement="After a power loss that drops, tears or zeroes unsynced data, the store reopens; every single write and every multi-record batch is present entirely or not at all. On a branch, no write survives while an earlier write that went to the same log is lost.",
  over=["crash_points", "fault_sequences", "histories"],
  q="all histories of writes, batches, flushes and compactions with power cut at any point, any subset of unsynced bytes kept, torn or zeroed",
  why="No test loses unsynced data; atomicity over a torn log tail is a statement on every byte offset.",
  files=["db/rocks_store.cc", "db/replica.cc"],
  mech=[("Write(Records) as one batch", RS), ("Commit::Save", "db/replica.cc")],
  at=["OpenAll", "Read", "Iterator"], tech="power loss with torn and zeroed tails at seeded points, atomicity and prefix oracles",
  note="The store does not promise sync writes, so losing a tail is allowed, tearing is not."),
 dict(id="C03", title="What is read is the reduction of what was written, whatever the store does",
  statement="Reading a record returns exactly the merge, by its data type's rules, of everything written under that key on that branch, in whatever order flushes, compactions, reopenings and memtable merges happened in between. Repeated or overlapping writes do not change the outcome for the convergent types, and parsing what is read back gives the same ops, values included.",
  over=["schedules", "histories", "inputs"],
  q="all sequences of writes to all record kinds and all interleavings of flush, compaction (level and universal) and reads",
  why="The tests write a record two or three times with no flush or compaction in between, so partial merges, merges of merges and operand order on disk are never met.",
  files=["db/rocks_store.cc", "rdt/rdt.hpp", "rdt/rga.hpp", "rdt/mx.hpp", "rdt/log.hpp", "rdt/lww.hpp", "ron/text.cc"],
  mech=[("FullMergeV2 / PartialMergeMulti", RS), ("Merge, MergeCursor", "rdt/rdt.hpp"), ("RGArrayRDT::MergeBig", "rdt/rga.hpp")],
  at=["Read", "Iterator::value"], tech="seeded schedule of background flushes and compactions, per-key reference reduction",
  note="Every read is compared with an independent reduction of the write history."),
 dict(id="C04", title="Scans are ordered, complete and duplicate free under background work",
  statement="A scan visits the keys of its branch in ascending order, each at most once, skips none that was written, shows none that was not, and stops at the end. Seeking lands on the nearest key at or after (or, on request, at or before) the one sought.",
  over=["schedules", "histories", "inputs"],
  q="all sets of keys, seek targets and directions, with flushes and compactions running between the steps of a scan",
  why="One test iterates over a couple of keys in a fresh memtable.",
  files=["db/rocks_store.cc", "db/key.cc", "db/key.hpp"],
  mech=[("Iterator SeekTo/Next/key", RS), ("Key encoding, big endian", "db/key.hpp")],
  at=["Iterator::SeekTo", "Iterator::Next", "Iterator::key"], tech="seeded scans with background jobs stepped inside them, ordered reference set",
  note="Keys include neighbours in the last bit of either word and both extremes."),
 dict(id="C05", title="Branches are isolated, and exist exactly while created and not dropped",
  statement="A write to one branch never shows up on another; a branch whose creation was acknowledged is found, with its exact id, at each later opening; a dropped one never returns. Creation and drop interrupted by a crash or an I/O error leave a store that opens.",
  over=["crash_points", "histories", "fault_sequences"],
  q="all histories of creating, writing, dropping and reopening branches with crashes and I/O errors at any disk operation",
  why="The tests never create a branch under faults and never reopen several branches after a crash.",
  files=["db/rocks_store.cc"],
  mech=[("Create / Drop", RS), ("OpenAll", RS)], state=[("column family name", "the branch id", RS)],
  at=["OpenAll", "Read", "Iterator"], tech="crash and error injection around branch creation and drop, reference model of branches",
  note="Branch ids include ones with trailing zeroes and tiny origins."),
 dict(id="C06", title="A failed disk operation is reported, and never corrupts what is there",
  statement="An operation the disk refuses (error, full disk, torn write, garbled read) or the database rejects, with whatever code, is reported as failed rather than acknowledged or presented as end of data or as absent; operations not touched by a fault succeed. Once the fault is gone, all that had been acknowledged is readable.",
  over=["fault_sequences", "histories"],
  q="all placements of EIO, disk full, torn writes, garbled reads and failing API calls (9 status codes) over all operations of the store",
  why="No test makes a disk operation fail.",
  files=["db/rocks_store.cc"], mech=[("status mapping", RS), ("Iterator::Next status", RS)],
  at=["returned Status", "Read", "Iterator"], tech="I/O errors injected at seeded disk operations and at the RocksDB API seam",
  note="Crash recovery is allowed after a background error."),
 dict(id="C07", title="Repair brings a store back without losing flushed records",
  statement="Repairing a store, after any number of crashes, gives a store that opens, has every branch that holds flushed records and all acknowledged writes on them, and invents nothing.",
  over=["crash_points", "histories"],
  q="all histories of writes, flushes, compactions, crashes and repairs",
  why="There is no test of repair.",
  files=["db/rocks_store.cc"], mech=[("Repair with the merge operator set", RS)],
  at=["Repair", "OpenAll", "Read"], tech="repair after simulated crashes, reference model",
  note="RocksDB's RepairDB drops column families without table files, so branches are flushed first."),
 dict(id="C08", title="Registers, matrices, max registers and logs converge under any delivery",
  statement="Replicas that have received the same changes hold the same state, whatever the order, grouping, repetition or mix of ops and states in which they came, for last-write-wins objects, matrices, max registers, metadata and yarns. The last write of a field (by timestamp) wins and reads back with its type and value, also after garbage collection, which leaves exactly the last write of each field; a max register holds the largest value of all the written.",
  over=["histories", "schedules", "inputs"],
  q="all histories of edits on any number of replicas and all deliveries (lost, repeated, reordered, grouped, relayed as states) of them",
  why="The tests merge two or three literal frames in one order.",
  files=["rdt/rdt.hpp", "rdt/lww.hpp", "rdt/mx.hpp", "rdt/max.hpp", "rdt/meta.hpp", "rdt/lww_obj.hpp"],
  mech=[("MergeCursors / MergeFrames / MergeStrings", "rdt/rdt.hpp"), ("LastWriteWinsRDT::GC", "rdt/lww.hpp"), ("LWWObject", "rdt/lww_obj.hpp"), ("MaxRDT", "rdt/max.hpp")],
  at=["MergeCursors", "MergeFrames", "LWWObject reads"],
  tech="seeded gossip between simulated replicas over a lossy, duplicating, reordering network; definition-level reference per type",
  note="After the faults stop, a state exchange must make all replicas equal."),
 dict(id="C09", title="Replicated arrays converge; pieces that cannot be attached are refused",
  statement="Replicas of an array (causal tree) that have received the same ops hold the same sequence: parents before children, siblings newest first, each op once with its value. Frames whose ops cannot be attached are refused, not dropped or misplaced. The state made from an op log, whole or up to any version, equals the merge of those ops.",
  over=["histories", "schedules", "inputs"],
  q="all histories of concurrent inserts and removals at any positions and all deliveries, groupings, partial subtrees and relays of them",
  why="Merge order depends on timestamps and nesting at any depth; the tests cover a handful of hand-written trees.",
  files=["rdt/rga.hpp", "rdt/rdt.hpp", "ron/text.hpp"],
  mech=[("RGArrayRDT::Merge / MergeBig", "rdt/rga.hpp"), ("ObjectLogToState", "rdt/rdt.hpp")],
  at=["MergeCursors", "ObjectLogToState"],
  tech="seeded gossip with loss, duplication, reordering and partial subtrees; independent causal-tree reference",
  note="Values include multibyte text, escapes and span-compressed runs."),
 dict(id="C10", title="The same ops show the same text: removals and undos on arrays",
  statement="The visible part of an array is a function of its ops: an entry is hidden exactly when a removal under it is in force; k undos of a run of removals bring back the last k of them; nothing else is affected, whatever the nesting and the concurrent edits. A visibility scan covers each op once.",
  over=["histories", "inputs"],
  q="all trees of concurrent inserts, removal runs, undo runs and stray ops produced by any history",
  why="The tests hold a few trees with one removal or undo.",
  files=["rdt/rga.hpp"], mech=[("ScanRGA", "rdt/rga.hpp")], at=["ScanRGA"],
  tech="states produced by the gossip simulation, path-based reference of the visibility rules",
  note="Also run on every intermediate state."),
 dict(id="C11", title="A frame is applied as a whole or not at all",
  statement="A frame a replica accepts is applied with all its effects: every op in the state and the log of its object, the branch tip, yarn tips and hashes, names. A frame it refuses, or whose processing is cut by an I/O error, a crash or a power loss, leaves no trace: the branch is as before (after a power loss, as at some earlier frame boundary). A valid frame is accepted, one that breaks a rule is refused; the replica opens after any of that and goes on.",
  over=["inputs", "crash_points", "fault_sequences", "histories"],
  q="all histories of valid and invalid frames (edits, merges of other branches, names, comments, unstamped writes) on any number of branches, with crashes, disk errors and power losses at any disk operation",
  why="The tests apply a few good frames to a healthy store; atomicity is about every byte offset of the log and every position of the offending op in a frame.",
  files=["db/replica.cc", "db/replica.hpp", "db/joined_store.hpp", "db/mem_store.hpp", "db/rocks_store.cc"],
  state=[("branch content", "records, logs, tips, op metas, names", "one RocksDB column family per branch"), ("uncommitted changes", "the overlay of the frame being applied", "in-memory store joined with the disk one")],
  mech=[("ReceiveFrame / ReceiveData / ReceiveWrites", "db/replica.cc"), ("Commit, Commit::Save", "db/replica.cc"), ("Write(Records) as one batch", RS)],
  at=["ReceiveFrame", "Open", "GetObject", "FindObjectLog", "GetStore().Read/Iterator"],
  tech="crashes, I/O errors and power losses at seeded disk operations inside frame processing; the full content of every branch is compared with a reference model of the replica after every frame and restart",
  note="Good, bad and torn frames are mixed; after a failure the content must equal the model before or after the frame, nothing else."),
 dict(id="C12", title="Events are taken once, in causal order, from the right yarns",
  statement="A branch accepts an event only if its cause and its yarn are known, its timestamp is above the last of its yarn and above its cause; repeats, reorderings, gaps, dangling or forward references, events without authors, second yarn roots and frames ending with a foreign op are refused. The log of every object is in causal order, holds every accepted event once, with its content unchanged.",
  over=["histories", "inputs", "schedules"],
  q="all deliveries (repeated, reordered, early, relayed, forged) of all histories of edits",
  why="The tests show one or two rejected ops; the rule has to hold for every op at every position of every frame.",
  files=["db/replica.cc", "db/replica.hpp", "ron/opmeta.hpp"],
  mech=[("CheckEventSanity / SaveChain / SaveChainlet", "db/replica.cc"), ("FindOpMeta / FindYarnTipMeta", "db/replica.cc"), ("OpMeta::Next", "ron/opmeta.hpp")],
  at=["ReceiveFrame", "FindOpMeta", "FindObjectLog"],
  tech="seeded duplicated, reordered, delayed and forged deliveries between simulated replicas; executable causality rules decide what must be accepted and what refused",
  note="Rules are applied to the reference model op by op; acceptance must agree with it."),
 dict(id="C13", title="Timestamps are unique and monotonous whatever the clocks and restarts do",
  statement="Each timestamp a replica hands out for a yarn (Now(), unstamped writes, branch creation and forks) is above everything that replica had issued or accepted since it was opened and above the tips and names it has stored, including after restarts and crashes, and with a clock that stands still, jumps back or forth. When the clock is ahead of all that, the timestamp is the calendar time of the clock.",
  over=["schedules", "histories", "crash_points"],
  q="all sequences of clock jumps, restarts, crashes, local writes and received frames",
  why="No test moves the clock or restarts a replica between writes.",
  files=["db/replica.cc", "db/replica.hpp", "ron/uuid.cc", "ron/uuid.hpp"],
  mech=[("Replica::Now / See / Open", "db/replica.cc"), ("Uuid::HybridTime / Now", "ron/uuid.cc"), ("Amend", "ron/text.cc")],
  at=["Replica::Now", "ReceiveFrame", "CreateBranch", "ForkBranch"],
  tech="simulated clock with seeded jumps, crashes and restarts; a lower bound for every stamp is kept by the model",
  note="A restart forgets what was seen but not stored, so only stored tips count after it."),
 dict(id="C14", title="Replicas converge once the network lets them",
  statement="After any amount of message loss, repetition, delay, reordering, regrouping, node crashes, disk errors and clock skew, once everything is delivered, every replica holds the same branches: equal tips, states, logs (as causally ordered sets) and yarn hashes. Merging all the branches gives every replica the same objects. Delivery always makes progress: a valid frame in order is never refused.",
  over=["schedules", "fault_sequences", "histories"],
  q="all schedules of edits, branch merges, sends, losses, repeats, reorderings, crashes and restarts on up to four replicas",
  why="There is no multi-replica test over an unreliable network.",
  files=["db/replica.cc", "db/replica.hpp", "rdt/rdt.hpp", "rdt/rga.hpp", "ron/text.hpp"],
  mech=[("ReceiveFrame", "db/replica.cc"), ("merge operator", RS), ("MergeCursors", "rdt/rdt.hpp")],
  at=["ReceiveFrame", "GetStore().Iterator", "FindYarnTipMeta"],
  tech="whole replicas in one process on simulated disks, clocks and network; convergence and bounded progress after the faults stop, against the model",
  note="Up to four replicas, each mirroring the others' branches; two rounds of delivery and merging must suffice."),
 dict(id="C15", title="States, logs, versions and queries of an object agree",
  statement="For every object of every branch: the state is the reduction of its log by its data type's rules, a version is the reduction of the log up to that op, the text map is the visible text, state and log queries respond with the same, names lead to the ids they were given for. This stays so over flushes, compactions and restarts.",
  over=["histories", "schedules", "inputs"],
  q="all histories of frames on all data types with background work in between, all objects and all versions of them",
  why="The tests read back a couple of objects right after the write; versions and log queries are hardly touched.",
  files=["db/replica.cc", "db/replica.hpp", "db/map/txt.hpp", "rdt/rdt.hpp"],
  mech=[("GetObject / GetObjectVersion / FindObjectLog", "db/replica.cc"), ("ReceiveQuery / TxtMapper", "db/replica.cc"), ("ObjectLogToState", "rdt/rdt.hpp")],
  at=["GetObject", "GetObjectVersion", "FindObjectLog", "ReceiveFrame (queries)", "ReadNames"],
  tech="seeded histories and background schedules, every read compared with the reference model",
  note="A log query at an op may end before or with that op (the code excludes it; either is accepted)."),
 dict(id="C16", title="Ops survive any notation and any number of rewrites",
  statement="Whatever valid RON text notation an op comes in (implied ids, spans, quoted or bare values, escapes, \\u, any spacing, any grouping into frames), a replica takes it for exactly the op meant by the format; whatever a replica writes (records, merged states, logs, responses, relayed and rewritten frames) reads as exactly the same ops, values bit for bit, by the format's definition, however many times they were parsed, merged, rewritten, relayed and restarted.",
  over=["inputs", "histories", "schedules"],
  q="all sequences of ops with all kinds of values, in all notations, over all histories of merges, rewrites, compactions, relays and restarts",
  why="The tests parse a few dozen literal frames; a notation multiplied by a value multiplied by a rewrite is not there.",
  files=["ragel/text-grammar.rl", "ron/text-parser.cc", "ron/cp-parser.cc", "ron/text-builder.cc", "ron/text.hpp", "ron/uuid.cc", "ron/encdec.hpp"],
  mech=[("TextFrame::Cursor::Next / NextCodepoint", "ron/text-parser.cc"), ("TextFrame::Builder::AppendOp / AppendNewOp / AppendAmendedOp", "ron/text.hpp")],
  at=["ReceiveFrame", "GetObject", "FindObjectLog", "records in the store", "query responses"],
  tech="frames rendered in random notations by the harness, everything that comes out read by an independent reader of the format and compared with the ops meant",
  note="Frames are text (the only codec that is built). Ids are compared bit for bit, strings as code points."),
 dict(id="C17", title="No frame crashes a replica; a malformed one leaves no trace",
  statement="Whatever bytes arrive as a frame (torn, garbled, mangled, senseless, any query, any annotation), the process neither crashes nor hangs nor touches memory it does not own. A frame that is not well-formed by the format's definition is refused as a whole and changes nothing; a well-formed one is treated as exactly the ops it reads as. Branches that were not addressed are not affected, before or after a restart.",
  over=["inputs", "fault_sequences", "crash_points"],
  q="all byte strings a faulty or hostile peer can send, over all states of a replica, with crashes and disk errors in between",
  why="The tests send well-formed frames and three or four broken ones.",
  files=["ron/text-parser.cc", "ron/text.cc", "db/replica.cc", "ron/opmeta.hpp", "db/map/txt.hpp"],
  mech=[("ReceiveFrame: Receive, ReceiveWrites, ReceiveQuery, ReceiveNewOps", "db/replica.cc"), ("the generated parser and its limits", "ron/text-parser.cc")],
  at=["ReceiveFrame", "the process", "content of the addressed branch and the others"],
  tech="frames torn, garbled and mangled by the simulated network (plain build and AddressSanitizer build), effects compared with the reference model fed by an independent reader of the format",
  note="Frames of a thousand ops and timestamps from the far future are left out (the first only take long; the second are the protocol's own problem)."),
 dict(id="C18", title="The hash of an op commits to its history and nothing else",
  statement="The Merkle hash a replica reports for any op is the one defined by the op's content, the hash of the previous op of its yarn and the hash of the op it references. It does not depend on how ops were grouped into frames and chains, on the text notation, on restarts, branches or replicas, and it changes when any part of the op or of its history does.",
  over=["histories", "inputs", "schedules"],
  q="all histories, all groupings of the ops into frames and notations, all branches and replicas holding the op",
  why="The tests hash two or three literal chains.",
  files=["ron/hash.hpp", "ron/hash.cc", "ron/opmeta.hpp", "db/replica.cc"],
  mech=[("SHA2::OpMerkleHash / hash_atom", "ron/hash.hpp"), ("OpMeta::Next", "ron/opmeta.hpp"), ("SaveChain, FindOpMeta", "db/replica.cc")],
  at=["FindOpMeta", "FindYarnTipMeta", "SHA2::OpMerkleHash"],
  tech="the hash of every op on every replica is recomputed by the model from its canonical notation; sensitivity to single-bit changes is checked on random ops",
  note="SHA-2 itself (Botan) is trusted."),
 dict(id="C19", title="Branches, forks, names and the active branch survive whatever happens",
  statement="A fork holds exactly what its origin held, plus its own root, and they are independent afterwards; an interrupted or failed creation, fork or drop is done entirely or not at all, and can be tried again at once. Names and the active branch chosen are remembered over restarts; a dropped branch does not stay active or return; creating over an existing branch is refused and harms nothing. A replica whose creation was interrupted can be opened or created again.",
  over=["crash_points", "fault_sequences", "histories"],
  q="all histories of creating, forking, merging, dropping and activating branches and naming versions, with crashes and disk errors at any disk operation",
  why="The tests fork once on a healthy store and never restart in between.",
  files=["db/replica.cc", "db/replica.hpp", "db/rocks_store.cc"],
  state=[("the active branch", "a record of the metadata store", "db/replica.cc"), ("names", "records of the branch", "db/replica.cc")],
  mech=[("CreateBranch / ForkBranch / DropBranch / SetActiveStore", "db/replica.cc"), ("CreateReplica / Open", "db/replica.cc"), ("Create / Drop", RS)],
  at=["ListStores", "HasBranch", "active_store", "ReadNames", "Open"],
  tech="crash and error injection around branch operations and replica creation; full-content comparison with the reference model after each",
  note="Drop keeps the data if it fails; either outcome is accepted after a failure, not a mixture."),
 dict(id="C20", title="Each swarmdb command does what it says, entirely or not at all, and reports it",
  statement="Every run of the command line tool is a process of its own: create, fork, drop, hop, name, new, write have their documented effect and exit with 0, or fail with an error exit code; a refused command (bad arguments, unknown branch or file, unreadable input, database locked by another process, `init` over a replica) changes nothing. A write is applied only if its input was read to the end, however it was chunked. If the tool dies or the disk fails mid-way, each branch, the active branch and the branch names are either as before or as after, and names and the active branch never refer to a branch that was not made. list, named, on, get, recall, dump show the stored state completely or exit with an error. New branches get ids of their own, even those made in the same second on several machines. A test script passes exactly if each of its frames is taken and every response is the expected one; it leaves nothing behind and does not touch the replica.",
  over=["inputs", "crash_points", "fault_sequences", "histories"],
  q="all sequences of swarmdb commands (valid and not), mixed with direct use of the replica, with crashes and disk errors at any disk operation of any command, short and failing reads of the input",
  why="There are no tests of the tool; a test would run a few commands on a healthy disk.",
  files=["db/main.cc", "db/replica.cc", "db/rocks_store.cc"],
  state=[("the replica on disk", ".swarmdb: branches, the active branch, names", "db/replica.cc"), ("the input", "a file or stdin", "db/main.cc LoadFrame")],
  mech=[("Command* / Scan*Arg / ResolveName / RunCommands / main", "db/main.cc")],
  at=["exit code, stdout", "ListStores / active_store / ReadNames and full branch contents after the command"],
  tech="db/main.cc linked in and run as short-lived processes over the simulated disk, clock, randomness and stdin; crash and error injection at any I/O of a command; its output, exit code and all the replica's contents are compared to the reference model",
  note="`repair` (see C07) and `help` are not covered. Creating and forking a branch, activating and naming it are separate steps, as the code has it: after an interruption each may be missing."),
 dict(id="C21", title="Unsaved changes read exactly as saved ones, and only by their own frame",
  statement="While a frame is being applied, its own changes lie over the stored state. Any read or scan of the two together, at any moment, gives what it would give had the changes been saved: every key of either side once, in order, merged by its data type's rules, whatever was flushed or compacted meanwhile; a query in a frame sees everything that precedes it in the frame and nothing that follows. Looking never alters what is there. Saving writes all the changes at once, discarding (an error, a crash) leaves none; a failed disk read is reported.",
  over=["inputs", "schedules", "histories", "crash_points", "fault_sequences"],
  q="all sequences of unsaved writes, reads, scans in both directions, queries, saves and discards over all stored states, with background work, read errors and crashes in between",
  why="The tests join two in-memory stores holding a record or two; the overlay is never scanned over a database and no frame both writes and asks.",
  files=["db/joined_store.hpp", "db/mem_store.hpp", "db/replica.cc", "db/rocks_store.cc"],
  state=[("the overlay", "writes of the commit in progress, several per key", "db/mem_store.hpp")],
  mech=[("JoinedStore::Read / Iterator", "db/joined_store.hpp"), ("InMemoryStore::Read / Iterator / Release", "db/mem_store.hpp"), ("Commit, ReceiveQuery, Save", "db/replica.cc")],
  at=["JoinedStore::Read", "JoinedStore::Iterator", "InMemoryStore", "the response to a frame"],
  tech="an overlay over the real database on a simulated disk, writes, reads, scans, saves and discards drawn by seed with background jobs, read errors and crashes between and inside them; and whole replicas given frames that mix writes and queries; reference reduction of stored plus unsaved writes",
  note="Pieces of an array read from the overlay alone, without their root, may be refused."),
]
NOT_APPLICABLE = {}
