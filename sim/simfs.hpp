// The simulated machine: disk, clock, randomness, background-job queue, and the
// interposed RocksDB entry points that put every database opened by the code
// under test onto it.
#ifndef RONSIM_SIMFS_HPP
#define RONSIM_SIMFS_HPP
#include <ctime>
#include "core.hpp"

namespace rocksdb {
class DB;
class ColumnFamilyHandle;
class Env;
}  // namespace rocksdb

namespace sim {

struct Inode {
    string data;
    size_t synced = 0;  // bytes that survive a power loss
};

/** classes of disk operations, for fault placement */
enum IoOp : unsigned {
    IO_APPEND = 1,
    IO_SYNC = 2,
    IO_READ = 4,
    IO_META = 8,    // create/rename/delete/link
    IO_OPEN = 16,   // opening for reading, listing
    IO_DIRSYNC = 32,
    IO_WRITES = IO_APPEND | IO_SYNC | IO_META | IO_DIRSYNC,
    IO_ANY = 63,
};
enum FaultKind : int {
    F_EIO = 0,      // the call fails, no effect
    F_TORN = 1,     // append: a prefix gets written, the call fails
    F_NOSPACE = 2,  // append fails: disk full
    F_CRASH = 3,    // the process dies before the op takes effect
    F_CRASH_TORN = 4,   // the process dies, an append is half done
    F_CRASH_AFTER = 5,  // the process dies right after the op took effect
    F_FLIP = 6,     // a read returns a flipped bit
};

struct Armed {
    unsigned mask;   // IoOp classes
    string suffix;   // "" or file type: log, sst, MANIFEST
    i64 countdown;   // fires at the n-th matching op (0 = next)
    int kind;
    i64 sub;         // sub-choice (torn length, bit...)
    i64 repeat;      // how many consecutive matching ops are hit
};

struct Disk {
    std::map<string, std::shared_ptr<Inode>> files;
    std::set<string> dirs;
    std::map<string, std::shared_ptr<Inode>> durable;  // names known to survive
    std::set<string> durable_dirs;
    std::set<string> locks;
    std::vector<Armed> armed;
    u64 gen = 0;        // bumped by a crash: older handles are dead
    bool down = false;  // crashed, not restarted yet
    u64 ops = 0;
    bool manifest_hit = false;

    /** the process dies; everything written stays (page cache survives) */
    void process_crash();
    /** power is cut: unsynced data is lost, torn or kept (by seed) */
    void power_loss(u64 seed, bool zero_tail);
    void restart();
};

struct Job {
    void (*fn)(void*);
    void* arg;
    void* tag;
    void (*unsched)(void*);
    int pri;
};

struct Knobs {  // swarm: RocksDB tuning per run; 0/-1 = leave as the code set it
    i64 write_buffer_size = 0;
    int l0_trigger = 0;
    i64 target_file_size = 0;
    int block_size = 0;
    int max_successive_merges = -1;
    int compaction_style = -1;
};

struct Node {
    int idx = 0;
    Disk disk;
    i64 clock_us = 0;    // this node's wall clock = global + clock_us
    u64 rand_state = 1;  // rand()
    string cwd;          // of the process; "" is where the replica lives
    Knobs knobs;
    std::vector<Job> jobs;
    // API-level faults on the DB object (armed by the plan)
    i64 api_fail_write = -1, api_fail_read = -1, api_fail_iter = -1;
    int api_error = 0;  // which status
    // flush/compact requests executed inside the next DB call on the CF used
    bool want_flush = false, want_compact = false;
    int open_dbs = 0;
    bool flush_ok = true;
    Node();
    ~Node();
    rocksdb::Env* env();
    void* env_ = nullptr;
};

extern Node* cur;       // the node whose process is running
extern i64 global_us;   // simulated time, microseconds since the epoch
extern bool fs_trace;

struct NodeScope {
    Node* prev;
    explicit NodeScope(Node& n) : prev{cur} { cur = &n; }
    ~NodeScope() { cur = prev; }
};

/** run up to n queued background jobs of a node (-1: until quiescent) */
int run_jobs(Node& n, int max = -1);
/** run the k-th queued job */
bool run_job(Node& n, size_t k);

void arm(Node& n, unsigned mask, int kind, i64 countdown, i64 sub = 0,
         i64 repeat = 1, const string& suffix = "");
void disarm(Node& n);
/** flip one stored bit in a random file with the suffix; false if none */
bool flip_stored_bit(Node& n, const string& suffix, u64 seed);

/** stdin-like descriptors served by the simulator to read(2) in the CLI code */
struct Stream {
    string data;
    size_t at = 0;
    std::vector<i64> chunks;  // sizes of successive reads; <0: -errno
    size_t next = 0;
    bool closed = false;
};
int open_stream(Stream* s);   // returns a fake fd
void close_streams();
extern std::map<string, Stream*> stream_files;  // path -> stream for open(2)
extern Stream* stdin_stream;                     // what fd 0 is
void enter_sim_thread();

constexpr i64 EPOCH_US = 1546300800LL * 1000000;  // 2019-01-01

}  // namespace sim
#endif
