#include "simfs.hpp"
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <rocksdb/advanced_options.h>
#include <rocksdb/db.h>
#include <rocksdb/env.h>
#include <rocksdb/file_system.h>
#include <rocksdb/options.h>
#include <rocksdb/system_clock.h>
#include <rocksdb/table.h>
#include <rocksdb/utilities/stackable_db.h>
#include <stdarg.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <unistd.h>
#include <algorithm>
#include <cassert>
#include <cstdlib>

namespace R = rocksdb;

namespace sim {

Ctx* cx = nullptr;
Node* cur = nullptr;
i64 global_us = EPOCH_US;
bool fs_trace = true;
std::map<string, Stream*> stream_files;
Stream* stdin_stream = nullptr;
static thread_local bool sim_thread = false;
static int job_depth = 0;

std::vector<World>& worlds() {
    static std::vector<World> w;
    return w;
}

//  D I S K

void Disk::process_crash() {
    ++gen;
    down = true;
    locks.clear();
    armed.clear();
}

static string ftype(const string& path);
void Disk::power_loss(u64 seed, bool zero_tail) {
    process_crash();
    Rng r{seed};
    files = durable;
    dirs = durable_dirs;
    for (auto& f : files) {
        Inode& n = *f.second;
        if (n.data.size() <= n.synced) continue;
        size_t tail = n.data.size() - n.synced;
        size_t keep;
        switch (r.below(4)) {
            case 0: keep = 0; break;
            case 1: keep = tail; break;
            default: keep = size_t(r.below(tail + 1)); break;
        }
        // RocksDB refuses a MANIFEST with a zeroed tail (it tolerates a cut one): its own limit,
        // reachable only with a failed MANIFEST sync right before the power loss
        if (zero_tail && r.chance(50) && ftype(f.first) != "MANIFEST") {
            std::fill(n.data.begin() + n.synced + keep, n.data.end(), '\0');
            if (cx) cx->probe("powerloss.zero_tail");
        } else {
            n.data.resize(n.synced + keep);
        }
        if (cx && keep < tail) cx->probe("powerloss.lost_bytes", tail - keep);
        n.synced = n.data.size();
    }
    durable = files;
}

void Disk::restart() {
    down = false;
    manifest_hit = false;
}

Node::Node() { }
Node::~Node() { delete static_cast<R::Env*>(env_); }

//  F A U L T S

static string norm(const string& p) {
    string s;
    for (char c : p) {
        if (c == '/' && !s.empty() && s.back() == '/') continue;
        s += c;
    }
    while (s.size() > 1 && s.back() == '/') s.pop_back();
    if (s.compare(0, 2, "./") == 0) s = s.substr(2);
    if (cur && !cur->cwd.empty() && s.compare(0, 1, "/") != 0) s = cur->cwd + "/" + s;
    return s;
}
static string dirname_of(const string& p) {
    auto i = p.rfind('/');
    return i == string::npos ? "." : p.substr(0, i);
}
static string ftype(const string& path) {
    auto i = path.rfind('/');
    string b = i == string::npos ? path : path.substr(i + 1);
    auto d = b.rfind('.');
    if (d != string::npos) return b.substr(d + 1);
    auto m = b.find('-');
    return m == string::npos ? b : b.substr(0, m);
}

static const char* kind_name(int k) {
    static const char* n[] = {"eio",   "torn_write",  "disk_full", "crash_before_io",
                              "crash_torn_io", "crash_after_io", "bit_flip_read",
                              "short_read"};
    return n[k];
}
static const char* opname(unsigned m) {
    switch (m) {
        case IO_APPEND: return "append";
        case IO_SYNC: return "sync";
        case IO_READ: return "read";
        case IO_META: return "meta";
        case IO_OPEN: return "open";
        case IO_DIRSYNC: return "dirsync";
    }
    return "?";
}

/** @return the fault to apply to this op, or nullptr */
static const Armed* consult(Disk& d, unsigned op, const string& path) {
    static Armed hit;
    ++d.ops;
    for (size_t i = 0; i < d.armed.size(); i++) {
        Armed& a = d.armed[i];
        if (!(a.mask & op)) continue;
        if (!a.suffix.empty() && ftype(path) != a.suffix) continue;
        if (a.countdown > 0) {
            --a.countdown;
            continue;
        }
        bool crash = a.kind == F_CRASH || a.kind == F_CRASH_TORN || a.kind == F_CRASH_AFTER;
        string t = ftype(path);
        bool wal_sync = op == IO_SYNC && t == "log";
        if (!crash && (t == "MANIFEST" || t == "CURRENT" || t == "dbtmp" || op == IO_DIRSYNC || wal_sync)) {
            // RocksDB 8.9 deletes the live MANIFEST after two failures in a row: one per process life.
            // A log that could not be synced and a MANIFEST rewritten after a failure do not go together either.
            if (d.manifest_hit) continue;
            d.manifest_hit = true;
            a.repeat = 1;
        }
        hit = a;
        if (--a.repeat <= 0) d.armed.erase(d.armed.begin() + i);
        if (cx) cx->fault(string("io.") + kind_name(hit.kind) + "." + opname(op));
        return &hit;
    }
    return nullptr;
}

void arm(Node& n, unsigned mask, int kind, i64 countdown, i64 sub, i64 repeat,
         const string& suffix) {
    n.disk.armed.push_back(Armed{mask, suffix, countdown, kind, sub, repeat});
}
void disarm(Node& n) {
    n.disk.armed.clear();
    n.api_fail_write = n.api_fail_read = n.api_fail_iter = -1;
}

bool flip_stored_bit(Node& n, const string& suffix, u64 seed) {
    std::vector<Inode*> c;
    for (auto& f : n.disk.files)
        if (ftype(f.first) == suffix && !f.second->data.empty()) c.push_back(f.second.get());
    if (c.empty()) return false;
    Rng r{seed};
    Inode* i = c[r.below(c.size())];
    size_t at = r.below(i->data.size());
    i->data[at] = char(i->data[at] ^ (1 << r.below(8)));
    return true;
}

static R::IOStatus eio() { return R::IOStatus::IOError("simulated EIO"); }
// NoSpace would start the recovery thread of RocksDB; PosixFS reports ENOSPC as NoSpace, the
// store only sees "not ok" either way (API-level faults deliver that code too)
static R::IOStatus nospace() { return R::IOStatus::IOError("No space left on device (simulated)"); }
static R::IOStatus dead() { return R::IOStatus::IOError("simulated: process is dead"); }

#define GUARD()                                    \
    if (n_->disk.down || gen_ != n_->disk.gen) {   \
        return dead();                             \
    }

static void tr(const char* k, const string& p, size_t sz) {
    if (cx && fs_trace) cx->ev(string(k) + ' ' + p + ' ' + std::to_string(sz));
}

//  F I L E S

class SeqFile : public R::FSSequentialFile {
    Node* n_;
    u64 gen_;
    std::shared_ptr<Inode> i_;
    string p_;
    size_t at_ = 0;

   public:
    SeqFile(Node* n, std::shared_ptr<Inode> i, string p)
        : n_{n}, gen_{n->disk.gen}, i_{std::move(i)}, p_{std::move(p)} {}
    R::IOStatus Read(size_t n, const R::IOOptions&, R::Slice* result, char* scratch,
                     R::IODebugContext*) override {
        GUARD();
        size_t avail = at_ < i_->data.size() ? i_->data.size() - at_ : 0;
        size_t k = std::min(n, avail);
        const Armed* f = consult(n_->disk, IO_READ, p_);
        if (f && f->kind == F_EIO) return eio();
        if (f && f->kind == F_CRASH) {
            n_->disk.process_crash();
            return dead();
        }
        memcpy(scratch, i_->data.data() + at_, k);
        if (f && f->kind == F_FLIP && k) {
            size_t b = u64(f->sub) % (k * 8);
            scratch[b / 8] = char(scratch[b / 8] ^ (1 << (b % 8)));
        }
        at_ += k;
        *result = R::Slice(scratch, k);
        return R::IOStatus::OK();
    }
    R::IOStatus Skip(uint64_t n) override {
        GUARD();
        at_ = std::min<size_t>(at_ + n, i_->data.size());
        return R::IOStatus::OK();
    }
};

class RaFile : public R::FSRandomAccessFile {
    Node* n_;
    u64 gen_;
    std::shared_ptr<Inode> i_;
    string p_;

   public:
    RaFile(Node* n, std::shared_ptr<Inode> i, string p)
        : n_{n}, gen_{n->disk.gen}, i_{std::move(i)}, p_{std::move(p)} {}
    R::IOStatus Read(uint64_t off, size_t n, const R::IOOptions&, R::Slice* result,
                     char* scratch, R::IODebugContext*) const override {
        GUARD();
        size_t avail = off < i_->data.size() ? i_->data.size() - off : 0;
        size_t k = std::min(n, avail);
        const Armed* f = consult(n_->disk, IO_READ, p_);
        if (f && f->kind == F_EIO) return eio();
        if (f && f->kind == F_CRASH) {
            n_->disk.process_crash();
            return dead();
        }
        memcpy(scratch, i_->data.data() + off, k);
        if (f && f->kind == F_FLIP && k) {
            size_t b = u64(f->sub) % (k * 8);
            scratch[b / 8] = char(scratch[b / 8] ^ (1 << (b % 8)));
        }
        *result = R::Slice(scratch, k);
        return R::IOStatus::OK();
    }
    size_t GetUniqueId(char*, size_t) const override { return 0; }
};

class WrFile : public R::FSWritableFile {
    Node* n_;
    u64 gen_;
    std::shared_ptr<Inode> i_;
    string p_;

   public:
    WrFile(Node* n, std::shared_ptr<Inode> i, string p)
        : n_{n}, gen_{n->disk.gen}, i_{std::move(i)}, p_{std::move(p)} {}
    using R::FSWritableFile::Append;
    R::IOStatus Append(const R::Slice& d, const R::IOOptions&, R::IODebugContext*) override {
        GUARD();
        const Armed* f = consult(n_->disk, IO_APPEND, p_);
        if (f) {
            size_t part = d.size() ? u64(f->sub) % d.size() : 0;
            switch (f->kind) {
                case F_TORN:
                    i_->data.append(d.data(), part);
                    return eio();
                case F_NOSPACE:
                    i_->data.append(d.data(), part);
                    return nospace();
                case F_CRASH_TORN:
                    i_->data.append(d.data(), part);
                    n_->disk.process_crash();
                    return dead();
                case F_CRASH_AFTER:
                    i_->data.append(d.data(), d.size());
                    n_->disk.process_crash();
                    return dead();
                case F_CRASH:
                    n_->disk.process_crash();
                    return dead();
                default:
                    return eio();
            }
        }
        i_->data.append(d.data(), d.size());
        tr("A", p_, d.size());
        return R::IOStatus::OK();
    }
    R::IOStatus Truncate(uint64_t size, const R::IOOptions&, R::IODebugContext*) override {
        GUARD();
        if (i_->data.size() > size) i_->data.resize(size);
        if (i_->synced > size) i_->synced = size;
        return R::IOStatus::OK();
    }
    R::IOStatus Close(const R::IOOptions&, R::IODebugContext*) override {
        GUARD();
        return R::IOStatus::OK();
    }
    R::IOStatus Flush(const R::IOOptions&, R::IODebugContext*) override {
        GUARD();
        return R::IOStatus::OK();
    }
    R::IOStatus Sync(const R::IOOptions&, R::IODebugContext*) override {
        GUARD();
        const Armed* f = consult(n_->disk, IO_SYNC, p_);
        if (f) {
            if (f->kind >= F_CRASH && f->kind <= F_CRASH_AFTER) {
                if (f->kind == F_CRASH_AFTER) i_->synced = i_->data.size();
                n_->disk.process_crash();
                return dead();
            }
            return eio();
        }
        i_->synced = i_->data.size();
        tr("S", p_, i_->synced);
        return R::IOStatus::OK();
    }
    R::IOStatus Fsync(const R::IOOptions& o, R::IODebugContext* c) override { return Sync(o, c); }
    bool IsSyncThreadSafe() const override { return true; }
    uint64_t GetFileSize(const R::IOOptions&, R::IODebugContext*) override {
        return i_->data.size();
    }
};

class SimDir : public R::FSDirectory {
    Node* n_;
    u64 gen_;
    string p_;

   public:
    SimDir(Node* n, string p) : n_{n}, gen_{n->disk.gen}, p_{std::move(p)} {}
    R::IOStatus Fsync(const R::IOOptions&, R::IODebugContext*) override {
        GUARD();
        const Armed* f = consult(n_->disk, IO_DIRSYNC, p_);
        if (f) {
            if (f->kind >= F_CRASH && f->kind <= F_CRASH_AFTER) {
                n_->disk.process_crash();
                return dead();
            }
            return eio();
        }
        Disk& d = n_->disk;
        for (auto i = d.durable.begin(); i != d.durable.end();) {
            if (dirname_of(i->first) == p_ && !d.files.count(i->first))
                i = d.durable.erase(i);
            else
                ++i;
        }
        for (auto& f2 : d.files)
            if (dirname_of(f2.first) == p_) d.durable[f2.first] = f2.second;
        d.durable_dirs = d.dirs;
        tr("D", p_, 0);
        return R::IOStatus::OK();
    }
    R::IOStatus Close(const R::IOOptions&, R::IODebugContext*) override {
        return R::IOStatus::OK();
    }
};

class SimLock : public R::FileLock {
   public:
    string p;
    u64 gen;
};

class NullLogger : public R::Logger {
   public:
    using R::Logger::Logv;
    void Logv(const char*, va_list) override {}
};

//  F I L E S Y S T E M

class SimFS : public R::FileSystem {
    Node* n_;

#define UP()                   \
    if (n_->disk.down) {       \
        return dead();         \
    }
#define META(op, path)                                                        \
    {                                                                         \
        const Armed* f_ = consult(n_->disk, op, path);                        \
        if (f_) {                                                             \
            if (f_->kind >= F_CRASH && f_->kind <= F_CRASH_AFTER) {           \
                n_->disk.process_crash();                                     \
                return dead();                                                \
            }                                                                 \
            if (f_->kind == F_NOSPACE) return nospace();                      \
            return eio();                                                     \
        }                                                                     \
    }

   public:
    explicit SimFS(Node* n) : n_{n} {}
    static const char* kClassName() { return "SimFS"; }
    const char* Name() const override { return kClassName(); }

    R::IOStatus NewSequentialFile(const string& f, const R::FileOptions&,
                                  std::unique_ptr<R::FSSequentialFile>* r,
                                  R::IODebugContext*) override {
        UP();
        string p = norm(f);
        META(IO_OPEN, p);
        auto i = n_->disk.files.find(p);
        if (i == n_->disk.files.end()) return R::IOStatus::PathNotFound(p);
        r->reset(new SeqFile(n_, i->second, p));
        return R::IOStatus::OK();
    }
    R::IOStatus NewRandomAccessFile(const string& f, const R::FileOptions&,
                                    std::unique_ptr<R::FSRandomAccessFile>* r,
                                    R::IODebugContext*) override {
        UP();
        string p = norm(f);
        META(IO_OPEN, p);
        auto i = n_->disk.files.find(p);
        if (i == n_->disk.files.end()) return R::IOStatus::PathNotFound(p);
        r->reset(new RaFile(n_, i->second, p));
        return R::IOStatus::OK();
    }
    R::IOStatus NewWritableFile(const string& f, const R::FileOptions&,
                                std::unique_ptr<R::FSWritableFile>* r,
                                R::IODebugContext*) override {
        UP();
        string p = norm(f);
        META(IO_META, p);
        auto i = std::make_shared<Inode>();
        n_->disk.files[p] = i;
        tr("N", p, 0);
        r->reset(new WrFile(n_, i, p));
        return R::IOStatus::OK();
    }
    R::IOStatus ReopenWritableFile(const string& f, const R::FileOptions&,
                                   std::unique_ptr<R::FSWritableFile>* r,
                                   R::IODebugContext*) override {
        UP();
        string p = norm(f);
        META(IO_META, p);
        auto& i = n_->disk.files[p];
        if (!i) i = std::make_shared<Inode>();
        r->reset(new WrFile(n_, i, p));
        return R::IOStatus::OK();
    }
    R::IOStatus ReuseWritableFile(const string& f, const string& old,
                                  const R::FileOptions& o,
                                  std::unique_ptr<R::FSWritableFile>* r,
                                  R::IODebugContext* c) override {
        R::IOStatus s = RenameFile(old, f, R::IOOptions(), c);
        if (!s.ok()) return s;
        return NewWritableFile(f, o, r, c);
    }
    R::IOStatus NewDirectory(const string& f, const R::IOOptions&,
                             std::unique_ptr<R::FSDirectory>* r,
                             R::IODebugContext*) override {
        UP();
        string p = norm(f);
        if (!n_->disk.dirs.count(p)) return R::IOStatus::PathNotFound(p);
        r->reset(new SimDir(n_, p));
        return R::IOStatus::OK();
    }
    R::IOStatus FileExists(const string& f, const R::IOOptions&, R::IODebugContext*) override {
        UP();
        string p = norm(f);
        if (n_->disk.files.count(p) || n_->disk.dirs.count(p)) return R::IOStatus::OK();
        return R::IOStatus::NotFound(p);
    }
    R::IOStatus GetChildren(const string& d, const R::IOOptions&, std::vector<string>* r,
                            R::IODebugContext*) override {
        string p = norm(d);
        r->clear();
        // RocksDB's debug build asserts that the WAL archive can be listed
        bool archive = p.size() > 8 && p.substr(p.size() - 8) == "/archive";
        if (archive && n_->disk.down) return R::IOStatus::OK();
        UP();
        if (!archive) META(IO_OPEN, p);
        if (!n_->disk.dirs.count(p)) return R::IOStatus::NotFound(p);
        for (auto& f : n_->disk.files)
            if (dirname_of(f.first) == p) r->push_back(f.first.substr(p.size() + 1));
        for (auto& f : n_->disk.dirs)
            if (f != p && dirname_of(f) == p) r->push_back(f.substr(p.size() + 1));
        return R::IOStatus::OK();
    }
    R::IOStatus DeleteFile(const string& f, const R::IOOptions&, R::IODebugContext*) override {
        UP();
        string p = norm(f);
        META(IO_META, p);
        if (!n_->disk.files.erase(p)) return R::IOStatus::PathNotFound(p);
        tr("X", p, 0);
        return R::IOStatus::OK();
    }
    R::IOStatus Truncate(const string& f, size_t sz, const R::IOOptions&,
                         R::IODebugContext*) override {
        UP();
        string p = norm(f);
        META(IO_META, p);
        auto i = n_->disk.files.find(p);
        if (i == n_->disk.files.end()) return R::IOStatus::PathNotFound(p);
        i->second->data.resize(sz);
        if (i->second->synced > sz) i->second->synced = sz;
        return R::IOStatus::OK();
    }
    R::IOStatus CreateDir(const string& d, const R::IOOptions&, R::IODebugContext*) override {
        UP();
        META(IO_META, norm(d));
        if (!n_->disk.dirs.insert(norm(d)).second) return R::IOStatus::IOError("exists");
        n_->disk.durable_dirs = n_->disk.dirs;
        return R::IOStatus::OK();
    }
    R::IOStatus CreateDirIfMissing(const string& d, const R::IOOptions&,
                                   R::IODebugContext*) override {
        UP();
        n_->disk.dirs.insert(norm(d));
        n_->disk.durable_dirs = n_->disk.dirs;
        return R::IOStatus::OK();
    }
    R::IOStatus DeleteDir(const string& d, const R::IOOptions&, R::IODebugContext*) override {
        UP();
        n_->disk.dirs.erase(norm(d));
        return R::IOStatus::OK();
    }
    R::IOStatus GetFileSize(const string& f, const R::IOOptions&, uint64_t* sz,
                            R::IODebugContext*) override {
        UP();
        auto i = n_->disk.files.find(norm(f));
        if (i == n_->disk.files.end()) return R::IOStatus::PathNotFound(f);
        *sz = i->second->data.size();
        return R::IOStatus::OK();
    }
    R::IOStatus GetFileModificationTime(const string& f, const R::IOOptions&, uint64_t* t,
                                        R::IODebugContext*) override {
        UP();
        if (!n_->disk.files.count(norm(f))) return R::IOStatus::PathNotFound(f);
        *t = u64(global_us / 1000000);
        return R::IOStatus::OK();
    }
    R::IOStatus RenameFile(const string& a, const string& b, const R::IOOptions&,
                           R::IODebugContext*) override {
        UP();
        string p = norm(a), q = norm(b);
        META(IO_META, q);
        auto i = n_->disk.files.find(p);
        if (i != n_->disk.files.end()) {
            auto node = i->second;
            n_->disk.files.erase(i);
            n_->disk.files[q] = node;
            tr("R", q, 0);
            return R::IOStatus::OK();
        }
        if (!n_->disk.dirs.count(p)) return R::IOStatus::PathNotFound(p);
        return R::IOStatus::NotSupported("dir rename");
    }
    R::IOStatus LinkFile(const string& a, const string& b, const R::IOOptions&,
                         R::IODebugContext*) override {
        UP();
        string p = norm(a), q = norm(b);
        META(IO_META, q);
        auto i = n_->disk.files.find(p);
        if (i == n_->disk.files.end()) return R::IOStatus::PathNotFound(p);
        n_->disk.files[q] = i->second;
        return R::IOStatus::OK();
    }
    R::IOStatus LockFile(const string& f, const R::IOOptions&, R::FileLock** l,
                         R::IODebugContext*) override {
        UP();
        string p = norm(f);
        if (!n_->disk.locks.insert(p).second) {
            *l = nullptr;
            return R::IOStatus::IOError("lock hold by current process " + p);
        }
        n_->disk.files.emplace(p, std::make_shared<Inode>());
        auto* s = new SimLock;
        s->p = p;
        s->gen = n_->disk.gen;
        *l = s;
        return R::IOStatus::OK();
    }
    R::IOStatus UnlockFile(R::FileLock* l, const R::IOOptions&, R::IODebugContext*) override {
        auto* s = static_cast<SimLock*>(l);
        if (s->gen == n_->disk.gen) n_->disk.locks.erase(s->p);
        delete s;
        return R::IOStatus::OK();
    }
    R::IOStatus GetTestDirectory(const R::IOOptions&, string* r, R::IODebugContext*) override {
        *r = "/simtest";
        return R::IOStatus::OK();
    }
    R::IOStatus NewLogger(const string&, const R::IOOptions&, std::shared_ptr<R::Logger>* r,
                          R::IODebugContext*) override {
        *r = std::make_shared<NullLogger>();
        return R::IOStatus::OK();
    }
    R::IOStatus GetAbsolutePath(const string& p, const R::IOOptions&, string* r,
                                R::IODebugContext*) override {
        *r = p;
        return R::IOStatus::OK();
    }
    R::IOStatus IsDirectory(const string& p, const R::IOOptions&, bool* r,
                            R::IODebugContext*) override {
        *r = n_->disk.dirs.count(norm(p));
        return R::IOStatus::OK();
    }
    R::IOStatus GetFreeSpace(const string&, const R::IOOptions&, uint64_t* b,
                             R::IODebugContext*) override {
        *b = 1ULL << 40;
        return R::IOStatus::OK();
    }
};

//  C L O C K ,  E N V

class SimClock : public R::SystemClock {
   public:
    static const char* kClassName() { return "SimClock"; }
    const char* Name() const override { return kClassName(); }
    uint64_t NowMicros() override { return u64(global_us); }
    uint64_t NowNanos() override { return u64(global_us) * 1000; }
    uint64_t CPUMicros() override { return 0; }
    uint64_t CPUNanos() override { return 0; }
    void SleepForMicroseconds(int us) override {
        if (sim_thread) global_us += us > 0 ? us : 1;
        else usleep(100);
    }
    R::Status GetCurrentTime(int64_t* t) override {
        *t = global_us / 1000000;
        return R::Status::OK();
    }
    string TimeToString(uint64_t t) override { return std::to_string(t); }
};

class SimEnv : public R::EnvWrapper {
    Node* n_;

   public:
    SimEnv(Node* n, std::shared_ptr<R::FileSystem> fs, std::shared_ptr<R::Env> base)
        : R::EnvWrapper(base), n_{n} {
        file_system_ = fs;
        system_clock_ = std::make_shared<SimClock>();
    }
    const char* Name() const override { return "SimEnv"; }
    void Schedule(void (*f)(void*), void* a, Priority pri, void* tag,
                  void (*u)(void*)) override {
        n_->jobs.push_back(Job{f, a, tag, u, int(pri)});
        if (cx && fs_trace) cx->ev("SCHED " + std::to_string(int(pri)));
    }
    int UnSchedule(void* tag, Priority pri) override {
        int c = 0;
        for (size_t i = 0; i < n_->jobs.size();) {
            Job j = n_->jobs[i];
            if (j.tag == tag && j.pri == int(pri)) {
                n_->jobs.erase(n_->jobs.begin() + long(i));
                if (j.unsched) j.unsched(j.arg);
                ++c;
            } else {
                ++i;
            }
        }
        return c;
    }
    unsigned int GetThreadPoolQueueLen(Priority pri) const override {
        unsigned c = 0;
        for (auto& j : n_->jobs) c += j.pri == int(pri);
        return c;
    }
    void SetBackgroundThreads(int, Priority) override {}
    int GetBackgroundThreads(Priority) override { return 1; }
    void IncBackgroundThreadsIfNeeded(int, Priority) override {}
    void LowerThreadPoolIOPriority(Priority) override {}
    void LowerThreadPoolCPUPriority(Priority) override {}
    int ReserveThreads(int, Priority) override { return 0; }
    int ReleaseThreads(int, Priority) override { return 0; }
    uint64_t NowMicros() override { return u64(global_us); }
    uint64_t NowNanos() override { return u64(global_us) * 1000; }
    uint64_t NowCPUNanos() override { return 0; }
    void SleepForMicroseconds(int us) override { system_clock_->SleepForMicroseconds(us); }
    R::Status GetCurrentTime(int64_t* t) override {
        *t = global_us / 1000000;
        return R::Status::OK();
    }
    R::Status GetHostName(char* name, uint64_t len) override {
        strncpy(name, "simhost", len);
        return R::Status::OK();
    }
};

R::Env* Node::env() {
    if (!env_) {
        auto fs = std::make_shared<SimFS>(this);
        std::shared_ptr<R::Env> base = R::NewCompositeEnv(fs);
        env_ = new SimEnv(this, fs, base);
    }
    return static_cast<R::Env*>(env_);
}

bool run_job(Node& n, size_t k) {
    if (k >= n.jobs.size()) return false;
    Job j = n.jobs[k];
    n.jobs.erase(n.jobs.begin() + long(k));
    if (cx) {
        cx->probe("bg.jobs");
        if (fs_trace) cx->ev("JOB " + std::to_string(j.pri));
    }
    NodeScope s{n};
    ++job_depth;
    j.fn(j.arg);
    --job_depth;
    return true;
}

int run_jobs(Node& n, int max) {
    int c = 0;
    while (!n.jobs.empty() && (max < 0 || c < max)) {
        run_job(n, 0);
        ++c;
        if (c > 10000) fail("sim.livelock", "background jobs never quiesce");
    }
    return c;
}

//  T H E   D A T A B A S E   W R A P P E R

static R::Status api_error(int kind) {
    switch (kind) {
        case 1: return R::Status::NoSpace("simulated (api)");
        case 2: return R::Status::Corruption("simulated (api)");
        case 3: return R::Status::Incomplete("simulated (api)");
        case 4: return R::Status::TimedOut("simulated (api)");
        case 5: return R::Status::Busy("simulated (api)");
        case 6: return R::Status::Aborted("simulated (api)");
        case 7: return R::Status::TryAgain("simulated (api)");
        case 8: return R::Status::ShutdownInProgress("simulated (api)");
        default: return R::Status::IOError("simulated EIO (api)");
    }
}

static bool api_fault(i64& c, const char* name) {
    if (c < 0) return false;
    if (c-- > 0) return false;
    c = -1;
    if (cx) cx->fault(name);
    return true;
}

static void tune_cf(const Knobs& k, R::ColumnFamilyOptions& o) {
    if (k.write_buffer_size) o.write_buffer_size = size_t(k.write_buffer_size);
    if (k.l0_trigger) {
        o.level0_file_num_compaction_trigger = k.l0_trigger;
        o.level0_slowdown_writes_trigger = 1000;
        o.level0_stop_writes_trigger = 2000;
    }
    if (k.target_file_size) {
        o.target_file_size_base = u64(k.target_file_size);
        o.max_bytes_for_level_base = u64(k.target_file_size) * 4;
    }
    if (k.max_successive_merges >= 0) o.max_successive_merges = size_t(k.max_successive_merges);
    if (k.compaction_style == 1) o.compaction_style = R::kCompactionStyleUniversal;
    if (k.block_size) {
        R::BlockBasedTableOptions t;
        t.block_size = size_t(k.block_size);
        t.no_block_cache = k.block_size < 256;
        o.table_factory.reset(R::NewBlockBasedTableFactory(t));
    }
}

static void tune_db(Node& n, R::DBOptions& o) {
    o.env = n.env();
    o.info_log = std::make_shared<NullLogger>();
    o.stats_dump_period_sec = 0;
    o.stats_persist_period_sec = 0;
    o.max_file_opening_threads = 1;
    o.max_bgerror_resume_count = 0;
}

/** Iterator pass-through that can fail on request. */
class SimIter : public R::Iterator {
    std::unique_ptr<R::Iterator> i_;
    Node* n_;
    R::Status st_;
    void check() {
        if (api_fault(n_->api_fail_iter, "api.eio.iterator")) st_ = api_error(n_->api_error);
    }

   public:
    SimIter(R::Iterator* i, Node* n) : i_{i}, n_{n} {}
    bool Valid() const override { return st_.ok() && i_->Valid(); }
    void SeekToFirst() override { st_ = R::Status::OK(); i_->SeekToFirst(); check(); }
    void SeekToLast() override { st_ = R::Status::OK(); i_->SeekToLast(); check(); }
    void Seek(const R::Slice& k) override { st_ = R::Status::OK(); i_->Seek(k); check(); }
    void SeekForPrev(const R::Slice& k) override { st_ = R::Status::OK(); i_->SeekForPrev(k); check(); }
    void Next() override { if (st_.ok()) { i_->Next(); check(); } }
    void Prev() override { if (st_.ok()) { i_->Prev(); check(); } }
    R::Slice key() const override { return i_->key(); }
    R::Slice value() const override { return i_->value(); }
    R::Status status() const override { return st_.ok() ? i_->status() : st_; }
    R::Status Refresh() override { return i_->Refresh(); }
    R::Status GetProperty(string p, string* v) override { return i_->GetProperty(p, v); }
};

class SimDB : public R::StackableDB {
    Node* n_;

    void before(R::ColumnFamilyHandle* cf) {
        if (n_->want_flush) {
            n_->want_flush = false;
            R::FlushOptions fo;
            fo.wait = false;
            fo.allow_write_stall = true;
            R::Status s = db_->Flush(fo, cf);
            n_->flush_ok = s.ok();
            if (cx) cx->probe(s.ok() ? "store.flush" : "store.flush_failed");
        }
        if (n_->want_compact) {
            n_->want_compact = false;
            R::CompactRangeOptions co;
            co.bottommost_level_compaction = R::BottommostLevelCompaction::kForce;
            R::Status s = db_->CompactRange(co, cf, nullptr, nullptr);
            if (cx) cx->probe(s.ok() ? "store.compact" : "store.compact_failed");
        }
    }

   public:
    SimDB(R::DB* db, Node* n) : R::StackableDB(db), n_{n} { ++n_->open_dbs; }
    ~SimDB() override { --n_->open_dbs; }

    using R::StackableDB::CreateColumnFamily;
    R::Status CreateColumnFamily(const R::ColumnFamilyOptions& o, const string& name,
                                 R::ColumnFamilyHandle** h) override {
        R::ColumnFamilyOptions t{o};
        tune_cf(n_->knobs, t);
        return db_->CreateColumnFamily(t, name, h);
    }
    using R::StackableDB::Merge;
    R::Status Merge(const R::WriteOptions& o, R::ColumnFamilyHandle* cf, const R::Slice& k,
                    const R::Slice& v) override {
        if (api_fault(n_->api_fail_write, "api.eio.write")) return api_error(n_->api_error);
        before(cf);
        return db_->Merge(o, cf, k, v);
    }
    using R::StackableDB::Put;
    R::Status Put(const R::WriteOptions& o, R::ColumnFamilyHandle* cf, const R::Slice& k,
                  const R::Slice& v) override {
        if (api_fault(n_->api_fail_write, "api.eio.write")) return api_error(n_->api_error);
        before(cf);
        return db_->Put(o, cf, k, v);
    }
    R::Status Write(const R::WriteOptions& o, R::WriteBatch* b) override {
        if (api_fault(n_->api_fail_write, "api.eio.write")) return api_error(n_->api_error);
        return db_->Write(o, b);
    }
    using R::StackableDB::Get;
    R::Status Get(const R::ReadOptions& o, R::ColumnFamilyHandle* cf, const R::Slice& k,
                  R::PinnableSlice* v) override {
        if (api_fault(n_->api_fail_read, "api.eio.read")) return api_error(n_->api_error);
        before(cf);
        return db_->Get(o, cf, k, v);
    }
    using R::StackableDB::NewIterator;
    R::Iterator* NewIterator(const R::ReadOptions& o, R::ColumnFamilyHandle* cf) override {
        return new SimIter(db_->NewIterator(o, cf), n_);
    }
};

}  // namespace sim

//  I N T E R P O S E D   R O C K S D B   E N T R Y   P O I N T S
//  (ld --wrap; see build.py)

using sim::cur;

static sim::Node& node() {
    if (!cur) {
        fprintf(stderr, "SIM: RocksDB used outside of a node\n");
        abort();
    }
    return *cur;
}

#define SYM_OPEN_OPTS                                                          \
    "_ZN7rocksdb2DB4OpenERKNS_7OptionsERKNSt7__cxx1112basic_stringIcSt11char_" \
    "traitsIcESaIcEEEPPS0_"
#define SYM_OPEN_CFS                                                                \
    "_ZN7rocksdb2DB4OpenERKNS_9DBOptionsERKNSt7__cxx1112basic_stringIcSt11char_"    \
    "traitsIcESaIcEEERKSt6vectorINS_22ColumnFamilyDescriptorESaISD_EEPSC_"          \
    "IPNS_18ColumnFamilyHandleESaISJ_EEPPS0_"
#define SYM_LIST_CFS                                                                    \
    "_ZN7rocksdb2DB18ListColumnFamiliesERKNS_9DBOptionsERKNSt7__cxx1112basic_stringIc"  \
    "St11char_traitsIcESaIcEEEPSt6vectorIS9_SaIS9_EE"
#define SYM_REPAIR_CFS                                                                  \
    "_ZN7rocksdb8RepairDBERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEERKNS_9" \
    "DBOptionsERKSt6vectorINS_22ColumnFamilyDescriptorESaISC_EE"
#define SYM_REPAIR_CFS_UNKNOWN SYM_REPAIR_CFS "RKNS_19ColumnFamilyOptionsE"
#define SYM_REPAIR_OPTS                                                                 \
    "_ZN7rocksdb8RepairDBERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEERKNS_7" \
    "OptionsE"

using CFDs = std::vector<R::ColumnFamilyDescriptor>;
using CFHs = std::vector<R::ColumnFamilyHandle*>;
using std::string;
using sim::i64;

R::Status real_open_opts(const R::Options&, const string&, R::DB**) asm("__real_" SYM_OPEN_OPTS);
R::Status real_open_cfs(const R::DBOptions&, const string&, const CFDs&, CFHs*,
                        R::DB**) asm("__real_" SYM_OPEN_CFS);
R::Status real_list_cfs(const R::DBOptions&, const string&,
                        std::vector<string>*) asm("__real_" SYM_LIST_CFS);
R::Status real_repair_cfs(const string&, const R::DBOptions&,
                          const CFDs&) asm("__real_" SYM_REPAIR_CFS);
R::Status real_repair_cfs_u(const string&, const R::DBOptions&, const CFDs&,
                            const R::ColumnFamilyOptions&) asm("__real_" SYM_REPAIR_CFS_UNKNOWN);
R::Status real_repair_opts(const string&, const R::Options&) asm("__real_" SYM_REPAIR_OPTS);

R::Status wrap_open_opts(const R::Options&, const string&, R::DB**) asm("__wrap_" SYM_OPEN_OPTS);
R::Status wrap_open_cfs(const R::DBOptions&, const string&, const CFDs&, CFHs*,
                        R::DB**) asm("__wrap_" SYM_OPEN_CFS);
R::Status wrap_list_cfs(const R::DBOptions&, const string&,
                        std::vector<string>*) asm("__wrap_" SYM_LIST_CFS);
R::Status wrap_repair_cfs(const string&, const R::DBOptions&,
                          const CFDs&) asm("__wrap_" SYM_REPAIR_CFS);
R::Status wrap_repair_cfs_u(const string&, const R::DBOptions&, const CFDs&,
                            const R::ColumnFamilyOptions&) asm("__wrap_" SYM_REPAIR_CFS_UNKNOWN);
R::Status wrap_repair_opts(const string&, const R::Options&) asm("__wrap_" SYM_REPAIR_OPTS);

static CFDs tuned(sim::Node& n, const CFDs& cfs) {
    CFDs c{cfs};
    for (auto& d : c) sim::tune_cf(n.knobs, d.options);
    return c;
}

R::Status wrap_open_opts(const R::Options& o, const string& name, R::DB** db) {
    sim::Node& n = node();
    R::Options t{o};
    sim::tune_db(n, t);
    sim::tune_cf(n.knobs, t);
    R::DB* inner = nullptr;
    R::Status s = real_open_opts(t, name, &inner);
    if (s.ok()) *db = new sim::SimDB(inner, &n);
    return s;
}
R::Status wrap_open_cfs(const R::DBOptions& o, const string& name, const CFDs& cfs, CFHs* hs,
                        R::DB** db) {
    sim::Node& n = node();
    R::DBOptions t{o};
    sim::tune_db(n, t);
    R::DB* inner = nullptr;
    R::Status s = real_open_cfs(t, name, tuned(n, cfs), hs, &inner);
    if (s.ok()) *db = new sim::SimDB(inner, &n);
    return s;
}
R::Status wrap_list_cfs(const R::DBOptions& o, const string& name, std::vector<string>* out) {
    R::DBOptions t{o};
    sim::tune_db(node(), t);
    return real_list_cfs(t, name, out);
}
R::Status wrap_repair_cfs(const string& name, const R::DBOptions& o, const CFDs& c) {
    R::DBOptions t{o};
    sim::tune_db(node(), t);
    return real_repair_cfs(name, t, tuned(node(), c));
}
R::Status wrap_repair_cfs_u(const string& name, const R::DBOptions& o, const CFDs& c,
                            const R::ColumnFamilyOptions& u) {
    R::DBOptions t{o};
    sim::tune_db(node(), t);
    return real_repair_cfs_u(name, t, tuned(node(), c), u);
}
R::Status wrap_repair_opts(const string& name, const R::Options& o) {
    R::Options t{o};
    sim::tune_db(node(), t);
    return real_repair_opts(name, t);
}

//  C L O C K ,  R A N D O M ,  D E S C R I P T O R S

static i64 node_now() {
    // the clock ticks: reading it takes time
    if (cur) ++sim::global_us;
    return sim::global_us + (cur ? cur->clock_us : 0);
}

extern "C" {
time_t __wrap_time(time_t* t) {
    time_t r = time_t(node_now() / 1000000);
    if (t) *t = r;
    return r;
}
int __wrap_gettimeofday(struct timeval* tv, void*) {
    i64 n = node_now();
    tv->tv_sec = n / 1000000;
    tv->tv_usec = n % 1000000;
    return 0;
}
int __wrap_clock_gettime(clockid_t, struct timespec* ts) {
    i64 n = node_now();
    ts->tv_sec = n / 1000000;
    ts->tv_nsec = (n % 1000000) * 1000;
    return 0;
}
void __wrap_srand(unsigned s) {
    if (cur) cur->rand_state = s;
}
int __wrap_rand() {
    if (!cur) return 4;
    cur->rand_state = sim::mix64(cur->rand_state);
    return int(cur->rand_state & 0x7fffffff);
}
long __wrap_random() { return __wrap_rand(); }
void __wrap_srandom(unsigned s) { __wrap_srand(s); }

// std::random_device
unsigned wrap_random_device(void*) asm("__wrap__ZNSt13random_device9_M_getvalEv");
unsigned wrap_random_device(void*) {
    if (!cur) return 4;
    cur->rand_state = sim::mix64(cur->rand_state ^ 0x5eed);
    return unsigned(cur->rand_state >> 20);
}

static constexpr int FD_BASE = 100000;
static std::vector<sim::Stream*> fds;

ssize_t __real_read(int fd, void* buf, size_t n);
int __real_open(const char* path, int flags, ...);
int __real_close(int fd);
int __real_stat(const char* path, struct stat* st);

ssize_t __wrap_read(int fd, void* buf, size_t n) {
    if (fd == 0 && sim::stdin_stream) fd = -2;
    sim::Stream* s = nullptr;
    if (fd == -2)
        s = sim::stdin_stream;
    else if (fd >= FD_BASE && size_t(fd - FD_BASE) < fds.size())
        s = fds[size_t(fd - FD_BASE)];
    if (!s) return __real_read(fd, buf, n);
    i64 c = i64(n);
    if (s->next < s->chunks.size()) c = s->chunks[s->next++];
    if (c < 0) {
        errno = int(-c);
        if (sim::cx) sim::cx->fault("fd.error");
        return -1;
    }
    if (c == 0) c = 1;
    size_t k = std::min({size_t(c), n, s->data.size() - s->at});
    if (k < n && k < s->data.size() - s->at && sim::cx) sim::cx->fault("fd.short_read");
    memcpy(buf, s->data.data() + s->at, k);
    s->at += k;
    return ssize_t(k);
}
int __wrap_open(const char* path, int flags, ...) {
    auto i = sim::stream_files.find(path);
    if (i != sim::stream_files.end()) return sim::open_stream(i->second);
    if (cur) {
        errno = ENOENT;
        return -1;
    }
    return __real_open(path, flags, 0644);
}
int __wrap_close(int fd) {
    if (fd >= FD_BASE && size_t(fd - FD_BASE) < fds.size()) {
        if (fds[size_t(fd - FD_BASE)]) fds[size_t(fd - FD_BASE)]->closed = true;
        fds[size_t(fd - FD_BASE)] = nullptr;
        return 0;
    }
    return __real_close(fd);
}
int __wrap_stat(const char* path, struct stat* st) {
    if (!cur) return __real_stat(path, st);
    memset(st, 0, sizeof *st);
    string p = sim::norm(path);
    if (cur->disk.dirs.count(p)) {
        st->st_mode = S_IFDIR | 0755;
        return 0;
    }
    if (cur->disk.files.count(p) || sim::stream_files.count(path)) {
        st->st_mode = S_IFREG | 0644;
        return 0;
    }
    errno = ENOENT;
    return -1;
}

// the directory of the process: all of it on the simulated disk
extern "C" {
char* __real_getcwd(char* buf, size_t n);
char* __real_mkdtemp(char* t);
int __real_chdir(const char* path);
typedef int (*nftw_fn)(const char*, const struct stat*, int, struct FTW*);
int __real_nftw(const char* path, nftw_fn fn, int fds, int flags);

static constexpr const char* HOME = "/home/swarm";

char* __wrap_getcwd(char* buf, size_t n) {
    if (!cur) return __real_getcwd(buf, n);
    string d = cur->cwd.empty() ? HOME : cur->cwd;
    if (!buf || n <= d.size()) {
        errno = buf ? ERANGE : EINVAL;
        return nullptr;
    }
    memcpy(buf, d.c_str(), d.size() + 1);
    return buf;
}
char* __wrap_mkdtemp(char* t) {
    if (!cur) return __real_mkdtemp(t);
    string d{t};
    if (cur->disk.down || d.size() < 6 || d.compare(d.size() - 6, 6, "XXXXXX") != 0) {
        errno = EINVAL;
        return nullptr;
    }
    do {
        sim::u64 k = sim::u64(__wrap_rand());
        for (size_t i = d.size() - 6; i < d.size(); i++, k /= 26) t[i] = d[i] = char('a' + k % 26);
    } while (cur->disk.dirs.count(d));
    cur->disk.dirs.insert(d);
    return t;
}
int __wrap_chdir(const char* path) {
    if (!cur) return __real_chdir(path);
    string p = sim::norm(path);
    if (p == HOME)
        cur->cwd.clear();
    else if (cur->disk.dirs.count(p))
        cur->cwd = p;
    else {
        errno = ENOENT;
        return -1;
    }
    return 0;
}
int __wrap_nftw(const char* path, nftw_fn fn, int nfds, int flags) {
    if (!cur) return __real_nftw(path, fn, nfds, flags);
    if (cur->disk.down) return -1;
    string p = sim::norm(path);
    if (p == HOME) p.clear();  // all there is
    auto under = [&](const string& q) { return p.empty() ? q[0] != '/' : q == p || q.compare(0, p.size() + 1, p + "/") == 0; };
    auto& d = cur->disk;
    for (auto i = d.files.begin(); i != d.files.end();) i = under(i->first) ? d.files.erase(i) : std::next(i);
    for (auto i = d.dirs.begin(); i != d.dirs.end();) i = under(*i) ? d.dirs.erase(i) : std::next(i);
    return 0;
}
}

//  W A I T I N G

// A wait on the simulator's thread means: a background job has to be run now.
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    using F = int (*)(pthread_cond_t*, pthread_mutex_t*);
    static F real = F(dlvsym(RTLD_NEXT, "pthread_cond_wait", "GLIBC_2.3.2"));
    if (!sim::sim_thread || !cur) return real(c, m);
    if (cur->jobs.empty()) {
        fprintf(stderr, "SIM-DEADLOCK: a wait with nothing left to run\n");
        abort();
    }
    pthread_mutex_unlock(m);
    sim::run_job(*cur, 0);
    pthread_mutex_lock(m);
    return 0;
}
static int timed(pthread_mutex_t* m) {
    pthread_mutex_unlock(m);
    if (!cur->jobs.empty())
        sim::run_job(*cur, 0);
    else
        sim::global_us += 1000;
    pthread_mutex_lock(m);
    return cur->jobs.empty() ? ETIMEDOUT : 0;
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) {
    using F = int (*)(pthread_cond_t*, pthread_mutex_t*, const struct timespec*);
    static F real = F(dlvsym(RTLD_NEXT, "pthread_cond_timedwait", "GLIBC_2.3.2"));
    if (!sim::sim_thread || !cur) return real(c, m, t);
    return timed(m);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k,
                           const struct timespec* t) {
    using F = int (*)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*);
    static F real = F(dlsym(RTLD_NEXT, "pthread_cond_clockwait"));
    if (!sim::sim_thread || !cur) return real(c, m, k, t);
    return timed(m);
}
// RocksDB seeds its skiplist coin with the thread id: make it a constant.
pthread_t pthread_self() {
    using F = pthread_t (*)();
    static F real = F(dlsym(RTLD_NEXT, "pthread_self"));
    if (sim::sim_thread) return pthread_t(0x5150);
    return real();
}
int sched_getcpu() { return 0; }
// The only thread RocksDB starts past its Env is the timer that flushes its
// info log, which is stubbed: such a thread never gets to run here.
static constexpr pthread_t FAKE_THREAD = pthread_t(0x51515000);
static unsigned long fake_threads = 0;
int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
    using F = int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
    static F real = F(dlsym(RTLD_NEXT, "pthread_create"));
    if (!sim::sim_thread || !cur) return real(t, a, fn, arg);
    *t = FAKE_THREAD + ++fake_threads % 4096;
    return 0;
}
int pthread_join(pthread_t t, void** ret) {
    using F = int (*)(pthread_t, void**);
    static F real = F(dlsym(RTLD_NEXT, "pthread_join"));
    if (t < FAKE_THREAD || t > FAKE_THREAD + 4096) return real(t, ret);
    if (ret) *ret = nullptr;
    return 0;
}
}

namespace sim {
void enter_sim_thread() { sim_thread = true; }
int open_stream(Stream* s) {
    fds.push_back(s);
    return FD_BASE + int(fds.size()) - 1;
}
void close_streams() {
    fds.clear();
    stream_files.clear();
    stdin_stream = nullptr;
}
}  // namespace sim
