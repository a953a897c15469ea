// Worlds over RocksDBStore (db/rocks_store.*): one simulated machine, one store
// with several branches, background flushes/compactions under the simulator's
// control, crashes, power loss, disk and API faults.
#include <algorithm>
#include "db/joined_store.hpp"
#include "db/mem_store.hpp"
#include "db/rocks_store.hpp"
#include "ronutil.hpp"
#include "simfs.hpp"

namespace sim {
namespace {

using Store = ron::RocksDBStore<RFrame>;
using Mem = ron::InMemoryStore<RFrame>;
using Join = ron::JoinedStore<Store, Mem>;
using ron::Key;
using ron::Status;

const ron::FORM FORMS7[] = {ron::LWW_RDT_FORM, ron::RGA_RDT_FORM, ron::LOG_RAW_FORM,
                            ron::ZERO_RAW_FORM, ron::MX_RDT_FORM, ron::META_META_FORM,
                            ron::YARN_RAW_FORM};
constexpr int NOBJ = 6, NFORM = 7;

struct KeyM {
    U id;
    ron::FORM form;
    bool operator<(const KeyM& b) const {
        u64 fa = form, fb = b.form, oa = id.o & PAYLOAD, ob = b.id.o & PAYLOAD;
        return std::tie(fa, oa, id.v) < std::tie(fb, ob, b.id.v);
    }
    bool operator==(const KeyM& b) const { return !(*this < b) && !(b < *this); }
    string str() const { return std::to_string(form) + "/" + ustr(id); }
};
Key K_(const KeyM& k) { return Key{R_(k.id), k.form}; }

KeyM key_no(u64 n) {
    static const U ids[NOBJ] = {
        time_id(name64("1hLHRG"), name64("test")),
        time_id(name64("1hLHRG"), name64("test") + 1),   // differs in the last origin bit
        time_id(name64("1hLHRG") + 1, name64("test")),   // ... in the last value bit
        time_id(PAYLOAD - 5, 1),
        time_id(1, PAYLOAD - 1),
        time_id(0x0f0f0f0f0f0f0f0ULL, 0x123456789abcdefULL),
    };
    return KeyM{ids[n % NOBJ], FORMS7[(n / NOBJ) % NFORM]};
}

struct Rec {
    U branch;
    KeyM key;
    Ops ops;
};
enum WS { ACK, UNC, GONE };
enum View { BASE, JOIN, OVER };  // the disk, the disk and the overlay, the overlay alone
struct W {
    std::vector<Rec> recs;
    WS st = ACK;
    string wal;  // the log file it went to
};

struct Sim {
    Node node;
    Store::Branches stores;  // by uuid
    std::vector<U> live;     // branches that must exist
    std::set<U> maybe;       // may or may not exist (in-flight create/drop)
    std::set<U> gone;        // dropped
    std::vector<W> log;
    std::map<U, std::map<U, MOp>> pad;
    u64 next_id = 1000;
    bool is_open = false, faulty = false, disk_faults = false;
    int restarts = 0;
    bool repaired = false;
    std::set<U> tabled;  // branches that have table files for sure
    std::unique_ptr<Mem> mem;  // a transaction's overlay (see Replica::Commit)
    U mem_branch;
    std::vector<Rec> pend;     // what was written to it
    View view = BASE;

    Sim() { cur = &node; }
    ~Sim() {
        fs_trace = false;
        close();
        cur = nullptr;
    }

    void close() {
        mem.reset();
        pend.clear();
        view = BASE;
        for (auto& s : stores) s.second.Close();
        stores.clear();
        is_open = false;
    }

    //  M O D E L

    /** ops that the reduced record must hold, given the writes that count */
    Ops expect(const U& b, const KeyM& k, const std::set<size_t>& with, Ops* orphans = nullptr) const {
        Ops all;
        auto take = [&](const Rec& r) {
            if (r.branch != b || !(r.key == k)) return;
            if (k.form == ron::ZERO_RAW_FORM) all.clear();
            all.insert(all.end(), r.ops.begin(), r.ops.end());
        };
        for (size_t i = 0; view != OVER && i < log.size(); i++) {
            if (log[i].st == GONE || (log[i].st == UNC && !with.count(i))) continue;
            for (auto& r : log[i].recs) take(r);
        }
        if (view != BASE)
            for (auto& r : pend) take(r);
        switch (k.form) {
            case ron::ZERO_RAW_FORM:
            case ron::LOG_RAW_FORM: return all;
            case ron::RGA_RDT_FORM: return ct_order(all, orphans);
            default: return id_order(all);
        }
    }

    bool has(const Ops& a, const MOp& o) const {
        for (auto& x : a)
            if (x.id == o.id) return true;
        return false;
    }

    /** does another write bring the same op? (then it says nothing of this one) */
    bool repeated(size_t i, const Rec& r, const MOp& o) const {
        if (r.key.form == ron::ZERO_RAW_FORM) return false;
        for (size_t j = 0; j < log.size(); j++)
            if (j != i && log[j].st != GONE)
                for (auto& q : log[j].recs)
                    if (q.branch == r.branch && q.key == r.key && has(q.ops, o)) return true;
        if (view != BASE)
            for (auto& q : pend)
                if (q.branch == r.branch && q.key == r.key && has(q.ops, o)) return true;
        return false;
    }

    /** which uncertain writes does this reading show? */
    std::set<size_t> shown(const U& b, const KeyM& k, const Ops& got, const string& where) const {
        std::set<size_t> r;
        for (size_t i = 0; i < log.size(); i++) {
            if (log[i].st != UNC) continue;
            size_t in = 0, all = 0;
            for (auto& rec : log[i].recs) {
                if (rec.branch != b || !(rec.key == k)) continue;
                for (auto& o : rec.ops) {
                    if (repeated(i, rec, o)) continue;
                    ++all;
                    in += has(got, o);
                }
            }
            if (!in) continue;
            if (in != all && k.form != ron::ZERO_RAW_FORM)
                fail("torn-write", where + ": a write that had not been acknowledged shows up partially: " +
                                       show(log[i].recs[0].ops) + " in " + show(got));
            r.insert(i);
        }
        return r;
    }

    std::set<KeyM> keys_of(const U& b, bool certain) const {
        std::set<KeyM> r;
        for (auto& w : log) {
            if (view == OVER || w.st == GONE || (certain && w.st == UNC)) continue;
            for (auto& rec : w.recs)
                if (rec.branch == b) r.insert(rec.key);
        }
        if (view != BASE)
            for (auto& rec : pend)
                if (rec.branch == b) r.insert(rec.key);
        return r;
    }

    void check_value(const U& b, const KeyM& k, const string& text, const string& where) {
        Ops got;
        string err;
        if (!read_frame(got, text, &err))
            fail("garbage", where + " of " + k.str() + ": unparseable record (" + err + "): " + esc(text));
        Ops orphans;
        Ops want = expect(b, k, shown(b, k, got, where), &orphans);
        if (!orphans.empty()) {
            // power loss took an earlier log file but not a later one: the order of
            // such a headless tree is nobody's promise
            cx->probe("rga.orphans");
            for (auto& o : got)
                if (!has(want, o) && !has(orphans, o)) fail("phantom-op", where + " of " + k.str() + ": " + o.str());
            return;
        }
        if (repaired && k.form == ron::LOG_RAW_FORM) {
            // a repair replays the write-ahead log on top of what was flushed,
            // so raw (unmerged) logs might have repeats
            got = id_order(got);
            want = id_order(want);
        }
        if (got != want) {
            // something lost, something extra, or a different order?
            string cls = "wrong-state";
            for (auto& o : want)
                if (!has(got, o)) cls = "lost-op";
            for (auto& o : got)
                if (!has(want, o)) cls = "phantom-op";
            fail(cls, where + " of " + k.str() + " on branch " + ustr(b) + "\n   got  " + show(got) +
                          "\n   want " + show(want));
        }
        cx->state(hstr(text));
    }

    //  L I F E C Y C L E

    bool op_failed(const Status& ok, const string& what) {
        if (ok) return false;
        if (!faulty && !node.disk.down) fail("spurious-error", what + " fails with no fault injected: " + ok.str());
        cx->probe("op.failed");
        return true;
    }

    void create() {
        Store s;
        Status ok = s.Create(ron::Uuid::NIL);
        if (!ok) fail("spurious-error", "Create: " + ok.str());
        stores.emplace(ron::Uuid::NIL, s);
        live.push_back(U{});
        note_tip(U{});
        is_open = true;
    }
    string wal() const {
        string r;
        for (auto& f : node.disk.files)
            if (f.first.size() > 4 && f.first.compare(f.first.size() - 4, 4, ".log") == 0 &&
                f.first.find("archive") == string::npos)
                r = std::max(r, f.first);
        return r;
    }
    void note_tip(const U& b, WS st = ACK) {
        W w;
        w.wal = wal();
        Rec r;
        r.branch = b;
        r.key = KeyM{U{}, ron::ZERO_RAW_FORM};
        MOp o;
        o.ref = name_id("zero");
        r.ops.push_back(o);
        w.recs.push_back(r);
        w.st = st;
        log.push_back(w);
    }

    void open_all(const string& why) {
        Status ok = Store::OpenAll(stores);
        if (!ok) fail("cant-open", why + ": OpenAll fails: " + ok.str());
        is_open = true;
        std::set<U> have;
        for (auto& s : stores) {
            U id = U_(s.first);
            have.insert(id);
            if (gone.count(id)) fail("branch-back", why + ": a dropped branch is back " + ustr(id));
            bool known = maybe.count(id) || std::find(live.begin(), live.end(), id) != live.end();
            if (!known) fail("branch-phantom", why + ": an unknown branch " + ustr(id));
        }
        for (auto& b : live)
            if (!have.count(b)) fail("branch-lost", why + ": no branch " + ustr(b));
        for (auto& m : maybe) {
            if (have.count(m))
                live.push_back(m);
            else
                gone.insert(m);
        }
        maybe.clear();
    }

    /** after a restart: every write has to be either there or not.
     *  lossy: acknowledged unsynced writes may be gone, but only a tail of the history */
    struct Enough {};  // nothing more can be told in this run
    /** Power loss took the tail of a log file but not the next one, so the pieces of a
     *  tree are there and what they were attached to is not: it can't be merged. */
    void headless(const U& b, const Status& ok) {
        if (ok.str().find("Merge operator failed") == string::npos) return;
        std::map<KeyM, std::set<string>> wals;
        for (auto& w : log)
            if (w.st != GONE)
                for (auto& r : w.recs)
                    if (r.branch == b && r.key.form == ron::RGA_RDT_FORM) wals[r.key].insert(w.wal);
        for (auto& k : wals)
            if (k.second.size() > 1) {
                cx->probe("rga.headless");
                throw Enough{};
            }
    }
    void resolve(bool lossy, const string& why) {
        std::map<std::pair<U, KeyM>, Ops> db;
        for (auto& b : live) {
            auto i = stores.find(R_(b));
            Store::Iterator it{i->second};
            Status ok = it.SeekTo(Key{});
            if (!ok && lossy) headless(b, ok);
            if (!ok) fail("cant-read", why + ": " + ok.str());
            while (it.key() != Key::END) {
                Ops got;
                string err;
                string text = it.value().data().str();
                KeyM k{U_(it.key().id()), it.key().form()};
                if (k.form == ron::ZERO_RAW_FORM && k.id.v == 0) k.id = U{};
                if (!read_frame(got, text, &err))
                    fail("garbage", why + ": unparseable record " + k.str() + ": " + esc(text));
                db[{b, k}] = got;
                ok = it.Next();
                if (!ok && ok != Status::ENDOFINPUT && lossy) headless(b, ok);
                if (!ok && ok != Status::ENDOFINPUT) fail("cant-read", why + ": " + ok.str());
            }
        }
        std::map<std::pair<string, U>, size_t> missed;  // per log file and branch
        for (size_t i = 0; i < log.size(); i++) {
            W& w = log[i];
            if (w.st == GONE) continue;
            int yes = 0, no = 0, na = 0;
            for (auto& r : w.recs) {
                if (gone.count(r.branch)) {
                    ++na;
                    continue;
                }
                auto f = db.find({r.branch, r.key});
                size_t in = 0;
                bool over = false;
                if (r.key.form == ron::ZERO_RAW_FORM) {
                    // overwritten by a later one?
                    for (size_t j = i; j < log.size(); j++)
                        for (auto& q : log[j].recs)
                            if (&q != &r && log[j].st != GONE && q.branch == r.branch && q.key == r.key &&
                                (j > i || &q > &r) && f != db.end() && !f->second.empty() &&
                                f->second == q.ops)
                                over = true;
                }
                if (over) {
                    ++na;
                    continue;
                }
                size_t all = 0;
                for (auto& o : r.ops)
                    if (!repeated(i, r, o)) {
                        ++all;
                        if (f != db.end()) in += has(f->second, o);
                    }
                if (!all) {
                    for (auto& o : r.ops)
                        if (f == db.end() || !has(f->second, o)) --in;
                    if (in == 0)
                        ++na;
                    else
                        ++no;
                } else if (in == all)
                    ++yes;
                else if (in == 0)
                    ++no;
                else
                    fail("torn-write", why + ": a write is torn " + show(r.ops) + " -> " + show(f->second));
            }
            if (yes && no)
                fail("torn-batch", why + ": a batch is applied partially: write #" + std::to_string(i) + " " +
                                       std::to_string(yes) + " of " + std::to_string(yes + no) + " records");
            if (no) {
                if (w.st == ACK && !lossy)
                    fail("lost-write", why + ": an acknowledged write is lost #" + std::to_string(i) + " " +
                                           show(w.recs[0].ops));
                if (w.st == ACK) cx->probe("powerloss.lost_acked_write");
                if (w.st == ACK) missed.emplace(std::make_pair(w.wal, w.recs[0].branch), i);
                w.st = GONE;
            } else if (yes) {
                auto m = missed.find({w.wal, w.recs[0].branch});
                if (m != missed.end() && lossy)
                    fail("not-a-prefix", why + ": write #" + std::to_string(i) + " survived while #" +
                                             std::to_string(m->second) + " is lost");
                if (w.st == UNC) cx->probe("unacked_write_survived");
                w.st = ACK;
            } else if (w.st == UNC) {
                w.st = ACK;  // nothing observable
            }
        }
    }

    void restart(bool lossy, bool repair, const string& why) {
        ++restarts;
        close();
        disarm(node);
        node.disk.restart();
        node.want_flush = node.want_compact = false;
        faulty = disk_faults = false;
        if (repair) {
            Status ok = Store::Repair();
            if (!ok) fail("cant-repair", why + ": " + ok.str());
        }
        open_all(why);
        for (auto& b : live) tabled.insert(b);  // opening flushes the log
        resolve(lossy, why);
        check_all(why);
    }
    /** if the process died during an operation: restart it */
    void maybe_dead(const string& why) {
        if (node.disk.down) {
            cx->probe("restart.after_io_crash");
            restart(false, false, "restart after a crash in " + why);
        }
    }

    //  O P E R A T I O N S

    Store* pick(u64 b, U* id = nullptr) {
        U u = live[b % live.size()];
        if (id) *id = u;
        auto i = stores.find(R_(u));
        return i == stores.end() ? nullptr : &i->second;
    }

    MOp fresh(Rng& r) {
        MOp o;
        next_id += r.chance(50) ? 1 : r.below(5000) + 2;
        o.id = time_id(name64("1hLHRG") + next_id, r.chance(70) ? name64("test") : r.next());
        return o;
    }
    Rec make(u64 b, u64 kn, u64 seed) {
        Rng r{seed};
        Rec rec;
        rec.key = key_no(kn);
        pick(b, &rec.branch);
        bool bulk = r.chance(2);
        int n = bulk ? int(r.in(5, 90)) : int(r.in(1, 4));
        U obj = rec.key.id;
        Ops sure;
        for (auto& w : log)
            if (w.st == ACK)
                for (auto& q : w.recs)
                    if (q.branch == rec.branch && q.key == rec.key)
                        sure.insert(sure.end(), q.ops.begin(), q.ops.end());
        if (view != BASE)
            for (auto& q : pend)
                if (q.branch == rec.branch && q.key == rec.key) sure.insert(sure.end(), q.ops.begin(), q.ops.end());
        if (rec.key.form == ron::RGA_RDT_FORM) {
            bool uncertain_root = false;
            for (auto& w : log)
                for (auto& q : w.recs)
                    if (w.st == UNC && q.branch == rec.branch && q.key == rec.key) uncertain_root = true;
            if (sure.empty()) {
                MOp root;
                root.id = obj;
                root.ref = name_id("rga");
                rec.ops.push_back(root);
                (void)uncertain_root;
                return rec;
            }
            MOp at = sure[r.below(sure.size())];
            u64 v = at.id.v;
            if (!bulk) n = int(r.in(1, 6));
            for (int i = 0; i < n; i++) {
                MOp o = fresh(r);
                v += r.chance(70) && i ? 1 : 1 + r.below(1 << 20);
                o.id.v = (v & PAYLOAD);
                if (o.id.v <= at.id.v || (at.id.v > PAYLOAD - (1 << 24))) {  // near the end of time
                    o.id.v = at.id.v + 1 < PAYLOAD ? at.id.v + 1 : at.id.v;
                    if (o.id.v == at.id.v) break;
                }
                v = o.id.v;
                if (i) o.id.o = rec.ops.back().id.o;
                // unique?
                bool dup = false;
                for (auto& w : log)
                    for (auto& q : w.recs)
                        if (q.key == rec.key && has(q.ops, o)) dup = true;
                for (auto& q : pend)
                    if (q.key == rec.key && has(q.ops, o)) dup = true;
                if (dup) break;
                o.ref = i ? rec.ops.back().id : at.id;
                if (r.chance(15))
                    o.vals.push_back(Val::Id(name_id(r.chance(70) ? "rm" : "un")));
                else if (r.chance(20))
                    o.vals.push_back(Val::S(gen_text(r, 6, true)));
                else
                    o.vals.push_back(Val::S(string(1, char(r.in('a', 'z')))));
                rec.ops.push_back(o);
            }
            if (rec.ops.empty()) {  // nothing fits: rewrite the root (idempotent)
                rec.ops.push_back(sure[0]);
            }
            return rec;
        }
        for (int i = 0; i < n; i++) {
            MOp o = fresh(r);
            o.ref = r.chance(30) ? name_id("lww") : r.chance(30) && i ? rec.ops.back().id : obj;
            int nv = int(r.below(4));
            for (int k = 0; k < nv; k++) o.vals.push_back(gen_val(r, 0));
            rec.ops.push_back(o);
        }
        if (rec.key.form != ron::LOG_RAW_FORM && rec.key.form != ron::ZERO_RAW_FORM) {
            if (!sure.empty() && r.chance(25)) rec.ops.push_back(sure[r.below(sure.size())]);  // a repeat
            rec.ops = id_order(rec.ops);
        }
        return rec;
    }
    RFrame render(const Ops& ops, u64 seed) {
        if (seed & 1) return frame_of(ops);
        // through the builder: compressed notation
        RFrame plain = frame_of(ops);
        RCursor c{plain};
        RBuilder b;
        while (c.Next()) b.AppendOp(c);
        return b.Release();
    }

    void write(u64 b, u64 kn, u64 seed) {
        W w;
        w.recs.push_back(make(b, kn, seed));
        Store* s = pick(b);
        RFrame f = render(w.recs[0].ops, seed);
        w.st = UNC;
        log.push_back(w);
        Status ok = s->Write(K_(w.recs[0].key), f);
        cx->ev("write " + ok.str());
        if (!op_failed(ok, "Write")) {
            log.back().wal = wal();
            if (!node.disk.down) log.back().st = ACK;  // else nobody heard it
        }
        maybe_dead("a write");
    }
    void batch(u64 b, u64 n, u64 seed) {
        W w;
        Rng r{seed};
        Store* s = pick(b);
        Store::Records recs;
        n = 1 + n % 6;
        bool big = seed % 20 == 3;  // more than a page, a log block or a buffer
        if (big) n += 2 + r.below(6);
        std::set<KeyM> used;
        for (u64 i = 0; i < n; i++) {
            u64 kn = r.next();
            KeyM k = key_no(kn);
            if (used.count(k)) continue;
            used.insert(k);
            Rec rec = make(b, kn, r.next());
            if (big && rec.key.form != ron::RGA_RDT_FORM)
                for (auto& o : rec.ops) {
                    bool old = false;
                    for (auto& w1 : log)
                        for (auto& q : w1.recs) old = old || has(q.ops, o);
                    if (!old) o.vals.push_back(Val::S(string(size_t(r.in(1, r.chance(8) ? 30000 : 1500)), char(r.in('a', 'z')))));
                }
            recs.emplace_back(K_(k), render(rec.ops, r.next()));
            w.recs.push_back(rec);
        }
        w.st = UNC;
        log.push_back(w);
        Status ok = s->Write(recs);
        cx->ev("batch " + ok.str());
        if (!op_failed(ok, "Write(batch)")) {
            log.back().wal = wal();
            if (!node.disk.down) log.back().st = ACK;  // else nobody heard it
        }
        maybe_dead("a batch write");
    }
    void read(u64 b, u64 kn) {
        U id;
        Store* s = pick(b, &id);
        KeyM k = key_no(kn);
        RFrame f;
        Status ok = s->Read(K_(k), f);
        cx->ev("read " + ok.str() + " " + f.data());
        if (!op_failed(ok, "Read")) check_value(id, k, f.data(), "Read");
        maybe_dead("a read");
    }
    void seek(u64 b, u64 kn, bool prev, u64 steps, u64 jobs) {
        U id;
        Store* s = pick(b, &id);
        scan_from(*s, id, kn, prev, steps, jobs);
        maybe_dead("a scan");
    }
    template <class Host>
    void scan_from(Host& host, const U& id, u64 kn, bool prev, u64 steps, u64 jobs) {
        KeyM k = key_no(kn);
        std::set<KeyM> must = keys_of(id, true), may = keys_of(id, false);
        {
            typename Host::Iterator it{host};
            Status ok = it.SeekTo(K_(k), prev);
            if (op_failed(ok, "SeekTo")) return;
            KeyM last{};
            bool first = true, end = false;
            for (u64 n = 0; n <= steps % 6; n++) {
                Key at = it.key();
                end = at == Key::END;
                KeyM am{U_(at.id()), at.form()};
                if (!end && am.form == ron::ZERO_RAW_FORM && am.id.v == 0) am.id = U{};
                if (!end && !may.count(am))
                    fail("iter-phantom", "an iterator shows a key nobody wrote: " + am.str());
                // nothing that must be there may be skipped
                for (auto& m : must) {
                    bool skipped;
                    if (first)
                        skipped = prev ? (!(k < m) && (end || am < m)) : (!(m < k) && (end || m < am));
                    else
                        skipped = last < m && (end || m < am);
                    if (skipped)
                        fail("iter-skip", "an iterator skips " + m.str() + (end ? " (at the end)" : " now at " + am.str()) +
                                              " sought " + k.str() + (prev ? " prev" : ""));
                }
                if (!end) {
                    if (first) {
                        if (prev ? k < am : am < k)
                            fail("iter-order", "SeekTo lands on the wrong side: " + am.str() + " for " + k.str());
                    } else if (!(last < am)) {
                        fail("iter-order", "an iterator goes backwards");
                    }
                    check_value(id, am, it.value().data().str(), "Iterator::value");
                }
                if (end) break;
                if (jobs) {
                    --jobs;
                    run_jobs(node, 1);
                }
                last = am;
                first = false;
                u64 f0 = cx->faults["api.eio.iterator"];
                ok = it.Next();
                if (!ok && ok != Status::ENDOFINPUT) {
                    op_failed(ok, "Next");
                    break;
                }
                if (cx->faults["api.eio.iterator"] != f0)
                    fail("swallowed-error", "an I/O error in the middle of a scan is reported as " +
                                                string(ok ? "success" : "the end of the data"));
                if (!ok && it.key() != Key::END) fail("iter-order", "ENDOFINPUT, but still at a key");
                if (view == BASE && ok && it.key() == Key::END) fail("iter-order", "Next() says OK at the end");
            }
        }
    }

    //  J O I N E D  S T O R E : an overlay of unsaved writes over the disk

    void join_on(u64 b) {
        if (!mem) {
            mem = std::make_unique<Mem>();
            pick(b, &mem_branch);
        }
    }
    u64 mem_no() const { return u64(std::find(live.begin(), live.end(), mem_branch) - live.begin()); }
    Store& mem_base() { return stores.find(R_(mem_branch))->second; }
    void join_write(u64 b, u64 kn, u64 seed) {
        join_on(b);
        view = JOIN;
        Rec rec = make(mem_no(), kn, seed);
        view = BASE;
        Join j{mem_base(), *mem};
        Status ok = j.Write(K_(rec.key), render(rec.ops, seed));
        if (!ok) fail("spurious-error", "a write to the overlay fails: " + ok.str());
        pend.push_back(rec);
    }
    void join_read(u64 kn, bool over) {
        if (!mem) return;
        view = over ? OVER : JOIN;
        KeyM k = key_no(kn);
        RFrame f;
        Status ok;
        if (over)
            ok = mem->Read(K_(k), f);
        else
            ok = Join{mem_base(), *mem}.Read(K_(k), f);
        cx->ev("join read " + ok.str() + " " + f.data());
        Ops orphans;
        expect(mem_branch, k, {}, &orphans);
        if (over && !orphans.empty() && !ok) {
            cx->probe("overlay.unattacheable");  // pieces of a tree that is on the disk
        } else if (!op_failed(ok, "Read(joined)"))
            check_value(mem_branch, k, f.data(), over ? "InMemoryStore::Read" : "JoinedStore::Read");
        view = BASE;
        maybe_dead("a joined read");
    }
    void join_scan(u64 kn, bool prev, u64 steps, u64 jobs, bool over) {
        if (!mem) return;
        view = over ? OVER : JOIN;
        if (over)
            scan_from(*mem, mem_branch, kn, prev, steps, 0);
        else {
            Join j{mem_base(), *mem};
            scan_from(j, mem_branch, kn, prev, steps, jobs);
        }
        view = BASE;
        maybe_dead("a joined scan");
    }
    void join_end(bool save) {
        if (!mem) return;
        cx->probe(save ? "overlay.saved" : "overlay.discarded");
        if (save && !pend.empty()) {
            W w;
            w.recs = pend;
            w.st = UNC;
            log.push_back(w);
            Join::Records recs;
            if (!mem->Release(recs)) fail("lost-op", "Release gives nothing");
            Join j{mem_base(), *mem};
            Status ok = j.Write(recs);
            cx->ev("join save " + ok.str());
            if (!op_failed(ok, "Write(overlay)")) {
                log.back().wal = wal();
                if (!node.disk.down) log.back().st = ACK;
            }
        }
        mem.reset();
        pend.clear();
        maybe_dead("a save");
    }
    void check_all(const string& why) {
        bool armed = faulty;
        for (auto& b : live) {
            auto i = stores.find(R_(b));
            if (i == stores.end()) fail("branch-lost", why + ": no branch " + ustr(b));
            Store& s = i->second;
            for (auto& k : keys_of(b, false)) {
                RFrame f;
                Status ok = s.Read(K_(k), f);
                if (op_failed(ok, "Read")) continue;
                check_value(b, k, f.data(), why + ": Read");
            }
            Store::Iterator it{s};
            Status ok = it.SeekTo(Key{});
            if (op_failed(ok, "SeekTo")) continue;
            std::set<KeyM> seen, must = keys_of(b, true), may = keys_of(b, false);
            KeyM last{};
            bool first = true, complete = true;
            while (it.key() != Key::END) {
                KeyM k{U_(it.key().id()), it.key().form()};
                if (k.form == ron::ZERO_RAW_FORM && k.id.v == 0) k.id = U{};
                if (!may.count(k)) fail("iter-phantom", why + ": a scan shows a key nobody wrote: " + k.str() + " on " + ustr(b));
                if (!first && !(last < k)) fail("iter-order", why + ": keys are not ascending");
                check_value(b, k, it.value().data().str(), why + ": scan");
                seen.insert(k);
                last = k;
                first = false;
                ok = it.Next();
                if (!ok && ok != Status::ENDOFINPUT) {
                    op_failed(ok, "Next");
                    complete = false;
                    break;
                }
            }
            if (complete)
                for (auto& m : must)
                    if (!seen.count(m)) fail("iter-skip", why + ": a full scan misses " + m.str());
        }
        (void)armed;
    }
    void create_branch(const U& id) {
        auto& zero = stores.find(ron::Uuid::NIL)->second;
        Store s{zero.db()};
        maybe.insert(id);
        note_tip(id, UNC);
        bool db_only = node.api_fail_write == 0 && !disk_faults && !node.disk.down;
        Status ok = s.Create(R_(id));
        cx->ev("branch " + ok.str());
        if (!ok && db_only && !node.disk.down) {
            cx->probe("create.retried");
            s = Store{zero.db()};
            ok = s.Create(R_(id));
            if (!ok) fail("create-retry", "a store can not be created once a creation failed: " + ok.str());
        }
        if (!op_failed(ok, "Create(branch)")) {
            maybe.erase(id);
            live.push_back(id);
            log.back().st = ACK;
            stores.emplace(R_(id), s);
        } else if (!node.disk.down) {
            // a failed create: unknown until the next restart; the handle is dropped
            cx->probe("create.failed");
        }
    }
    void branch(u64 seed) {
        if (live.size() >= 16) return;
        Rng r{seed};
        U id{r.chance(70) ? (63ULL << 54) : r.next() & PAYLOAD, (r.next() & PAYLOAD) | (F_TIME << 60)};
        if (r.chance(30)) id.o = (id.o & ~u64(0xfffffffff)) | 0;  // zero tail: trimmed when printed
        if (r.chance(20)) id.o = (F_TIME << 60) | (r.next() & 0xff);
        for (auto& l : live)
            if (l == id) return;
        if (gone.count(id)) return;
        create_branch(id);
        maybe_dead("Create(branch)");
    }
    void drop(u64 b) {
        if (live.size() < 2) return;
        size_t at = 1 + b % (live.size() - 1);
        U id = live[at];
        auto i = stores.find(R_(id));
        if (mem && mem_branch == id) {
            mem.reset();
            pend.clear();
        }
        live.erase(live.begin() + long(at));
        maybe.insert(id);
        Status ok = i->second.Drop();
        cx->ev("drop " + ok.str());
        stores.erase(i);
        if (!op_failed(ok, "Drop")) {
            maybe.erase(id);
            gone.insert(id);
            for (auto& w : log) {
                bool all = true;
                for (auto& r : w.recs) all = all && gone.count(r.branch);
                if (all) w.st = GONE;
            }
        }
        maybe_dead("Drop");
    }
    void step(const Step& s) {
        const string& o = s.op;
        if (o == "w")
            write(s.uarg(0), s.uarg(1), s.uarg(2));
        else if (o == "batch")
            batch(s.uarg(0), s.uarg(1), s.uarg(2));
        else if (o == "r")
            read(s.uarg(0), s.uarg(1));
        else if (o == "it")
            seek(s.uarg(0), s.uarg(1), s.arg(2) & 1, s.uarg(3), s.uarg(4));
        else if (o == "jw")
            join_write(s.uarg(0), s.uarg(1), s.uarg(2));
        else if (o == "jr")
            join_read(s.uarg(0), s.arg(1) & 1);
        else if (o == "jit")
            join_scan(s.uarg(0), s.arg(1) & 1, s.uarg(2), s.uarg(3), s.uarg(4) % 4 == 3);
        else if (o == "jend")
            join_end(s.arg(0) != 0);
        else if (o == "all")
            check_all("scan");
        else if (o == "flush")
            node.want_flush = true;
        else if (o == "compact")
            node.want_compact = true;
        else if (o == "jobs")
            run_jobs(node, int(s.arg(0))), maybe_dead("a background job");
        else if (o == "job")
            run_job(node, node.jobs.empty() ? 0 : s.uarg(0) % node.jobs.size()), maybe_dead("a background job");
        else if (o == "reopen") {
            cx->probe("restart.clean");
            restart(false, false, "reopen");
        } else if (o == "repair") {
            cx->probe("restart.repair");
            u64 how = s.uarg(0) % 4;
            // RocksDB's repair finds a branch by its table files
            bool tables = true;
            for (auto& b : live) tables = tables && tabled.count(b);
            if ((how == 0 || !tables) && !flush_all()) return;
            repaired = true;
            if (how == 2) {
                cx->fault("process_crash");
                node.disk.process_crash();
            }
            // (after a power loss obsolete tables may be back; RocksDB's repair
            // takes them for live ones, so the store is reopened before a repair)
            restart(false, true, "repair");
        } else if (o == "crash") {
            cx->fault("process_crash");
            node.disk.process_crash();
            restart(false, false, "restart after a process crash");
        } else if (o == "power") {
            cx->fault("power_loss");
            node.disk.power_loss(s.uarg(0), s.arg(1) & 1);
            restart(true, false, "restart after a power loss");
        } else if (o == "arm") {
            static const unsigned masks[] = {IO_APPEND, IO_SYNC, IO_META, IO_READ, IO_OPEN, IO_DIRSYNC, IO_WRITES, IO_ANY};
            static const char* sfx[] = {"", "log", "sst", "MANIFEST", "CURRENT", "dbtmp"};
            int kind = int(s.uarg(1) % 7);
            if (kind == F_FLIP)  // of what has checksums
                arm(node, IO_READ, kind, s.arg(2), s.arg(3), 1 + s.arg(4) % 3, "sst");
            else
                arm(node, masks[s.uarg(0) % 8], kind, s.arg(2), s.arg(3), 1 + s.arg(4) % 3, sfx[s.uarg(5) % 6]);
            faulty = disk_faults = true;
        } else if (o == "apiw") {
            node.api_fail_write = s.arg(0);
            node.api_error = int(s.uarg(1) % 9);
            faulty = true;
        } else if (o == "apir") {
            node.api_fail_read = s.arg(0);
            node.api_error = int(s.uarg(1) % 9);
            faulty = true;
        } else if (o == "apii") {
            node.api_fail_iter = s.arg(0);
            node.api_error = int(s.uarg(1) % 9);
            faulty = true;
        } else if (o == "branch")
            branch(s.uarg(0));
        else if (o == "drop")
            drop(s.uarg(0));
        else if (o == "tick")
            global_us += s.arg(0);
    }
    void cfg(const Step& s) {
        static const i64 wbs[] = {0, 65536, 1 << 20};
        static const i64 tfs[] = {0, 1024, 8192};
        static const int bs[] = {0, 64, 512};
        Knobs& k = node.knobs;
        k.write_buffer_size = wbs[s.uarg(0) % 3];
        k.l0_trigger = s.uarg(1) % 3 == 0 ? 0 : int(1 + s.uarg(1) % 3);
        k.target_file_size = tfs[s.uarg(2) % 3];
        k.block_size = bs[s.uarg(3) % 3];
        k.max_successive_merges = s.uarg(4) % 4 == 0 ? 2 : -1;
        k.compaction_style = s.uarg(5) % 4 == 0 ? 1 : -1;
    }
    bool flush_all() {
        RFrame f;
        for (auto& b : live) {
            node.want_flush = true;
            stores.find(R_(b))->second.Read(Key{}, f);
            run_jobs(node);
            if (!node.flush_ok) return false;
            tabled.insert(b);
        }
        return true;
    }
    void finish() {
        // quiesce, check, and once more after a clean restart
        disarm(node);
        if (!faulty) check_all("at the end");
        faulty = disk_faults = false;
        restart(false, false, "final reopen");
        node.want_compact = true;
        RFrame f;
        for (auto& b : live) {
            node.want_compact = true;
            stores.find(R_(b))->second.Read(Key{}, f);
            run_jobs(node);
        }
        check_all("after the final compaction");
    }
};

void exec(const Plan& p) {
    Sim s;
    if (!p.empty() && p[0].op == "cfg") s.cfg(p[0]);
    s.create();
    try {
        for (auto& st : p) {
            cx->ev("> " + st.str());
            s.step(st);
        }
    } catch (const Sim::Enough&) {
        return;
    }
    s.finish();
}

struct Mix {
    int w, batch, r, it, all, flush, compact, jobs, reopen, repair, crash, power, arm, api, branch, drop, jw = 0, jr = 0, jit = 0, jend = 0;
};
Plan gen_mix(Rng& r, const Mix& m, int lo, int hi, unsigned formmask) {
    Plan p;
    p.push_back(Step{"cfg", {r.in(0, 9), r.in(0, 9), r.in(0, 9), r.in(0, 9), r.in(0, 9), r.in(0, 9)}});
    int n = int(r.in(lo, hi));
    int tot = m.w + m.batch + m.r + m.it + m.all + m.flush + m.compact + m.jobs + m.reopen + m.repair +
              m.crash + m.power + m.arm + m.api + m.branch + m.drop + m.jw + m.jr + m.jit + m.jend;
    // swarm: a few hot keys
    std::vector<i64> keys;
    int nk = int(r.in(1, 6));
    while (int(keys.size()) < nk) {
        i64 k = r.in(0, NOBJ * NFORM - 1);
        if (formmask & (1u << ((k / NOBJ) % NFORM))) keys.push_back(k);
    }
    auto key = [&] { return r.chance(85) ? keys[r.below(keys.size())] : r.in(0, NOBJ * NFORM - 1); };
    int nb = r.chance(6) ? int(r.in(3, 14)) : int(r.below(3));
    bool churn = m.branch && r.chance(4);  // many branches over the time
    for (int i = 0; i < nb && m.branch; i++) p.push_back(Step{"branch", {r.in(1, 1 << 30)}});
    int run_at = r.chance(4) ? int(r.below(u64(n))) : -1;  // many small writes under one key
    for (int i = 0; i < n; i++) {
        i64 x = i64(r.below(u64(tot)));
        i64 b = r.in(0, 3);
        if (i == run_at) {
            i64 k = key();
            for (i64 j = r.in(15, 75); j > 0; j--) {
                p.push_back(Step{"w", {b, k, r.in(1, 1 << 30)}});
                if (m.flush && r.chance(3)) p.push_back(Step{"flush"});
            }
        }
        if (nb > 3 && r.chance(70)) b = r.in(0, nb);
        if (churn && r.chance(30)) {
            p.push_back(Step{"branch", {r.in(1, 1 << 30)}});
            if (r.chance(60)) p.push_back(Step{"drop", {r.in(0, 9)}});
        }
        if ((x -= m.w) < 0)
            p.push_back(Step{"w", {b, key(), r.in(1, 1 << 30)}});
        else if ((x -= m.batch) < 0)
            p.push_back(Step{"batch", {b, r.in(0, 5), r.in(1, 1 << 30)}});
        else if ((x -= m.r) < 0)
            p.push_back(Step{"r", {b, key()}});
        else if ((x -= m.it) < 0)
            p.push_back(Step{"it", {b, r.chance(60) ? key() : r.in(0, NOBJ * NFORM - 1), r.in(0, 1), r.in(0, 5), r.in(0, 3)}});
        else if ((x -= m.all) < 0)
            p.push_back(Step{"all"});
        else if ((x -= m.flush) < 0)
            p.push_back(Step{"flush"});
        else if ((x -= m.compact) < 0)
            p.push_back(Step{"compact"});
        else if ((x -= m.jobs) < 0)
            p.push_back(r.chance(50) ? Step{"jobs", {r.in(1, 4)}} : Step{"job", {r.in(0, 5)}});
        else if ((x -= m.reopen) < 0)
            p.push_back(Step{"reopen"});
        else if ((x -= m.repair) < 0)
            p.push_back(Step{"repair", {i64(r.below(4))}});
        else if ((x -= m.crash) < 0)
            p.push_back(Step{"crash"});
        else if ((x -= m.power) < 0)
            p.push_back(Step{"power", {r.in(1, 1 << 30), r.in(0, 1)}});
        else if ((x -= m.arm) < 0) {
            // place the fault into the operation that follows
            p.push_back(Step{"arm", {r.in(0, 7), m.api && r.chance(25) ? 6 : r.in(0, 5), r.small(6), r.in(0, 4000), r.in(0, 2), r.chance(50) ? 0 : r.in(0, 5)}});
            if (r.chance(30)) p.push_back(Step{"flush"});
            bool rd = p.back().op == "arm" && p.back().arg(1) > 5;
            if (rd && r.chance(70))
                p.push_back(r.chance(50) ? Step{"r", {b, key()}} : r.chance(50) ? Step{"it", {b, key(), r.in(0, 1), r.in(2, 5), 0}} : Step{"reopen"});
            else
            p.push_back(r.chance(50) ? Step{"w", {b, key(), r.in(1, 1 << 30)}} : Step{"batch", {b, r.in(0, 5), r.in(1, 1 << 30)}});
            if (r.chance(40)) p.push_back(Step{"jobs", {-1}});
            if (r.chance(40)) p.push_back(Step{"crash"});
        } else if ((x -= m.api) < 0) {
            static const char* k[] = {"apiw", "apir", "apii"};
            int which = int(r.below(3));
            p.push_back(Step{k[which], {r.small(4), r.in(0, 8)}});
            p.push_back(which == 0 && m.branch && r.chance(25) ? Step{"branch", {r.in(1, 1 << 30)}}
                        : which == 0 ? Step{"batch", {b, r.in(0, 5), r.in(1, 1 << 30)}}
                                   : which == 1 ? Step{"r", {b, key()}}
                                                : Step{"it", {b, key(), r.in(0, 1), r.in(2, 5), 0}});
        } else if ((x -= m.jw) < 0) {
            i64 k = key();
            i64 more = r.chance(3) ? r.in(8, 40) : 1;  // many changes of one record
            while (more-- > 0) p.push_back(Step{"jw", {b, k, r.in(1, 1 << 30)}});
        } else if ((x -= m.jr) < 0)
            p.push_back(Step{"jr", {key(), r.chance(25)}});
        else if ((x -= m.jit) < 0)
            p.push_back(Step{"jit", {r.chance(60) ? key() : r.in(0, NOBJ * NFORM - 1), r.in(0, 1), r.in(0, 5), r.in(0, 3), r.in(0, 3)}});
        else if ((x -= m.jend) < 0)
            p.push_back(Step{"jend", {r.chance(75)}});
        else if ((x -= m.branch) < 0)
            p.push_back(Step{"branch", {r.in(1, 1 << 30)}});
        else
            p.push_back(Step{"drop", {r.in(0, 3)}});
    }
    return p;
}

const char* STUBS =
    "real: db/rocks_store.cc, db/key.*, rdt/*, ron/*, RocksDB 8.9 (its WAL, memtables, SSTs, manifest, "
    "recovery, flush and compaction code); simulated: disk, directory, file locks, clock, background-job "
    "scheduling, crashes, power";

void add(const char* name, const char* prop, const char* what, Mix m, int lo, int hi, unsigned forms = 127) {
    World w;
    w.name = name;
    w.property = prop;
    w.what = what;
    w.gen = [=](Rng& r) { return gen_mix(r, m, lo, hi, forms); };
    w.exec = exec;
    w.stubs = STUBS;
    worlds().push_back(w);
}

struct Init {
    Init() {
        //                                               w  ba r  it al fl co jo re rp cr po arm api br dr
        add("store_durable", "C01", "process crashes at any I/O", Mix{30, 8, 8, 3, 2, 5, 2, 6, 3, 0, 6, 0, 8, 0, 2, 1}, 10, 45);
        add("store_power", "C02", "power loss, torn tails", Mix{22, 20, 4, 2, 1, 5, 2, 6, 2, 0, 2, 6, 3, 0, 2, 1}, 10, 45);
        add("store_reduce", "C03", "background work in any order, no faults", Mix{40, 8, 14, 6, 2, 9, 5, 9, 3, 0, 0, 0, 0, 0, 2, 0}, 15, 70);
        add("store_iter", "C04", "scans under background work", Mix{30, 10, 2, 30, 4, 6, 3, 8, 2, 0, 0, 0, 0, 0, 2, 1}, 12, 50);
        add("store_branch", "C05", "branches created and dropped", Mix{30, 8, 6, 4, 4, 5, 3, 6, 5, 0, 3, 0, 4, 0, 8, 5}, 12, 50);
        add("store_errors", "C06", "disk and API errors", Mix{26, 8, 10, 8, 2, 5, 2, 6, 3, 0, 2, 0, 8, 10, 2, 1}, 12, 50);
        add("store_repair", "C07", "repair after crashes", Mix{30, 8, 4, 2, 2, 6, 3, 6, 3, 6, 4, 0, 0, 0, 3, 0}, 10, 40);
        add("store_join", "C21", "unsaved writes laid over the disk", Mix{14, 4, 2, 2, 1, 5, 2, 6, 1, 0, 2, 0, 2, 3, 1, 1, 24, 12, 20, 5}, 15, 60);
    }
} init;

}  // namespace
}  // namespace sim
