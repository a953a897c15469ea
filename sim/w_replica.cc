// Worlds over Replica (db/replica.*): several machines, each with its own disk,
// clock and process running a real Replica over a real RocksDBStore. They edit,
// merge and exchange frames over a network that loses, repeats, delays, reorders
// and regroups them; the processes crash, the disks fail, the clocks jump.
#include <algorithm>
#include <iostream>
#include <sstream>
#include "db/replica.hpp"
#include "ronutil.hpp"
#include "simfs.hpp"

int swarmdb_main(int argn, char** args);  // db/main.cc

namespace sim {
namespace {

using RStore = ron::RocksDBStore<RFrame>;
using Rep = ron::Replica<RStore>;
using Commit = Rep::Commit;
using ron::Key;
using ron::Status;
using ron::Word;

constexpr u64 NEVER64 = 63ULL << 54;
U branch_uuid(u64 yarn) { return U{NEVER64, (F_TIME << 60) | yarn}; }
u64 pl(u64 o) { return o & PAYLOAD; }
int ver(const U& u) { return int(u.o >> 60) & 3; }

const char* RDTS[] = {"lww", "rga", "mx", "max", "yarn"};
ron::FORM form_of(const string& n) {
    if (n == "lww") return ron::LWW_RDT_FORM;
    if (n == "rga") return ron::RGA_RDT_FORM;
    if (n == "mx") return ron::MX_RDT_FORM;
    if (n == "max") return ron::MAX_RDT_FORM;
    return ron::YARN_RAW_FORM;
}
/** the RDT named by the ref, "" if none */
string rdt_of(const U& ref) {
    for (auto n : RDTS)
        if (ref == name_id(n)) return n;
    return "";
}

//  T H E  R E F E R E N C E  M O D E L

struct OpI {
    MOp op;
    U obj;
    string rdt;
    ron::SHA2 hash;
};
/** the hash of an op as the protocol has it, computed here from scratch:
    SHA-512/256 of the id, the hash of the author's previous op, the ref, the
    hash of the referenced op and the values, big-endian */
ron::SHA2 hash_bytes(const string& bytes) {
    Botan::SHA_512_256 sha;
    sha.update(reinterpret_cast<const uint8_t*>(bytes.data()), bytes.size());
    ron::SHA2 ret;
    ret.known_bits_ = 256;
    ret.bits_.assign(32, '\0');
    sha.final(reinterpret_cast<uint8_t*>(&ret.bits_[0]));
    return ret;
}
void put_be(string& to, u64 w) {
    for (int b = 56; b >= 0; b -= 8) to.push_back(char(w >> b & 0xff));
}
void put_pair(string& to, u64 a, u64 b) {
    put_be(to, a);
    put_be(to, b);
}
ron::SHA2 hash_bytes_zero() {
    ron::SHA2 ret;
    ret.bits_.assign(32, '\0');
    return ret;
}
ron::SHA2 hash_id(const U& id) {
    string in;
    put_pair(in, id.v, id.o);
    return hash_bytes(in);
}
ron::SHA2 hash_op(const MOp& op, const ron::SHA2& prev, const ron::SHA2& ref) {
    string in;
    put_pair(in, op.id.v, op.id.o);
    in += prev.bits_;
    put_pair(in, op.ref.v, op.ref.o);
    in += ref.bits_;
    for (auto& v : op.vals) {
        u64 bits = 0;
        switch (v.t) {
            case ron::UUID: put_pair(in, v.u.v, v.u.o); break;
            case ron::INT: put_pair(in, u64(v.i), 1ULL << 62); break;
            case ron::FLOAT:
                memcpy(&bits, &v.f, sizeof(bits));
                put_pair(in, bits, 3ULL << 62);
                break;
            default:
                for (unsigned char c : v.s) bits += (c & 0xc0) != 0x80;
                put_pair(in, bits << 32, 2ULL << 62);
                in += v.s;
        }
    }
    return hash_bytes(in);
}

/** the same by the code under test */
ron::SHA2 repo_hash(const MOp& op, const ron::SHA2& prev, const ron::SHA2& ref) {
    RFrame f = frame_of({op});
    RCursor c{f};
    if (!c.Next()) fail("harness", "an op does not parse: " + op.str());
    return ron::SHA2::OpMerkleHash(c, prev, ref);
}

enum Kind { OP, NAME, COMMENT, BAD };
struct Item {
    Kind kind = OP;
    MOp op;
    string text;  // BAD: raw text
    bool own = false;
};
using Items = std::vector<Item>;

/** what a branch must hold */
struct Br {
    u64 yarn = 0;
    U tip;
    Ops arrival;
    std::map<U, OpI> ops;
    std::map<u64, U> last;           // yarn -> its tip
    std::map<U, std::vector<U>> log;  // object -> its ops as they came
    std::vector<std::pair<U, U>> names;

    bool has(const U& id) const { return ops.count(id) != 0; }
    U root() const {  // of the own yarn
        for (auto& o : arrival)
            if (pl(o.id.o) == yarn && o.ref == name_id("yarn")) return o.id;
        return U{};
    }

    void add(const MOp& op) {
        OpI i;
        i.op = op;
        u64 y = pl(op.id.o);
        auto l = last.find(y);
        ron::SHA2 prev = l == last.end() ? hash_bytes_zero() : ops.at(l->second).hash;
        if (ver(op.ref) == int(F_NAME)) {
            i.obj = op.id;
            i.rdt = rdt_of(op.ref);
            i.hash = hash_op(op, prev, hash_id(op.ref));
        } else {
            const OpI& r = ops.at(op.ref);
            i.obj = r.obj;
            i.rdt = r.rdt;
            i.hash = hash_op(op, prev, r.hash);
        }
        last[y] = op.id;
        log[i.obj].push_back(op.id);
        arrival.push_back(op);
        ops[op.id] = i;
    }
    /** the rules an incoming op has to comply with; "" if it does */
    string why_not(const MOp& op) const {
        if (ver(op.id) != int(F_TIME)) return "not an event";
        if (op.id.v >= NEVER64) return "timestamped NEVER";
        if (pl(op.id.o) == 0) return "no origin";
        auto l = last.find(pl(op.id.o));
        if (ver(op.ref) == int(F_NAME)) {
            if (rdt_of(op.ref).empty()) return "not a data type";
            if (rdt_of(op.ref) == "yarn") return l == last.end() ? "" : "a duplicate yarn";
        } else if (ver(op.ref) == int(F_TIME)) {
            if (op.ref.v > op.id.v || (op.ref.v == op.id.v && op.ref.o >= op.id.o)) return "references the future";
            if (!has(op.ref)) return "references the unknown";
        } else {
            return "a strange reference";
        }
        if (l == last.end()) return "an unknown yarn";
        if (!(l->second < op.id)) return "a repeat or a reordering";
        return "";
    }
    /** all or nothing; "" if all */
    string apply(const Items& items) {
        U at = tip;
        Br c = *this;
        for (auto& i : items) {
            switch (i.kind) {
                case COMMENT: break;
                case BAD: return "garbage: " + i.text;
                case NAME: c.names.emplace_back(i.op.vals.at(0).u, at); break;
                case OP:
                    string no = c.why_not(i.op);
                    if (!no.empty()) return no + ": " + i.op.str();
                    c.add(i.op);
                    at = i.op.id;
            }
        }
        if (at != tip && (pl(at.o) != yarn || at.v < tip.v)) return "a foreign tip: " + ustr(at);
        c.tip = at;
        *this = std::move(c);
        return "";
    }
    Ops ops_of(const std::vector<U>& ids) const {
        Ops r;
        for (auto& i : ids) r.push_back(ops.at(i).op);
        return r;
    }
    static Ops state_of(const string& rdt, const U& obj, const Ops& ops) {
        if (rdt == "rga") return ct_order(ops);
        if (rdt == "max") return max_order(ops, obj);
        return id_order(ops);
    }
    Ops state(const U& obj) const { return state_of(ops.at(obj).rdt, obj, ops_of(log.at(obj))); }
    U max_id() const {
        U m;
        for (auto& l : last) m = std::max(m, l.second);
        return m;
    }
    u64 digest() const {
        u64 h = hstr(ustr(tip));
        for (auto& l : last) h = hstr(ops.at(l.second).hash.base64(), h);
        for (auto& n : names) h = hstr(ustr(n.first) + ustr(n.second), h);
        return h;
    }
};

struct Msg {
    size_t from = 0, to = 0, a = 0, b = 0;  // ops [a, b) of the sender's branch
};

enum Exp { MUST_OK, MUST_REFUSE, EITHER };

struct N {
    Node node;
    std::unique_ptr<Rep> rep;
    std::map<u64, Br> br;
    u64 own = 0;
    U active;
    U seen;        // a lower bound for what Now() has to exceed
    u64 shown = 0;  // an upper bound for the timestamps it was shown
    bool armed = false;
    int api = -1;  // a database call of the next operation fails: a write, a read, an iterator move
    i64 api_n = 0;
    int api_error = 0;
    std::map<size_t, size_t> sent;  // link cursor, by receiver
    std::map<u64, std::vector<Br>> hist;  // since the last restart (power loss)
    std::map<u64, U> fork_of;
    std::set<u64> born;  // branches created since the last restart
};

struct Sim {
    std::vector<std::unique_ptr<N>> nodes;
    std::vector<Msg> net;
    bool lossy = false;  // power losses are in the plan: keep the history
    bool wild = false;   // random notations
    size_t max_branches = 5;
    u64 next_yarn = name64("fork");
    u64 junk = 0;  // a branch of no known content
    i64 step_us = global_us;  // when the current step has started
    std::set<u64> used;  // yarns

    ~Sim() {
        fs_trace = false;
        for (auto& n : nodes) {
            NodeScope s{n->node};
            n->rep.reset();
        }
        cur = nullptr;
    }

    //  C O M P A R I S O N

    static bool scan(N& x, u64 yarn, std::map<std::pair<int, U>, Ops>& db, string& err) {
        RStore& st = x.rep->GetStore(R_(branch_uuid(yarn)));
        Rep::StoreIterator it{st};
        Status ok = it.SeekTo(Key{});
        if (!ok) {
            err = "can't scan: " + ok.str();
            return false;
        }
        while (it.key() != Key::END) {
            Ops got;
            string e, text = it.value().data().str();
            U id = U_(it.key().id());
            if (!read_frame(got, text, &e)) {
                err = "unparseable record of " + ustr(id) + ": " + esc(text);
                return false;
            }
            if (!db.emplace(std::make_pair(int(it.key().form()), id), got).second) {
                err = "a key is listed twice";
                return false;
            }
            ok = it.Next();
            if (!ok && ok != Status::ENDOFINPUT) {
                err = "can't scan: " + ok.str();
                return false;
            }
        }
        return true;
    }
    /** is this a proper log of the ops: all there, each once, causes first? */
    static string diff_log(const Br& b, const std::vector<U>& want, const Ops& got) {
        std::set<U> seen, all{want.begin(), want.end()};
        std::map<u64, U> last;
        for (auto& o : got) {
            if (!all.count(o.id)) return "an extra op " + o.str();
            if (b.ops.at(o.id).op != o) return "a changed op " + o.str() + ", was " + b.ops.at(o.id).op.str();
            if (!seen.insert(o.id).second) return "a repeated op " + o.str();
            if (ver(o.ref) == int(F_TIME) && !seen.count(o.ref)) return "not in the causal order " + o.str();
            U& l = last[pl(o.id.o)];
            if (o.id < l) return "not in the causal order " + o.str();
            l = o.id;
        }
        if (seen.size() != all.size()) return "ops missing";
        return "";
    }
    /** "" if the branch holds exactly what the model says */
    static string diff(N& x, u64 yarn, const Br& b) {
        // no faults while looking
        std::vector<Armed> armed;
        armed.swap(x.node.disk.armed);
        bool f = x.node.want_flush, c = x.node.want_compact;
        x.node.want_flush = x.node.want_compact = false;
        string d = diff_(x, yarn, b);
        armed.swap(x.node.disk.armed);
        x.node.want_flush = f;
        x.node.want_compact = c;
        return d;
    }
    static string diff_(N& x, u64 yarn, const Br& b) {
        if (!x.rep->HasBranch(Word{yarn})) return "no such branch";
        std::map<std::pair<int, U>, Ops> db;
        string err;
        if (!scan(x, yarn, db, err)) return err;
        std::set<std::pair<int, U>> seen;
        std::set<u64> heads;
        for (auto& r : db) {
            int form = r.first.first;
            U id = r.first.second;
            seen.insert(r.first);
            string at = "record " + std::to_string(form) + "/" + ustr(id) + ": ";
            if (form == ron::ZERO_RAW_FORM) {
                if (id.v || pl(id.o)) return at + "unexpected";
                if (r.second.size() != 1 || r.second[0].id != b.tip)
                    return at + "the tip is " + show(r.second) + " not " + ustr(b.tip);
            } else if (form == ron::LWW_RDT_FORM && id.v == 0 && pl(id.o) == 0) {
                std::vector<std::pair<U, U>> names;
                for (auto& o : r.second) {
                    if (o.vals.size() != 2) return at + "not a name " + o.str();
                    names.emplace_back(o.vals[0].u, o.vals[1].u);
                }
                if (names != b.names) return at + "wrong names " + show(r.second);
            } else if (form == ron::META_META_FORM) {
                if (!b.has(id)) return at + "of an op that is not there";
                heads.insert(pl(id.o));
                const OpI& o = b.ops.at(id);
                if (r.second.size() != 1 || r.second[0].vals.size() != 3 || r.second[0].vals[0].u != o.obj ||
                    r.second[0].vals[1].u != name_id(o.rdt.c_str()) || r.second[0].vals[2].s != string(o.hash.base64()))
                    return at + "wrong " + show(r.second) + ", want hash " + string(o.hash.base64());
            } else if (form == ron::LOG_RAW_FORM) {
                auto l = b.log.find(id);
                if (l == b.log.end()) return at + "a log of an unknown object";
                string d = diff_log(b, l->second, r.second);
                if (!d.empty()) return at + "bad log: " + d + " in " + show(r.second);
            } else {
                auto l = b.log.find(id);
                if (l == b.log.end() || form_of(b.ops.at(id).rdt) != form) return at + "of an unknown object";
                Ops want = b.state(id);
                if (r.second != want) return at + "wrong state\n   got  " + show(r.second) + "\n   want " + show(want);
            }
        }
        for (auto& l : b.log) {
            if (!seen.count({int(ron::LOG_RAW_FORM), l.first})) return "no log of " + ustr(l.first);
            if (!seen.count({int(form_of(b.ops.at(l.first).rdt)), l.first})) return "no state of " + ustr(l.first);
        }
        for (auto& l : b.last)
            if (!heads.count(l.first)) return "no op meta of the yarn " + word64(l.first);
        if (!b.names.empty() && !seen.count({int(ron::LWW_RDT_FORM), time_id(0, 0)})) return "no names";
        if (!seen.count({int(ron::ZERO_RAW_FORM), time_id(0, 0)})) return "no tip record";
        U tip = U_(x.rep->GetStore(R_(branch_uuid(yarn))).tip);
        if (tip != b.tip) return "the cached tip is " + ustr(tip) + " not " + ustr(b.tip);
        return "";
    }
    static string klass(const string& d) {
        if (d.find("wrong state") != string::npos) return "wrong-state";
        if (d.find("hash") != string::npos) return "wrong-hash";
        if (d.find("names") != string::npos) return "wrong-names";
        if (d.find("tip") != string::npos) return "wrong-tip";
        if (d.find("log") != string::npos) return "wrong-log";
        return "wrong-content";
    }
    void expect(size_t n, u64 yarn, const string& why, const string& cls = "") {
        N& x = *nodes[n];
        string d = diff(x, yarn, x.br.at(yarn));
        if (!d.empty())
            fail(cls.empty() ? klass(d) : cls, why + ": node " + std::to_string(n) + " branch " + word64(yarn) + ": " + d);
        cx->state(x.br.at(yarn).digest());
    }

    //  L I F E C Y C L E

    void see(N& x, const U& id) {
        if (x.seen.v < id.v) x.seen = id;
        x.shown = std::max(x.shown, id.v);
    }
    void seen_by_tips(N& x) {
        x.seen = U{};
        for (auto& b : x.br) see(x, b.second.tip);
    }
    void note(N& x, u64 yarn) {
        if (lossy) x.hist[yarn].push_back(x.br.at(yarn));
    }

    /** what a branch could be like after a failure */
    struct Cands {
        bool absent = false;
        std::vector<std::function<Br(const U& tip)>> is;
    };
    /** the process is restarted; the branches in `unsure` could be in either condition */
    void restart(size_t n, const string& why, std::map<u64, Cands> unsure = {}, bool active_unsure = false, U active2 = U{}) {
        N& x = *nodes[n];
        NodeScope s{x.node};
        x.rep.reset();
        disarm(x.node);
        x.armed = false;
        x.node.want_flush = x.node.want_compact = false;
        x.node.disk.restart();
        x.rep.reset(new Rep{});
        Status ok = x.rep->Open();
        if (!ok) fail("cant-open", why + ": node " + std::to_string(n) + ": " + ok.str());
        ron::Uuids list;
        x.rep->ListStores(list);
        std::set<U> have;
        for (auto& u : list) have.insert(U_(u));
        if (!have.count(U{})) fail("cant-open", why + ": no metadata store");
        for (auto& b : x.br)
            if (!unsure.count(b.first) && !have.count(branch_uuid(b.first)))
                fail("branch-lost", why + ": no branch " + word64(b.first));
        for (auto& u : have)
            if (u != U{} && !x.br.count(pl(u.o)) && !unsure.count(pl(u.o)) && (!junk || pl(u.o) != junk))
                fail("branch-phantom", why + ": a branch from nowhere " + ustr(u));
        for (auto& c : unsure) {
            if (!have.count(branch_uuid(c.first))) {
                if (!c.second.absent) fail("branch-lost", why + ": no branch " + word64(c.first));
                cx->probe("after_failure.branch_absent");
                x.br.erase(c.first);
                continue;
            }
            U tip = U_(x.rep->GetStore(R_(branch_uuid(c.first))).tip);
            string ds;
            bool done = false;
            size_t k = 0;
            for (auto& mk : c.second.is) {
                Br b = mk(tip);
                ++k;
                if (b.yarn == 0) continue;  // impossible
                string d = diff(x, c.first, b);
                if (d.empty()) {
                    x.br[c.first] = b;
                    done = true;
                    break;
                }
                ds += "\n  not #" + std::to_string(k) + ": " + d;
            }
            if (!done)
                fail("torn-frame", why + ": node " + std::to_string(n) + " branch " + word64(c.first) +
                                       " is neither what it was nor what it should have become" + ds);
            cx->probe("after_failure.choice" + std::to_string(k));
        }
        U act = U_(x.rep->active_store());
        if (active_unsure) {
            if (act != x.active && act != active2)
                fail("active-lost", why + ": the active branch is " + ustr(act) + " neither " + ustr(x.active) + " nor " + ustr(active2));
            x.active = act;
        } else if (act != x.active && !(have.count(x.active) == 0 && act.zero())) {
            fail("active-lost", why + ": the active branch is " + ustr(act) + " not " + ustr(x.active));
        }
        if (!have.count(x.active)) x.active = U{};
        seen_by_tips(x);
        x.hist.clear();
        x.born.clear();
        for (auto& b : x.br) {
            expect(n, b.first, why);
            note(x, b.first);
        }
    }

    void boot(size_t n, bool faults, u64 seed) {
        N& x = *nodes[n];
        NodeScope s{x.node};
        if (faults) {
            Rng r{seed};
            i64 how = r.in(0, 9);
            if (how < 4)
                arm(x.node, IO_WRITES, F_CRASH + int(r.below(3)), r.in(0, 30), r.in(0, 3000), 1, "");
            else if (how < 7)
                arm(x.node, r.chance(30) ? IO_ANY : IO_WRITES, int(r.below(3)), r.in(0, 60), r.in(0, 3000), 1, "");
            else {
                x.node.api_error = int(r.below(9));
                (how == 7 ? x.node.api_fail_write : how == 8 ? x.node.api_fail_read : x.node.api_fail_iter) = r.small(8);
            }
            x.armed = true;
        }
        Status ok = Rep::CreateReplica();
        x.node.api_fail_write = x.node.api_fail_read = x.node.api_fail_iter = -1;
        cx->ev("create " + ok.str());
        if (ok && !x.node.disk.down) {
            disarm(x.node);
            x.armed = false;
        } else {
            if (!faults) fail("spurious-error", "CreateReplica: " + ok.str());
            cx->probe("create.failed");
            disarm(x.node);
            x.armed = false;
            if (x.node.disk.down) x.node.disk.restart();
            else cx->probe("create.failed_alive");
            Rep probe;
            Status op = probe.Open();
            if (!op) {
                cx->probe("create.retried");
                probe.Close();
                Status again = Rep::CreateReplica();
                if (!again) fail("cant-create", "a failed creation can not be retried: " + again.str());
            }
        }
        x.rep.reset(new Rep{});
        ok = x.rep->Open();
        if (!ok) fail("cant-open", "a new replica: " + ok.str());
        x.active = U_(x.rep->active_store());
        if (!x.active.zero()) fail("active-lost", "a new replica has an active branch");
    }

    //  D A T A B A S E   E R R O R S

    struct Api {
        N& x;
        bool on;
        Api(N& x_) : x(x_), on(x_.api >= 0) {
            if (!on) return;
            *at() = x.api_n;
            x.node.api_error = x.api_error;
        }
        i64* at() { return x.api == 0 ? &x.node.api_fail_write : x.api == 1 ? &x.node.api_fail_read : &x.node.api_fail_iter; }
        /** no more faults; @return there was one */
        bool off() {
            if (!on) return false;
            bool fired = *at() < 0;
            x.node.api_fail_write = x.node.api_fail_read = x.node.api_fail_iter = -1;
            x.api = -1;
            on = false;
            return fired;
        }
        ~Api() { off(); }
    };

    //  F R A M E S

    /** the process calls ReceiveFrame() */
    bool receive(size_t n, u64 yarn, const string& text, Exp exp, const std::function<Br(const U&)>& after, const string& what, RFrame* response = nullptr) {
        N& x = *nodes[n];
        NodeScope s{x.node};
        Br before = x.br.at(yarn);
        Status ok;
        Api api{x};
        {
            RBuilder b;
            ok = x.rep->ReceiveFrame(b, RFrame{text}, Word{yarn});
            if (response) *response = b.Release();
        }
        bool dberr = api.off();
        bool down = x.node.disk.down;
        cx->ev(what + " at " + std::to_string(n) + "/" + word64(yarn) + (ok ? " ok" : " no ") + (ok ? "" : ok.str()) + " " + text);
        if (down || (!ok && x.armed)) {
            cx->probe(down ? "frame.interrupted_by_crash" : "frame.failed_on_io");
            Cands c;
            c.is.push_back([=](const U&) { return before; });
            if (exp != MUST_REFUSE) c.is.push_back(after);
            std::map<u64, Cands> m;
            m[yarn] = c;
            restart(n, "after a failure in " + what, m);
            return false;
        }
        if (!ok && dberr) {  // nothing is done; the process goes on and tries again
            cx->probe("frame.failed_on_database_error");
            expect(n, yarn, what + " (failed: " + ok.str() + ")", "refused-left-trace");
            if (response) return false;
            return receive(n, yarn, text, exp, after, what + ", once again");
        }
        if (ok) {
            if (exp == MUST_REFUSE) fail("accepted-bad", what + ": a frame that breaks the rules is accepted: " + esc(text));
            U tip = U_(x.rep->GetStore(R_(branch_uuid(yarn))).tip);
            x.br[yarn] = after(tip);
            if (x.br[yarn].yarn == 0)
                fail("wrong-tip", what + ": the frame is accepted, but the tip is " + ustr(tip) + " (was " + ustr(before.tip) + "): " + esc(text));
            note(x, yarn);
        } else {
            cx->probe("frame.refused");
            if (exp == MUST_OK) fail("refused-good", what + ": a valid frame is refused: " + ok.str() + ": " + esc(text));
        }
        expect(n, yarn, what + (ok ? " (accepted)" : " (refused: " + ok.str() + ")") + " " + esc(text), ok ? "" : "refused-left-trace");
        return bool(ok);
    }
    string render(const Items& items, Rng& r) {
        string t;
        if (wild && r.chance(75)) {
            U prev;
            Ops ops;
            auto out = [&] {
                t += render_wild(ops, r, prev);
                ops.clear();
            };
            for (auto& i : items) {
                if (i.kind == OP) {
                    ops.push_back(i.op);
                    continue;
                }
                out();
                if (i.kind == BAD) {
                    t += i.text + (i.text.empty() ? "" : ";");
                    prev = U{~0ULL, ~0ULL};  // whatever it reads as
                    continue;
                }
                MOp m;
                m.id = name_id(i.kind == NAME ? "name" : "~");
                m.vals = i.kind == NAME ? i.op.vals : std::vector<Val>{Val::S(i.text)};
                t += render_wild({m}, r, prev);
            }
            out();
            if (r.chance(30)) t += ".\n";
            cx->probe("wild_notation");
            return t;
        }
        int how = int(r.below(4));
        bool plain = true;
        for (auto& i : items) plain = plain && i.kind == OP;
        if (how == 0 && plain) {  // through the builder: spans, compressed ids
            Ops ops;
            for (auto& i : items) ops.push_back(i.op);
            RFrame f = frame_of(ops);
            RCursor c{f};
            RBuilder b;
            while (c.Next()) b.AppendOp(c);
            return b.Release().data();
        }
        for (size_t i = 0; i < items.size(); i++) {
            const Item& m = items[i];
            bool last = i + 1 == items.size();
            string end = last || (how == 1 && r.chance(30)) ? ";" : ",";
            switch (m.kind) {
                case OP: t += m.op.str() + end; break;
                case NAME: t += "@name :0 " + m.op.vals[0].str() + end; break;
                case COMMENT: t += "@~ '" + m.text + "'" + (r.chance(12) ? "!" : r.chance(6) ? "?" : end); break;
                case BAD: t += m.text + (m.text.empty() ? "" : end); break;
            }
            t += how == 2 ? " " : "\n";
        }
        return t;
    }
    std::function<Br(const U&)> becomes(const Br& before, const Items& items, Exp* exp = nullptr) {
        Br after = before;
        string no = after.apply(items);
        if (exp) *exp = no.empty() ? MUST_OK : MUST_REFUSE;
        if (!no.empty()) return [](const U&) { return Br{}; };
        return [after](const U&) { return after; };
    }
    void shown(N& x, const Items& items) {
        for (auto& i : items)
            if (i.kind == OP && ver(i.op.id) == int(F_TIME) && i.op.id.v < NEVER64) x.shown = std::max(x.shown, i.op.id.v);
    }
    bool submit(size_t n, u64 yarn, const Items& items, Rng& r, const string& what) {
        N& x = *nodes[n];
        Exp exp;
        auto after = becomes(x.br.at(yarn), items, &exp);
        if (exp == MUST_OK) {  // a max object op with no value has no meaning
            Br b = after(U{});
            for (auto& i : items)
                if (i.kind == OP && i.op.vals.empty() && b.ops.at(i.op.id).rdt == "max" && b.ops.at(i.op.id).obj != i.op.id) return false;
        }
        if (exp == MUST_REFUSE) cx->probe("frame.must_be_refused");
        bool names = false;
        for (auto& i : items) names = names || i.kind == NAME;
        string text = render(items, r);
        shown(x, items);
        bool ok = receive(n, yarn, text, exp, after, what);
        if (ok) {
            for (auto& i : items)
                if (i.kind == OP) see(x, i.op.id);
            if (names) x.shown += 100;  // a name takes a timestamp
        }
        return ok;
    }

    //  E D I T S

    /** the next timestamp of the branch, by the replica */
    U now(N& x, u64 yarn) {
        U t = U_(x.rep->Now(Word{yarn}));
        check_now(x, t, yarn, "Now()");
        return t;
    }
    void check_now(N& x, const U& t, u64 yarn, const string& where) {
        if (pl(t.o) != yarn || ver(t) != int(F_TIME)) fail("wrong-stamp", where + " gives a stamp of somebody else: " + ustr(t));
        if (!(x.seen.v < t.v))
            fail("stale-stamp", where + " gives " + ustr(t) + " though the replica has already seen " + ustr(x.seen));
        if (t.v >= NEVER64) fail("wrong-stamp", where + " gives " + ustr(t));
        u64 lo = clock64(x, step_us), hi = clock64(x, global_us);
        if (lo > x.shown + 1000 && (t.v < lo || t.v - t.v % (1 << 24) > hi))
            fail("wrong-stamp", where + " gives " + ustr(t) + " which is not the time of the clock, " + word64(lo));
        see(x, t);
    }
    /** calendar time of the node's clock, as specified for RON timestamps */
    static u64 clock64(N& x, i64 us) {
        time_t sec = time_t((us + x.node.clock_us) / 1000000);
        tm t;
        gmtime_r(&sec, &t);
        u64 r = u64(t.tm_year + 1900 - 2010) * 12 + u64(t.tm_mon);
        for (int f : {t.tm_mday - 1, t.tm_hour, t.tm_min, t.tm_sec}) r = (r << 6) | u64(f);
        return r << 24;
    }

    Items edit(N& x, Br b, Rng& r, int chains) {
        Items items;
        bool big = r.chance(3), bulk = r.chance(3);
        if (bulk) chains = int(r.in(1, r.chance(20) ? 40 : 8));
        size_t most = bulk ? size_t(r.in(20, r.chance(15) ? 500 : 120)) : ~size_t(0);  // ops, about
        if (bulk) cx->probe("bulk_edits");
        U id = now(x, b.yarn);
        U top = b.max_id();
        if (id.v <= top.v && r.chance(90)) id.v = top.v + 1;
        if (id.v <= b.tip.v) id.v = b.tip.v + 1;
        auto push = [&](MOp o) {
            Item it;
            it.op = o;
            it.own = true;
            items.push_back(it);
            b.add(o);
            id.v += r.chance(75) ? 1 : 1 + r.below(1 << 14);
        };
        for (int c = 0; c < chains && items.size() < most; c++) {
            if (r.chance(6)) {
                Item it;
                it.kind = COMMENT;
                it.text = "a comment";
                items.push_back(it);
            }
            MOp o;
            o.id = id;
            std::vector<U> objs;
            for (auto& l : b.log)
                if (b.ops.at(l.first).rdt != "yarn" || r.chance(15)) objs.push_back(l.first);
            if (objs.size() < 2 || r.chance(12)) {
                o.ref = name_id(RDTS[r.below(4)]);
                push(o);
                objs.push_back(o.id);
                if (r.chance(30)) continue;
                o.id = id;
            }
            U obj = r.chance(40) ? objs.back() : objs[r.below(objs.size())];
            string rdt = b.ops.at(obj).rdt;
            const auto& ids = b.log.at(obj);
            U at = r.chance(50) ? ids.back() : ids[r.below(ids.size())];
            int n = int(r.small(4)) + 1;
            int longer = bulk && r.chance(50) ? int(r.in(5, 200)) : 0;
            if (longer) n = longer;
            if (rdt == "rga") {
                Ops tree = b.state(obj);
                std::vector<U> e{obj};
                for (auto& t : tree)
                    if (kind_of(t) == V_ENTRY) e.push_back(t.id);
                if (r.chance(80)) at = r.chance(50) ? e.back() : e[r.below(e.size())];
                if (!longer) n = int(r.in(1, 6));
                if (r.chance(25) && at != obj) {
                    for (int i = 0; i < n; i++) {
                        o = MOp{};
                        o.id = id;
                        o.ref = at;
                        o.vals.push_back(Val::Id(name_id(i ? "un" : "rm")));
                        at = o.id;
                        push(o);
                        if (longer && r.chance(90)) continue;
                        if (i && r.chance(60)) break;
                        if (!r.chance(30)) break;
                    }
                    continue;
                }
                for (int i = 0; i < n; i++) {
                    o = MOp{};
                    o.id = id;
                    o.ref = at;
                    o.vals.push_back(Val::S(r.chance(80) ? string(1, char(r.in('a', 'z'))) : gen_text(r, 3, true)));
                    at = o.id;
                    push(o);
                }
                continue;
            }
            for (int i = 0; i < n; i++) {
                o = MOp{};
                o.id = id;
                o.ref = rdt == "max" ? obj : at;
                if (rdt == "lww") {
                    static const char* keys[] = {"a", "b", "key", "longkeyyy"};
                    o.vals.push_back(Val::Id(name_id(longer || r.chance(5) ? ("k" + std::to_string(r.below(60))).c_str() : keys[r.below(4)])));
                    o.vals.push_back(gen_val(r, 6));
                } else if (rdt == "mx") {
                    i64 span = longer ? 300 : r.chance(5) ? 1LL << 40 : 3;
                    o.vals.push_back(Val::I(r.in(0, span)));
                    o.vals.push_back(Val::I(r.in(0, span)));
                    o.vals.push_back(gen_val(r, 6));
                } else if (rdt == "max") {
                    o.vals.push_back(r.chance(70) ? Val::I(r.in(-9, 9)) : gen_val(r, 3));
                } else {
                    for (i64 k = r.chance(2) ? r.in(4, 70) : r.in(0, 3); k > 0; k--) o.vals.push_back(gen_val(r, 6));
                }
                if (big && rdt != "max" && (o.vals.empty() || o.vals.back().t == ron::STRING))
                    o.vals.resize(rdt == "lww" ? 1 : rdt == "mx" ? 2 : 0),
                        o.vals.push_back(Val::S(string(size_t(r.in(1, r.chance(10) ? 40000 : 2500)), char(r.in('a', 'z')))));
                at = r.chance(80) ? o.id : at;
                push(o);
            }
        }
        if (items.empty() || items.back().kind != OP) {
            MOp o;
            o.id = id;
            o.ref = b.root();
            push(o);
        }
        return items;
    }

    /** ops of another branch, closed by an own op */
    Items merge_items(N& x, const Br& to, const Br& from, Rng& r, size_t max, bool low = false) {
        Items items;
        Br b = to;
        U top;
        for (auto& o : from.arrival) {
            if (b.has(o.id)) continue;
            if (items.size() >= max) break;
            if (!b.why_not(o).empty()) break;
            Item it;
            it.op = o;
            b.add(o);
            items.push_back(it);
            top = std::max(top, o.id);
        }
        if (items.empty()) return items;
        Item it;
        it.own = true;
        it.op.id = now(x, to.yarn);
        it.op.id.v = std::max(it.op.id.v, std::max(top.v, b.max_id().v) + 1);
        it.op.ref = r.chance(50) ? items.back().op.id : to.tip;
        if (low && r.chance(20)) {  // a stamp behind those of the merged
            it.op.id.v = to.last.at(to.yarn).v + 1 + r.below(3);
            it.op.ref = to.tip;
        }
        if (b.ops.at(it.op.ref).rdt == "max") it.op.ref = b.root();
        items.push_back(it);
        return items;
    }

    u64 pick_branch(N& x, u64 b) {
        // mostly own ones: mirrors get what their owners send
        std::vector<u64> mine;
        for (auto& p : x.br)
            if (p.first == x.own || x.fork_of.count(p.first)) mine.push_back(p.first);
        return mine.empty() ? x.own : mine[b % mine.size()];
    }
    bool alive(N& x, u64 yarn) { return x.br.count(yarn) != 0; }

    void do_edit(size_t n, u64 b, u64 seed) {
        N& x = *nodes[n];
        NodeScope s{x.node};
        Rng r{seed};
        u64 y = pick_branch(x, b);
        if (!alive(x, y)) return;
        Items items = edit(x, x.br.at(y), r, int(r.small(3)) + 1);
        if (r.chance(8)) add_name(x, items, r);
        submit(n, y, items, r, "edit");
    }
    /** changes and queries in one frame: every query sees what precedes it */
    void do_txn(size_t n, u64 b, u64 seed) {
        N& x = *nodes[n];
        NodeScope s{x.node};
        Rng r{seed};
        u64 y = pick_branch(x, b);
        if (!alive(x, y)) return;
        struct Ask {
            int kind;
            U obj, at;
            Ops want;
            std::vector<U> log;
            string text;
            Br then;
        };
        std::vector<Ask> asks;
        Br cur = x.br.at(y);
        Items all;
        string text;
        int parts = int(r.in(1, 4));
        for (int p = 0; p < parts; p++) {
            if (p || r.chance(80)) {
                Items items = edit(x, cur, r, int(r.in(1, 4)));
                if (r.chance(8)) add_name(x, items, r);
                string no = cur.apply(items);
                if (!no.empty()) return;
                for (auto& i : items)
                    if (i.kind == OP && i.op.vals.empty() && cur.ops.at(i.op.id).rdt == "max" && cur.ops.at(i.op.id).obj != i.op.id) return;
                all.insert(all.end(), items.begin(), items.end());
                text += render(items, r);
                if (!text.empty() && text.back() != '\n') text += "\n";
            }
            for (int q = int(r.in(0, 3)); q > 0; q--) {
                std::vector<U> objs, hot;
                for (auto& l : cur.log)
                    if (cur.ops.at(l.first).rdt != "max") objs.push_back(l.first);
                for (auto& i : all)
                    if (i.kind == OP && cur.ops.at(i.op.id).rdt != "max") hot.push_back(cur.ops.at(i.op.id).obj);
                if (objs.empty()) break;
                Ask a;
                a.obj = !hot.empty() && r.chance(80) ? hot[r.below(hot.size())] : objs[r.below(objs.size())];
                string rdt = cur.ops.at(a.obj).rdt;
                a.then = cur;
                a.log = cur.log.at(a.obj);
                a.kind = int(r.below(4));
                if (a.kind == 3 && rdt != "rga") a.kind = 0;
                switch (a.kind) {
                    case 0:
                    case 1:
                        a.kind = 0;
                        a.want = cur.state(a.obj);
                        text += "@" + ustr(a.obj) + " :" + rdt + " ?\n";
                        break;
                    case 2:
                        a.at = a.obj;
                        text += "@" + ustr(a.obj) + " :log ?\n";
                        break;
                    case 3: {
                        Ops tree = cur.state(a.obj);
                        auto vis = visible(tree);
                        for (auto& o : tree)
                            if (vis.count(o.id) && !o.vals.empty() && o.vals[0].t == ron::STRING) a.text += o.vals[0].s;
                        text += "@" + ustr(U{a.obj.v, pl(a.obj.o) | (F_DERIVED << 60)}) + " :txt ?\n";
                        break;
                    }
                }
                asks.push_back(a);
            }
        }
        shown(x, all);
        bool names = false;
        for (auto& i : all) names = names || i.kind == NAME;
        Br after = cur;
        RFrame resp;
        if (!receive(n, y, text, MUST_OK, [after](const U&) { return after; }, "a frame of writes and queries", &resp)) return;
        cx->probe("frame.with_queries", !asks.empty());
        for (auto& i : all)
            if (i.kind == OP) see(x, i.op.id);
        if (names) x.shown += 100;
        string where = "queries in a frame at " + std::to_string(n) + "/" + word64(y) + " " + esc(text) + ": ";
        Ops got = parse(resp, where);
        size_t at = 0;
        for (auto& a : asks) {
            size_t len = a.kind == 0 ? a.want.size() : a.kind == 2 ? a.log.size() : 1;
            Ops part;
            for (; len && at < got.size(); len--) part.push_back(got[at++]);
            if (a.kind == 0 && part != a.want)
                fail("wrong-state", where + "object " + ustr(a.obj) + "\n  got  " + show(part) + "\n  want " + show(a.want) + "\n all " + show(got));
            if (a.kind == 2) {
                string d = diff_log(a.then, a.log, part);
                if (!d.empty()) fail("wrong-log", where + "object " + ustr(a.obj) + ": " + d + " in " + show(part));
            }
            if (a.kind == 3 && (part.size() != 1 || part[0].vals.size() > 1 || (part[0].vals.empty() ? "" : part[0].vals[0].s) != a.text))
                fail("wrong-text", where + "the text is " + show(part) + " not " + esc(a.text));
        }
        if (at != got.size()) fail("wrong-state", where + "an answer to nothing: " + show(got));
    }
    void add_name(N&, Items& items, Rng& r) {
        static const char* tags[] = {"home", "doc", "x", "todo", "longername"};
        Item it;
        it.kind = NAME;
        it.op.vals.push_back(Val::Id(name_id(tags[r.below(5)])));
        items.push_back(it);
    }
    void do_name(size_t n, u64 b, u64 seed) {
        N& x = *nodes[n];
        NodeScope s{x.node};
        Rng r{seed};
        u64 y = pick_branch(x, b);
        if (!alive(x, y)) return;
        Items items;
        add_name(x, items, r);
        if (r.chance(30)) add_name(x, items, r);
        submit(n, y, items, r, "name");
    }
    void do_merge(size_t n, u64 d, u64 sr, u64 seed) {
        N& x = *nodes[n];
        NodeScope s{x.node};
        Rng r{seed};
        u64 y = pick_branch(x, d);
        if (!alive(x, y) || x.br.size() < 2) return;
        std::vector<u64> src;
        for (auto& p : x.br)
            if (p.first != y) src.push_back(p.first);
        u64 f = src[sr % src.size()];
        Items items = merge_items(x, x.br.at(y), x.br.at(f), r, r.chance(60) ? 1000 : 1 + r.below(8), true);
        if (items.empty()) return;
        if (r.chance(20)) add_name(x, items, r);
        if (submit(n, y, items, r, "merge")) cx->probe("merged_branches");
    }

    //  N E T W O R K

    void ensure_mirror(size_t n, u64 yarn) {
        N& x = *nodes[n];
        if (x.br.count(yarn)) return;
        new_branch(n, yarn, true);
    }
    const Br& stream(size_t n) { return nodes[n]->br.at(nodes[n]->own); }

    void do_send(size_t from, size_t to, u64 seed) {
        if (from == to || nodes.size() < 2) return;
        N& x = *nodes[from];
        if (!alive(x, x.own)) return;
        Rng r{seed};
        const Br& b = stream(from);
        size_t& at = x.sent[to];
        if (at < 1) at = 1;  // all the mirrors have the root
        if (at >= b.arrival.size()) {
            if (r.chance(40)) at = 1 + r.below(b.arrival.size());  // a resend
            while (at > 1 && pl(b.arrival[at - 1].id.o) != x.own) --at;
            if (at >= b.arrival.size()) return;
        }
        std::vector<size_t> cuts;
        for (size_t i = at; i < b.arrival.size(); i++)
            if (pl(b.arrival[i].id.o) == x.own) cuts.push_back(i + 1);
        if (cuts.empty()) return;
        Msg m;
        m.from = from;
        m.to = to;
        m.a = at;
        m.b = cuts[size_t(r.small(i64(cuts.size()) - 1))];
        at = m.b;
        net.push_back(m);
    }
    size_t have_of(size_t to, size_t from) {
        N& x = *nodes[to];
        u64 y = nodes[from]->own;
        if (!x.br.count(y)) return 1;
        return x.br.at(y).arrival.size();
    }
    /** @return delivered */
    bool deliver(const Msg& m, Rng& r, bool must = false) {
        u64 y = nodes[m.from]->own;
        NodeScope s{nodes[m.to]->node};
        ensure_mirror(m.to, y);
        if (!alive(*nodes[m.to], y)) return false;
        const Br& b = stream(m.from);
        Items items;
        for (size_t i = m.a; i < m.b && i < b.arrival.size(); i++) {
            Item it;
            it.op = b.arrival[i];
            items.push_back(it);
        }
        if (items.empty()) return false;
        size_t have = have_of(m.to, m.from);
        Exp exp;
        becomes(nodes[m.to]->br.at(y), items, &exp);
        if (have == m.a) {
            if (exp != MUST_OK) fail("harness", "an in-order frame is not OK");
            submit(m.to, y, items, r, "delivery");
            return true;
        }
        // out of order: a replica can tell only when something is missing or known
        if (exp == MUST_OK) return false;
        cx->fault(m.a < have ? "net.duplicate" : "net.reorder");
        submit(m.to, y, items, r, m.a < have ? "repeated delivery" : "early delivery");
        return m.a < have || !must;
    }
    void do_net(u64 k, u64 what, u64 seed) {
        if (net.empty()) return;
        Rng r{seed};
        size_t i = k % net.size();
        Msg m = net[i];
        switch (what % 8) {
            case 0:
                cx->fault("net.loss");
                net.erase(net.begin() + long(i));
                nodes[m.from]->sent[m.to] = have_of(m.to, m.from);  // will be sent again
                break;
            case 1:
                cx->fault("net.copy");
                net.push_back(m);
                break;
            case 2:
                cx->fault("net.delay");
                global_us += r.in(0, 5000000);
                break;
            default:
                bool early = m.a > have_of(m.to, m.from);
                if (deliver(m, r) && !early) net.erase(net.begin() + long(i));
        }
    }
    /** gets everything delivered; @return frames sent */
    int sync(size_t from, size_t to, Rng& r) {
        int sent = 0;
        while (true) {
            size_t have = have_of(to, from);
            const Br& b = stream(from);
            if (have >= b.arrival.size()) break;
            Msg m;
            m.from = from;
            m.to = to;
            m.a = have;
            std::vector<size_t> cuts;
            for (size_t i = have; i < b.arrival.size(); i++)
                if (pl(b.arrival[i].id.o) == nodes[from]->own) cuts.push_back(i + 1);
            m.b = cuts[size_t(r.below(cuts.size()))];
            deliver(m, r);
            if (have_of(to, from) <= have) fail("no-progress", "a delivery makes no progress");
            ++sent;
        }
        return sent;
    }

    //  B A D  F R A M E S

    void do_bad(size_t n, u64 b, u64 kind, u64 seed) {
        N& x = *nodes[n];
        NodeScope s{x.node};
        Rng r{seed};
        u64 y = pick_branch(x, b);
        if (!alive(x, y)) return;
        const Br& br = x.br.at(y);
        Items items = edit(x, br, r, int(r.in(1, 3)));
        if (r.chance(40) && x.br.size() > 1) {  // foreign ops first
            for (auto& p : x.br)
                if (p.first != y) {
                    Items m = merge_items(x, br, p.second, r, 1 + r.below(6));
                    if (!m.empty()) {
                        u64 d = m.back().op.id.v;
                        for (auto& i : items)
                            if (i.kind == OP && i.op.id.v <= d + 1) d = 0;
                        if (d) {
                            m.pop_back();
                            items.insert(items.begin(), m.begin(), m.end());
                        }
                    }
                    break;
                }
        }
        if (r.chance(20)) add_name(x, items, r);
        std::vector<size_t> ops;
        for (size_t i = 0; i < items.size(); i++)
            if (items[i].kind == OP) ops.push_back(i);
        size_t at = ops[r.below(ops.size())];
        MOp& o = items[at].op;
        auto bad = [&](const string& t) {
            Item it;
            it.kind = BAD;
            it.text = t;
            items.insert(items.begin() + long(r.below(items.size() + 1)), it);
        };
        switch (kind % 18) {
            case 0: o.ref = time_id(br.tip.v - 1 - r.below(5), r.chance(50) ? pl(br.tip.o) : r.next()); break;
            case 1: {  // what is known already
                if (br.arrival.size() < 2) return;
                const MOp& k = br.arrival[r.below(br.arrival.size())];
                Item it;
                it.op = k;
                items.insert(items.begin() + long(r.below(items.size() + 1)), it);
                break;
            }
            case 2:
                if (items.size() < 2) return;
                std::swap(items[at], items[r.below(items.size())]);
                break;
            case 3: {
                Item it;
                it.op.id = time_id(r.chance(50) ? 0 : items.back().op.id.v, y);
                it.op.ref = name_id("yarn");
                items.insert(items.begin() + long(r.below(items.size() + 1)), it);
                break;
            }
            case 4: {  // somebody else's op is the last one
                Item it;
                it.op.id = time_id(items.back().op.id.v + 5, name64("stranger"));
                if (r.chance(50)) it.op.id = time_id(0, name64("stranger"));
                it.op.ref = name_id("yarn");
                items.push_back(it);
                break;
            }
            case 5: bad("@)(:: bad"); break;
            case 6: {
                static const char* t[] = {"foo", "log", "zero", "meta", "txt", "vv", "rm", "unknowntyp"};
                o.ref = name_id(t[r.below(8)]);
                break;
            }
            case 7: o.ref = r.chance(40) ? o.id : time_id(o.id.v + 1 + r.below(9), r.chance(50) ? y : br.tip.o); break;
            case 8:
                o.id.v = NEVER64 + (r.chance(50) ? 0 : r.below(1000));
                break;
            case 9: bad("@notaname :lww 1"); break;
            case 10: o.id.o = (o.id.o & PAYLOAD) | (r.chance(50) ? F_HASH << 60 : F_NAME << 60); break;
            case 11: o.ref.o = (o.ref.o & PAYLOAD) | (F_HASH << 60), o.ref.v |= 1; break;
            case 12: {  // an op annotated with a wrong hash
                Item it;
                it.kind = BAD;
                it.text = "@sha3 :" + ustr(o.id) + " 'KENbA2hZcnTI7b0ebLZn77jNPjHb9mF4dnGmsmsuRPF'";
                items.insert(items.begin() + long(at) + 1, it);
                break;
            }
            case 13: {  // a second root of a known yarn
                auto l = br.last.begin();
                std::advance(l, long(r.below(br.last.size())));
                Item it;
                it.op.id = time_id(r.chance(50) ? r.below(l->second.v + 1) : l->second.v + r.below(3), l->first);
                it.op.ref = name_id("yarn");
                items.insert(items.begin() + long(r.below(items.size() + 1)), it);
                break;
            }
            case 15: {  // a new yarn, stamps an old op's time: good or bad, depending on who is less
                std::vector<const MOp*> c;
                for (auto& k : br.arrival)
                    if (k.id.v > 1 && br.ops.at(k.id).rdt != "max") c.push_back(&k);
                if (c.empty()) return;
                const MOp& k = *c[r.below(c.size())];
                u64 z = r.chance(50) ? gen_yarn(r) : (pl(k.id.o) + (r.chance(50) ? 1 : -1)) & PAYLOAD;
                if (!z || !used.insert(z).second) return;
                Item a, t;
                a.op.id = time_id(r.below(k.id.v), z);
                a.op.ref = name_id("yarn");
                t.op.id = time_id(k.id.v, z);
                t.op.ref = k.id;
                string rdt = br.ops.at(k.id).rdt;
                if (rdt == "rga") t.op.vals = {Val::S("t")};
                else if (rdt != "yarn") t.op.vals = k.vals;
                items.insert(items.begin(), t);
                items.insert(items.begin(), a);
                break;
            }
            case 14: {  // the same timestamp, another yarn: good or bad, depending on who is less
                std::vector<const MOp*> c;
                for (auto& k : br.arrival)
                    if (pl(k.id.o) != y && k.id.v > br.last.at(y).v && br.ops.at(k.id).rdt != "max") c.push_back(&k);
                if (c.empty()) return;
                const MOp& k = *c[r.below(c.size())];
                Item it;
                it.op.id = time_id(k.id.v, y);
                it.op.ref = k.id;
                if (br.ops.at(k.id).rdt == "rga" || br.ops.at(k.id).rdt == "yarn") it.op.vals.clear();
                else it.op.vals = k.vals;
                if (br.ops.at(k.id).rdt == "rga") it.op.vals = {Val::S("t")};
                items = {it};
                break;
            }
            default: {  // torn in the middle or garbled
                string t = render(items, r);
                shown(x, items);
                string cutt = t;
                if (wild && r.chance(70)) {
                    cutt = mutate(t, r);
                    cx->fault("net.mangled_frame");
                } else if (r.chance(60)) {
                    cutt = t.substr(0, r.below(t.size()));
                    cx->fault("net.torn_frame");
                } else {
                    size_t p = r.below(t.size());
                    cutt[p] = char(cutt[p] ^ (1 << r.below(7)));
                    cx->fault("net.garbled_frame");
                }
                raw(n, y, cutt);
                return;
            }
        }
        submit(n, y, items, r, "bad frame");
    }
    /** no frames of a million ops, no timestamps from the far future */
    static bool harmless(N& x, const string& text) {
        Ops ops;
        string err;
        if (!parse_ron(ops, text, &err) && err == "too many ops") return false;
        for (auto& o : ops)
            if (ver(o.id) == int(F_TIME) && o.id.v > x.seen.v + (1ULL << 40) && o.id.v < NEVER64) return false;
        return ops.size() < 1000;
    }
    /** anything at all, to a fork that nobody needs */
    void do_wild(size_t n, u64 b, u64 seed) {
        N& x = *nodes[n];
        NodeScope s{x.node};
        Rng r{seed};
        u64 y = pick_branch(x, b);
        if (!alive(x, y)) return;
        u64 z = gen_yarn(r);
        used.insert(z);
        if (!x.rep->ForkBranch(Word{z}, Word{y})) {
            if (!x.armed && !x.node.disk.down) fail("spurious-error", "ForkBranch");
            restart_unknown(n, z, "after a failure in ForkBranch()");
            drop_junk(x, z);
            return;
        }
        Br zb = x.br.at(y);
        {
            MOp o;
            o.id = zb.tip = U_(x.rep->GetStore(R_(branch_uuid(z))).tip);
            o.ref = name_id("yarn");
            zb.yarn = z;
            zb.add(o);
        }
        see(x, zb.tip);
        for (int i = 0; i < 12; i++) {
            string t;
            if (r.chance(25)) {
                t = gen_wild(r);
            } else {
                const Br& br = zb;
                bool some = r.chance(70);
                if (some) t = render(edit(x, br, r, int(r.in(1, 2))), r);
                if (some && r.chance(20)) {  // an annotation
                    const MOp& o = br.arrival[r.below(br.arrival.size())];
                    t += "@sha3 :" + ustr(r.chance(50) ? o.id : o.ref) + " '" + string(br.ops.at(o.id).hash.base64()) + "';";
                }
                if (!some || r.chance(20)) {  // a query
                    static const char* q[] = {"txt", "rga", "lww", "log", "mx", "yarn", "meta", "vv", "sha3", "map", "csv", "zero", "0"};
                    const MOp& o = br.arrival[r.below(br.arrival.size())];
                    U id = o.id;
                    if (r.chance(50)) id.o = pl(id.o) | F_DERIVED << 60;
                    t += "@" + ustr(id) + " :" + q[r.below(13)] + (r.chance(30) ? " >" + ustr(o.ref) : "") + (r.chance(80) ? "?" : "!");
                }
                if (r.chance(60)) t = mutate(t, r);
            }
            Ops ops, again;
            bool fine = read_frame(ops, t);
            if (fine && ops.size() < 200) {  // rewrite it
                RBuilder bb;
                RCursor c{t};
                while (c.Next()) bb.AppendOp(c);
                string t2 = bb.Release().data();
                if (!read_frame(again, t2) || again != ops) fail("misread", "rewritten as " + esc(t2) + "\n  was " + esc(t));
                cx->probe("rewritten");
            }
            if (!harmless(x, t)) continue;
            cx->fault("net.junk");
            RBuilder resp;
            Status ok = x.rep->ReceiveFrame(resp, RFrame{t}, Word{z});
            cx->ev("junk " + string(ok ? "ok " : "no ") + t);
            cx->probe(ok ? "junk.ok" : "junk.refused");
            for (auto& o : ops)
                if (ver(o.id) == int(F_TIME) && o.id.v < NEVER64) x.shown = std::max(x.shown, o.id.v);
            x.shown += 1000;
            if (x.node.disk.down) break;
            if (ok) {
                Ops ro;
                string rt = resp.Release().data(), err;
                if (!read_frame(ro, rt, &err)) fail("garbage", "the response to " + esc(t) + " is " + esc(rt) + ": " + err);
                U tip = U_(x.rep->GetStore(R_(branch_uuid(z))).tip);
                see(x, tip);
                Items items;
                for (auto& o : ops) {
                    Item it;
                    it.op = o;
                    if (ver(o.id) == int(F_TIME) && pl(o.id.o)) items.push_back(it);
                }
                if (zb.apply(items).empty() && zb.tip == tip) cx->probe("junk.applied", items.size());
                zb.tip = tip;
            }
        }
        if (x.node.disk.down || x.armed) {
            restart_unknown(n, z, "after junk");
        } else {
            if (r.chance(30)) {
                x.node.disk.process_crash();
                restart_unknown(n, z, "after junk and a crash");
            } else {
                junk_ok(x, z);
                expect(n, y, "after junk sent to a fork");
            }
        }
        drop_junk(x, z);
    }
    void drop_junk(N& x, u64 z) {
        if (!x.rep->HasBranch(Word{z})) return;
        Status ok = x.rep->DropBranch(Word{z});
        if (!ok) fail("spurious-error", "DropBranch: " + ok.str());
    }
    void junk_ok(N& x, u64 z) {
        std::map<std::pair<int, U>, Ops> db;
        string err;
        if (!scan(x, z, db, err)) fail("garbage", "after junk: " + err);
        for (auto& p : db)
            for (auto& o : p.second)
                if (ver(o.id) == int(F_TIME) && o.id.v >= NEVER64) fail("accepted-bad", "an op timestamped NEVER is there " + o.str());
        x.shown = std::max(x.shown, clock64(x, global_us));
    }
    /** a restart, with a branch of any content or none */
    void restart_unknown(size_t n, u64 z, const string& why) {
        junk = z;
        restart(n, why);
        junk = 0;
        N& x = *nodes[n];
        if (x.rep->HasBranch(Word{z})) {
            junk_ok(x, z);
            see(x, U_(x.rep->GetStore(R_(branch_uuid(z))).tip));
        }
    }
    /** whatever it reads as, all or nothing */
    void raw(size_t n, u64 y, const string& text) {
        N& x = *nodes[n];
        Ops ops;
        string err;
        Exp exp = MUST_REFUSE;
        Items items;
        bool known = true;
        if (!harmless(x, text)) return;
        if (read_frame(ops, text, &err)) {
            for (auto& o : ops) {
                Item it;
                it.op = o;
                if (ver(o.id) == int(F_NAME) && o.id == name_id("~")) {
                    it.kind = COMMENT;
                } else if (o.id == name_id("name") && o.vals.size() == 1 && o.vals[0].t == ron::UUID && ver(o.vals[0].u) == int(F_NAME)) {
                    it.kind = NAME;
                } else if (ver(o.id) == int(F_DERIVED) || pl(o.id.o) == 0 || ver(o.id) == int(F_NAME)) {
                    known = false;  // queries, unstamped writes, annotations
                }
                if (ver(o.id) == int(F_TIME) && o.id.v > x.seen.v + (1ULL << 40) && o.id.v < NEVER64) known = false;
                items.push_back(it);
            }
            // a max register has no use for ops with no values
            Br b = x.br.at(y);
            b.apply(items);
            for (auto& o : ops)
                if (o.vals.empty() && b.has(o.id) && b.ops.at(o.id).rdt == "max" && b.ops.at(o.id).obj != o.id) known = false;
            if (text.find_first_of("?!") != string::npos) known = false;
            if (!known) return;  // means something else now
            shown(x, items);
        }
        std::function<Br(const U&)> after = [](const U&) { return Br{}; };
        if (err.empty()) {
            if (items.empty()) exp = EITHER;
            after = becomes(x.br.at(y), items, &exp);
            if (exp == MUST_OK) exp = EITHER;
            cx->probe("garbled.parses");
        } else
            cx->probe("garbled.unparseable");
        if (receive(n, y, text, exp, after, "garbled frame"))
            for (auto& i : items)
                if (i.kind == OP) see(x, i.op.id);
    }

    //  U N S T A M P E D  W R I T E S

    void do_unst(size_t n, u64 b, u64 seed) {
        N& x = *nodes[n];
        NodeScope s{x.node};
        Rng r{seed};
        u64 y = pick_branch(x, b);
        if (!alive(x, y)) return;
        Br before = x.br.at(y);
        struct Rel {
            u64 n;
            i64 rel;  // >=0: relative ref
            U ref;
            std::vector<Val> vals;
        };
        std::vector<Rel> rels;
        u64 k = r.below(3);
        int cnt = int(r.in(1, 5));
        string rdt;
        std::vector<U> own;
        for (auto& o : before.arrival)
            if (pl(o.id.o) == y && before.ops.at(o.id).rdt != "max") own.push_back(o.id);
        for (int i = 0; i < cnt; i++) {
            Rel q;
            q.n = k;
            q.rel = -1;
            if (i == 0 && (own.empty() || r.chance(50))) {
                static const char* t[] = {"lww", "rga", "mx"};
                rdt = t[r.below(3)];
                q.ref = name_id(rdt.c_str());
            } else if (i == 0) {
                q.ref = own[r.below(own.size())];
                rdt = before.ops.at(q.ref).rdt;
            } else {
                q.rel = i64(r.chance(70) ? rels.back().n : rels[r.below(rels.size())].n);
            }
            if (i || q.ref.o) {
                if (rdt == "rga")
                    q.vals.push_back(Val::S(gen_text(r, 1, true)));
                else if (rdt == "lww")
                    q.vals = {Val::Id(name_id("k")), gen_val(r, 8)};
                else
                    for (i64 v = r.in(0, 3); v > 0; v--) q.vals.push_back(gen_val(r, 8));
                if (rdt == "rga" && kind_of(MOp{U{}, U{}, q.vals}) == V_ENTRY && q.vals[0].s.empty()) q.vals[0].s = "e";
            }
            rels.push_back(q);
            k += 1 + (r.chance(80) ? 0 : r.below(1000));
        }
        string text;
        for (size_t i = 0; i < rels.size(); i++) {
            MOp o;
            o.id = time_id(rels[i].n, 0);
            o.ref = rels[i].rel >= 0 ? time_id(u64(rels[i].rel), 0) : rels[i].ref;
            o.vals = rels[i].vals;
            text += o.str() + (i + 1 == rels.size() ? ";" : ",") + "\n";
        }
        if (wild && r.chance(70)) {
            Ops ops;
            if (!parse_ron(ops, text)) fail("harness", "unstamped: " + text);
            U prev;
            text = render_wild(ops, r, prev);
        } else if (r.chance(30)) {  // compressed
            RFrame f{text};
            RCursor c{f};
            RBuilder bb;
            while (c.Next()) bb.AppendOp(c);
            text = bb.Release().data();
        }
        auto after = [=](const U& tip) {
            Items items;
            u64 base = tip.v - rels.back().n;
            for (auto& q : rels) {
                Item it;
                it.op.id = time_id(base + q.n, y);
                it.op.ref = q.rel >= 0 ? time_id(base + u64(q.rel), y) : q.ref;
                it.op.vals = q.vals;
                items.push_back(it);
            }
            Br a = before;
            if (tip == before.tip || !a.apply(items).empty()) return Br{};
            return a;
        };
        U was = x.seen;
        if (receive(n, y, text, MUST_OK, after, "unstamped write")) {
            U tip = x.br.at(y).tip;
            U t = time_id(tip.v - rels.back().n, y);
            x.seen = was;
            check_now(x, t, y, "an unstamped write");
            see(x, tip);
        }
    }

    //  B R A N C H E S

    static Br fresh_branch(u64 yarn, const U& root) {
        Br b;
        b.yarn = yarn;
        MOp o;
        o.id = root;
        o.ref = name_id("yarn");
        b.add(o);
        b.tip = root;
        return b;
    }
    void new_branch(size_t n, u64 yarn, bool transcendent) {
        N& x = *nodes[n];
        NodeScope s{x.node};
        used.insert(yarn);
        U was = x.seen;
        Api api{x};
        Status ok = x.rep->CreateBranch(Word{yarn}, transcendent);
        bool dberr = api.off();
        bool down = x.node.disk.down;
        cx->ev("new branch " + word64(yarn) + " at " + std::to_string(n) + " " + (ok ? "ok" : ok.str()));
        bool existed = x.br.count(yarn);
        if (!down && ok) {
            if (existed) fail("accepted-bad", "a branch is created for the second time");
            U tip = U_(x.rep->GetStore(R_(branch_uuid(yarn))).tip);
            if (transcendent) {
                if (tip != time_id(0, yarn)) fail("wrong-stamp", "a transcendent branch starts with " + ustr(tip));
            } else {
                x.seen = was;
                check_now(x, tip, yarn, "CreateBranch()");
            }
            x.br[yarn] = fresh_branch(yarn, tip);
            x.born.insert(yarn);
            note(x, yarn);
            expect(n, yarn, "a new branch");
            return;
        }
        if (existed) {
            if (down || x.armed) restart(n, "after a failure in CreateBranch()");
            return;
        }
        if (!ok && dberr && !down && !x.armed) {
            cx->probe("branch.creation_failed_on_database_error");
            if (x.rep->HasBranch(Word{yarn}))
                fail("branch-phantom", "CreateBranch() fails with " + ok.str() + ", but the branch is listed");
            new_branch(n, yarn, transcendent);
            return;
        }
        if (!down && !x.armed) fail("spurious-error", "CreateBranch: " + ok.str());
        cx->probe("branch.creation_failed");
        Cands c;
        c.absent = true;
        if (down || !ok) c.is.push_back([=](const U& tip) { return pl(tip.o) == yarn ? fresh_branch(yarn, tip) : Br{}; });
        std::map<u64, Cands> m;
        m[yarn] = c;
        if (!down && x.rep->HasBranch(Word{yarn}))
            fail("branch-phantom", "CreateBranch() fails with " + ok.str() + ", but the branch is listed");
        restart(n, "after a failure in CreateBranch()", m);
    }
    void do_newbr(size_t n, u64 seed) {
        N& x = *nodes[n];
        Rng r{seed};
        if (r.chance(20) && !x.br.empty()) {  // exists
            auto i = x.br.begin();
            std::advance(i, long(r.below(x.br.size())));
            new_branch(n, i->first, r.chance(50));
            return;
        }
        if (x.br.size() > max_branches) return;
        u64 y = gen_yarn(r);
        new_branch(n, y, r.chance(50));
        if (x.br.count(y)) x.fork_of[y] = U{};
    }
    u64 gen_yarn(Rng& r) {
        u64 y;
        do {
            y = r.chance(50) ? ++next_yarn : r.chance(50) ? (r.next() & PAYLOAD) : (r.next() & PAYLOAD & ~u64(0xffffffffff));
        } while (y == 0 || used.count(y));
        return y;
    }
    void do_fork(size_t n, u64 b, u64 seed) {
        N& x = *nodes[n];
        NodeScope s{x.node};
        if (x.br.empty() || x.br.size() > max_branches) return;
        Rng r{seed};
        auto i = x.br.begin();
        std::advance(i, long(b % x.br.size()));
        u64 orig = i->first, y = gen_yarn(r);
        if (r.chance(10)) {  // to an existing one
            auto j = x.br.begin();
            std::advance(j, long(r.below(x.br.size())));
            y = j->first;
        } else
            used.insert(y);
        fork(n, orig, y);
    }
    void fork(size_t n, u64 orig, u64 y) {
        N& x = *nodes[n];
        Br from = x.br.at(orig);
        bool existed = x.br.count(y);
        U was = x.seen;
        Api api{x};
        Status ok = x.rep->ForkBranch(Word{y}, Word{orig});
        bool dberr = api.off();
        bool down = x.node.disk.down;
        cx->ev("fork " + word64(orig) + " -> " + word64(y) + " at " + std::to_string(n) + " " + (ok ? "ok" : ok.str()));
        auto made = [=](const U& tip) {
            if (pl(tip.o) != y) return Br{};
            Br f = from;
            f.yarn = y;
            MOp o;
            o.id = tip;
            o.ref = name_id("yarn");
            f.add(o);
            f.tip = tip;
            return f;
        };
        if (!down && ok) {
            if (existed) fail("accepted-bad", "a branch is forked over an existing one");
            U tip = U_(x.rep->GetStore(R_(branch_uuid(y))).tip);
            x.seen = was;
            check_now(x, tip, y, "ForkBranch()");
            x.br[y] = made(tip);
            x.born.insert(y);
            x.fork_of[y] = branch_uuid(orig);
            note(x, y);
            expect(n, y, "a fork");
            expect(n, orig, "a forked branch");
            cx->probe("forks");
            return;
        }
        if (existed) {
            if (down || x.armed)
                restart(n, "after a failure in ForkBranch()");
            else
                expect(n, y, "a refused fork");
            return;
        }
        if (!ok && dberr && !down && !x.armed) {
            cx->probe("fork.failed_on_database_error");
            if (x.rep->HasBranch(Word{y}))
                fail("branch-phantom", "ForkBranch() fails with " + ok.str() + ", but the branch is listed");
            expect(n, orig, "after a failure to fork a branch");
            fork(n, orig, y);
            return;
        }
        if (!down && !x.armed) fail("spurious-error", "ForkBranch: " + ok.str());
        cx->probe("fork.failed");
        if (!down && x.rep->HasBranch(Word{y}))
            fail("branch-phantom", "ForkBranch() fails with " + ok.str() + ", but the branch is listed");
        Cands c;
        c.absent = true;
        c.is.push_back(made);
        std::map<u64, Cands> m;
        m[y] = c;
        restart(n, "after a failure in ForkBranch()", m);
        if (x.br.count(y)) x.fork_of[y] = branch_uuid(orig);
    }
    void do_drop(size_t n, u64 b) {
        N& x = *nodes[n];
        NodeScope s{x.node};
        std::vector<u64> can;
        for (auto& p : x.br)
            if (x.fork_of.count(p.first)) can.push_back(p.first);
        if (can.empty()) return;
        u64 y = can[b % can.size()];
        Br was = x.br.at(y);
        Status ok = x.rep->DropBranch(Word{y});
        bool down = x.node.disk.down;
        cx->ev("drop " + word64(y) + " at " + std::to_string(n) + " " + (ok ? "ok" : ok.str()));
        U act = x.active == branch_uuid(y) ? U{} : x.active;
        if (!down && ok) {
            x.br.erase(y);
            x.hist.erase(y);
            x.active = act;
            if (x.rep->HasBranch(Word{y})) fail("branch-back", "a dropped branch is still listed");
            if (U_(x.rep->active_store()) != act) fail("active-lost", "a drop makes the active branch " + ustr(U_(x.rep->active_store())));
            return;
        }
        if (!down && !x.armed) fail("spurious-error", "DropBranch: " + ok.str());
        Cands c;
        c.absent = true;
        c.is.push_back([=](const U&) { return was; });
        std::map<u64, Cands> m;
        m[y] = c;
        restart(n, "after a failure in DropBranch()", m, true, act);
    }
    void do_active(size_t n, u64 b, u64 seed) {
        N& x = *nodes[n];
        NodeScope s{x.node};
        Rng r{seed};
        U to;
        bool exists = true;
        if (r.chance(10)) {
            to = branch_uuid(name64("nosuch"));
            exists = false;
        } else if (!x.br.empty() && r.chance(90)) {
            auto i = x.br.begin();
            std::advance(i, long(b % x.br.size()));
            to = branch_uuid(i->first);
        }
        Api api{x};
        Status ok = x.rep->SetActiveStore(R_(to));
        bool dberr = api.off();
        bool down = x.node.disk.down;
        cx->ev("active " + ustr(to) + " at " + std::to_string(n) + " " + (ok ? "ok" : ok.str()));
        if (!down && ok) {
            if (!exists) fail("accepted-bad", "a branch that does not exist becomes active");
            x.active = to;
            x.shown += 10;
            if (U_(x.rep->active_store()) != to) fail("active-lost", "SetActiveStore() has no effect");
            return;
        }
        if ((!exists || dberr) && !down && !x.armed) {
            if (U_(x.rep->active_store()) != x.active) fail("active-lost", "a refused SetActiveStore() has an effect");
            return;
        }
        if (!down && !x.armed) fail("spurious-error", "SetActiveStore: " + ok.str());
        restart(n, "after a failure in SetActiveStore()", {}, exists, to);
    }

    //  R E A D S

    Ops parse(const RFrame& f, const string& where) {
        Ops r;
        string err;
        if (!read_frame(r, f.data(), &err)) fail("garbage", where + ": " + err + ": " + esc(f.data()));
        return r;
    }
    bool io(N& x, const Status& ok, const string& where) {  // a read that has to succeed
        if (ok) return true;
        if (x.armed || x.node.disk.down || x.api >= 0) {
            cx->probe("read.failed_on_io");
            return false;
        }
        fail("read-fails", where + ": " + ok.str());
    }
    /** every op, object, version and name of the branch, through the public reads */
    void check(size_t n, u64 yarn, Rng& r, const string& why, int limit = 40) {
        N& x = *nodes[n];
        NodeScope s{x.node};
        const Br& b = x.br.at(yarn);
        string at = why + ": node " + std::to_string(n) + " branch " + word64(yarn) + ": ";
        Api api{x};
        Commit c{*x.rep, R_(branch_uuid(yarn))};
        if (U_(c.tip()) != b.tip) fail("wrong-tip", at + "tip is " + ustr(U_(c.tip())) + " not " + ustr(b.tip));
        size_t step = b.arrival.size() > size_t(limit) ? 1 + b.arrival.size() / size_t(limit) : 1;
        for (size_t i = r.below(step); i < b.arrival.size(); i += step) {
            const OpI& o = b.ops.at(b.arrival[i].id);
            ron::OpMeta m;
            if (!io(x, c.FindOpMeta(m, R_(o.op.id)), at + "FindOpMeta of " + ustr(o.op.id))) return;
            if (U_(m.id) != o.op.id) fail("wrong-meta", at + "FindOpMeta of " + ustr(o.op.id) + " finds " + ustr(U_(m.id)));
            if (U_(m.object) != o.obj || U_(m.rdt) != name_id(o.rdt.c_str()))
                fail("wrong-meta", at + ustr(o.op.id) + " is said to belong to " + ustr(U_(m.object)) + " not " + ustr(o.obj));
            if (m.hash != o.hash)
                fail("wrong-hash", at + "hash of " + o.op.str() + " is " + string(m.hash.base64()) + " not " + string(o.hash.base64()));
        }
        for (auto& l : b.last) {
            ron::OpMeta m;
            if (!io(x, c.FindYarnTipMeta(m, Word{(F_TIME << 60) | l.first}), at + "FindYarnTipMeta")) return;
            if (U_(m.id) != l.second) fail("wrong-meta", at + "the tip of a yarn is " + ustr(U_(m.id)) + " not " + ustr(l.second));
            if (m.hash != b.ops.at(l.second).hash) fail("wrong-hash", at + "the hash of a yarn tip");
        }
        {  // what is not there
            U no = time_id(b.tip.v - 1, r.next());
            ron::OpMeta m;
            if (!b.has(no) && c.FindOpMeta(m, R_(no))) fail("wrong-meta", at + "an op nobody wrote is found " + ustr(no));
            no = time_id(b.tip.v + 1 + r.below(1000), pl(b.tip.o));
            if (!b.has(no) && c.FindOpMeta(m, R_(no))) fail("wrong-meta", at + "an op nobody wrote is found " + ustr(no));
        }
        for (auto& l : b.log) {
            string rdt = b.ops.at(l.first).rdt;
            string ob = at + "object " + ustr(l.first) + ": ";
            RFrame f;
            if (!io(x, c.GetObject(f, R_(l.first), R_(name_id(rdt.c_str()))), ob + "GetObject")) return;
            Ops want = b.state(l.first), got = parse(f, ob);
            if (got != want) fail("wrong-state", ob + "\n  got  " + show(got) + "\n  want " + show(want));
            RFrame lf;
            if (!io(x, c.FindObjectLog(lf, R_(l.first)), ob + "FindObjectLog")) return;
            Ops log = parse(lf, ob);
            string d = diff_log(b, l.second, log);
            if (!d.empty()) fail("wrong-log", ob + d + " in " + show(log));
            // a version is what the object was by then
            size_t v = r.below(log.size());
            RFrame vf;
            if (!io(x, c.GetObjectVersion(vf, R_(l.first), R_(log[v].id)), ob + "GetObjectVersion at " + ustr(log[v].id))) return;
            Ops past{log.begin(), log.begin() + long(v) + 1};
            want = Br::state_of(rdt, l.first, past);
            got = parse(vf, ob);
            if (got != want)
                fail("wrong-version", ob + "version " + ustr(log[v].id) + "\n  got  " + show(got) + "\n  want " + show(want) + "\n  log  " + show(log));
            if (rdt == "rga") {
                Ops tree = b.state(l.first);
                auto vis = visible(tree);
                string text;
                for (auto& o : tree)
                    if (vis.count(o.id) && !o.vals.empty() && o.vals[0].t == ron::STRING) text += o.vals[0].s;
                RFrame q = ron::Query<RFrame>(R_(U{l.first.v, pl(l.first.o) | (F_DERIVED << 60)}), ron::TXT_FORM_UUID);
                RBuilder resp;
                if (!io(x, x.rep->ReceiveFrame(resp, q, Word{yarn}), ob + "txt query")) return;
                Ops ro = parse(resp.Release(), ob + "txt response");
                if (ro.size() != 1 || ro[0].vals.size() > 1 || (ro[0].vals.empty() ? "" : ro[0].vals[0].s) != text)
                    fail("wrong-text", ob + "the text is " + show(ro) + " not " + esc(text));
            }
            if (rdt != "max") {
                RFrame q = ron::Query<RFrame>(R_(l.first), R_(name_id(rdt.c_str())));
                RBuilder resp;
                if (!io(x, x.rep->ReceiveFrame(resp, q, Word{yarn}), ob + "state query")) return;
                Ops ro = parse(resp.Release(), ob + "state response");
                want = b.state(l.first);
                if (ro != want) fail("wrong-state", ob + "query response\n  got  " + show(ro) + "\n  want " + show(want));
            }
            {
                U ver_id = log[v].id;
                RFrame q = ron::Query<RFrame>(R_(ver_id), ron::LOG_FORM_UUID);
                RBuilder resp;
                if (!io(x, x.rep->ReceiveFrame(resp, q, Word{yarn}), ob + "log query")) return;
                Ops ro = parse(resp.Release(), ob + "log response");
                size_t len = v ? ro.size() : log.size();
                bool fits = v ? (len == v || len == v + 1) : ro.size() == log.size();
                if (fits && !std::equal(ro.begin(), ro.end(), log.begin())) fits = false;
                if (!fits) fail("wrong-log", ob + "log query at " + ustr(ver_id) + "\n  got  " + show(ro) + "\n  log  " + show(log));
            }
        }
        Rep::Names names;
        if (!io(x, c.ReadNames(names), at + "ReadNames")) return;
        std::map<U, U> want, got;
        for (auto& nm : b.names) want[nm.first] = nm.second;
        for (auto& nm : names) got[U_(nm.first)] = U_(nm.second);
        if (want != got) fail("wrong-names", at + std::to_string(got.size()) + " names, want " + std::to_string(want.size()));
        if (limit > 1000) {
            Commit fresh{*x.rep, R_(branch_uuid(yarn))};
        }
    }
    void do_check(size_t n, u64 b, u64 seed) {
        N& x = *nodes[n];
        if (x.br.empty()) return;
        NodeScope s{x.node};
        Rng r{seed};
        auto i = x.br.begin();
        std::advance(i, long(b % x.br.size()));
        check(n, i->first, r, "check");
        if (x.node.disk.down) {
            cx->probe("restart.after_crash_in_read");
            restart(n, "after a crash in a read");
        }
    }
    /** a hash covers everything; the notation does not matter */
    void do_sens(size_t n, u64 seed) {
        N& x = *nodes[n];
        if (x.br.empty()) return;
        NodeScope s{x.node};
        Rng r{seed};
        const Br& b = x.br.begin()->second;
        const MOp& o = b.arrival[r.below(b.arrival.size())];
        ron::SHA2 prev = hash_id(time_id(r.next(), r.next())), ref = hash_id(time_id(r.next(), r.next()));
        ron::SHA2 h = repo_hash(o, prev, ref);
        if (h != hash_op(o, prev, ref)) fail("wrong-hash", "the hash of " + o.str() + " is " + h.hex() + ", not " + hash_op(o, prev, ref).hex());
        auto differs = [&](const ron::SHA2& g, const string& what) {
            if (g == h) fail("weak-hash", "the hash of " + o.str() + " does not depend on " + what);
        };
        MOp m = o;
        m.id.v ^= 1ULL << r.below(59);
        differs(repo_hash(m, prev, ref), "the timestamp");
        m = o;
        m.id.o ^= 1ULL << r.below(59);
        differs(repo_hash(m, prev, ref), "the author");
        m = o;
        m.ref = time_id(o.ref.v ^ (1ULL << r.below(59)), o.ref.o);
        differs(repo_hash(m, prev, ref), "the reference");
        differs(repo_hash(o, hash_id(time_id(r.next(), r.next())), ref), "the hash of the previous op");
        differs(repo_hash(o, prev, hash_id(time_id(r.next(), r.next()))), "the hash of the referenced op");
        differs(repo_hash(o, ref, prev), "which hash is which");
        m = o;
        m.vals.push_back(gen_val(r, 4));
        differs(repo_hash(m, prev, ref), "the number of values");
        if (!o.vals.empty()) {
            m = o;
            m.vals.pop_back();
            differs(repo_hash(m, prev, ref), "the number of values");
            m = o;
            size_t k = r.below(m.vals.size());
            Val& v = m.vals[k];
            switch (v.t) {
                case ron::INT: v.i ^= i64(1) << r.below(60); break;
                case ron::FLOAT: v.f = v.f * 1.5 + 1; break;
                case ron::UUID: v.u = time_id(v.u.v ^ (1ULL << r.below(59)), v.u.o); break;
                default: v.s += "x";
            }
            if (!(v == o.vals[k])) differs(repo_hash(m, prev, ref), "value " + std::to_string(k) + ", " + o.vals[k].str() + " or " + v.str());
            if (o.vals[k].t == ron::STRING && o.vals[k].s.size() > 1) {
                m = o;
                std::swap(m.vals[k].s[0], m.vals[k].s[1]);
                string chk = m.vals[k].s;
                bool ascii = (chk[0] & 0x80) == 0 && (chk[1] & 0x80) == 0 && chk != o.vals[k].s;
                if (ascii) differs(repo_hash(m, prev, ref), "the order of chars");
            }
            m = o;
            if (m.vals.size() > 1 && !(m.vals[0] == m.vals[1])) {
                std::swap(m.vals[0], m.vals[1]);
                differs(repo_hash(m, prev, ref), "the order of values");
            }
        }
        cx->probe("hash.sensitivity");
    }

    //  S T E P S

    void arm_fault(size_t n, const Step& s) {
        static const unsigned masks[] = {IO_APPEND, IO_SYNC, IO_META, IO_READ, IO_OPEN, IO_DIRSYNC, IO_WRITES, IO_ANY};
        static const char* sfx[] = {"", "log", "sst", "MANIFEST", "CURRENT", "dbtmp"};
        N& x = *nodes[n];
        arm(x.node, masks[s.uarg(1) % 8], int(s.uarg(2) % 6), s.arg(3), s.arg(4), 1, sfx[s.uarg(5) % 6]);
        x.armed = true;
    }
    void after_jobs(size_t n) {
        N& x = *nodes[n];
        if (x.node.disk.down) {
            cx->probe("restart.after_crash_in_background");
            restart(n, "after a crash in a background job");
        }
    }
    void step(const Step& s) {
        step_us = global_us;
        if (s.op == "clock") {
            N& x = *nodes[s.uarg(0) % nodes.size()];
            i64 c = x.node.clock_us + s.arg(1);
            constexpr i64 YEAR = 366LL * 86400 * 1000000;
            if (c < -8 * YEAR || c > 800 * YEAR) return;  // timestamps start in 2010
            cx->fault(s.arg(1) < 0 ? "clock.jump_back" : "clock.jump_forth");
            x.node.clock_us = c;
            return;
        }
        if (s.op == "tick") {
            global_us += s.arg(1);
            return;
        }
        step_(s);
        settle();
    }
    /** whatever the replicas have done, they have stamped it no later than this */
    void settle() {
        for (auto& x : nodes) x->shown = std::max(x->shown, clock64(*x, global_us));
    }
    void step_(const Step& s) {
        const string& o = s.op;
        size_t n = s.uarg(0) % nodes.size();
        N& x = *nodes[n];
        NodeScope sc{x.node};
        if (o == "edit")
            do_edit(n, s.uarg(1), s.uarg(2));
        else if (o == "txn")
            do_txn(n, s.uarg(1), s.uarg(2));
        else if (o == "unst")
            do_unst(n, s.uarg(1), s.uarg(2));
        else if (o == "name")
            do_name(n, s.uarg(1), s.uarg(2));
        else if (o == "merge")
            do_merge(n, s.uarg(1), s.uarg(2), s.uarg(3));
        else if (o == "send")
            do_send(n, s.uarg(1) % nodes.size(), s.uarg(2));
        else if (o == "net")
            do_net(s.uarg(1), s.uarg(2), s.uarg(3));
        else if (o == "bad")
            do_bad(n, s.uarg(1), s.uarg(2), s.uarg(3));
        else if (o == "newbr")
            do_newbr(n, s.uarg(1));
        else if (o == "fork")
            do_fork(n, s.uarg(1), s.uarg(2));
        else if (o == "drop")
            do_drop(n, s.uarg(1));
        else if (o == "active")
            do_active(n, s.uarg(1), s.uarg(2));
        else if (o == "check")
            do_check(n, s.uarg(1), s.uarg(2));
        else if (o == "wild")
            do_wild(n, s.uarg(1), s.uarg(2));
        else if (o == "sens")
            do_sens(n, s.uarg(1));
        else if (o == "api") {
            x.api = int(s.uarg(1) % 3);
            x.api_n = s.arg(2);
            x.api_error = int(s.uarg(3) % 9);
        } else if (o == "now") {
            for (u64 i = 0; i < s.uarg(1) + 1; i++) now(x, x.own);
        } else if (o == "flush")
            x.node.want_flush = true;
        else if (o == "compact")
            x.node.want_compact = true;
        else if (o == "jobs") {
            run_jobs(x.node, int(s.arg(1)));
            after_jobs(n);
        } else if (o == "arm")
            arm_fault(n, s);
        else if (o == "reopen") {
            cx->probe("restart.clean");
            restart(n, "reopen");
        } else if (o == "crash") {
            cx->fault("process_crash");
            x.node.disk.process_crash();
            restart(n, "restart after a process crash");
        } else if (o == "power") {
            cx->fault("power_loss");
            x.node.disk.power_loss(s.uarg(1), s.arg(2) & 1);
            power(n);
        }
    }
    void power(size_t n) {
        N& x = *nodes[n];
        std::map<u64, Cands> m;
        for (auto& b : x.br) {
            Cands c;
            auto& h = x.hist[b.first];
            // everything written since the last restart may be gone, the last ones first
            for (size_t i = h.size(); i-- > 0;) {
                Br br = h[i];
                c.is.push_back([br](const U&) { return br; });
            }
            c.absent = h.empty() || x.born.count(b.first) != 0;
            m[b.first] = c;
        }
        restart_lossy(n, m);
    }
    void restart_lossy(size_t n, std::map<u64, Cands>& m) {
        // the record of the active branch is not synced either: any earlier choice will do
        N& x = *nodes[n];
        {
            NodeScope s{x.node};
            Rep* old = x.rep.release();
            delete old;
            x.node.disk.restart();
            Rep probe;
            Status ok = probe.Open();
            if (!ok) fail("cant-open", "after a power loss: " + ok.str());
            x.active = U_(probe.active_store());
            if (!x.active.zero() && !probe.HasStore(R_(x.active))) fail("active-lost", "a branch that is not there is active");
        }
        restart(n, "after a power loss", m);
    }

    //  S C E N A R I O

    void start(const Step& cfg) {
        size_t n = 1 + cfg.uarg(0) % 4;
        bool faults = cfg.arg(1) & 1;
        Rng r{cfg.uarg(2)};
        lossy = cfg.arg(3) & 1;
        wild = cfg.arg(4) & 1;
        if (cfg.arg(5)) max_branches = cfg.uarg(5);
        static const char* who[] = {"alice", "bob", "carol", "dave"};
        for (size_t i = 0; i < n; i++) {
            nodes.emplace_back(new N{});
            N& x = *nodes.back();
            x.node.idx = int(i);
            x.own = r.chance(60) ? name64(who[i]) : name64("yarn") + i;  // similar names differ in the last bits
            if (r.chance(15)) x.own = 1 + i;
            used.insert(x.own);
            x.node.clock_us = r.chance(50) ? 0 : r.in(-3600, 3600) * 1000000;
            if (!lossy) knobs(x.node.knobs, r);
            boot(i, faults, r.next());
            x.shown = clock64(x, global_us);
            NodeScope s{x.node};
            new_branch(i, x.own, n > 1 || r.chance(60));
            if (!x.br.count(x.own)) fail("spurious-error", "no branch");
        }
        settle();
    }
    void knobs(Knobs& k, Rng& r) {
        static const i64 wbs[] = {0, 65536, 1 << 20};
        static const i64 tfs[] = {0, 1024, 8192};
        static const int bs[] = {0, 64, 512};
        k.write_buffer_size = wbs[r.below(3)];
        k.l0_trigger = r.chance(30) ? 0 : int(r.in(1, 3));
        k.target_file_size = tfs[r.below(3)];
        k.block_size = bs[r.below(3)];
        k.max_successive_merges = r.chance(25) ? 2 : -1;
        k.compaction_style = r.chance(25) ? 1 : -1;
    }
    void finish() {
        Rng r{77};
        // faults stop
        for (size_t n = 0; n < nodes.size(); n++) {
            N& x = *nodes[n];
            NodeScope s{x.node};
            bool was = x.armed;
            disarm(x.node);
            x.armed = false;
            if (was) restart(n, "final restart");
        }
        net.clear();
        int moves = 0;
        if (nodes.size() > 1) {
            for (size_t a = 0; a < nodes.size(); a++)
                for (size_t b = 0; b < nodes.size(); b++)
                    if (a != b) {
                        NodeScope s{nodes[b]->node};
                        ensure_mirror(b, nodes[a]->own);
                    }
            // two rounds: everybody gets everything, merges it, tells the rest
            for (int round = 0; round < 2; round++) {
                for (size_t a = 0; a < nodes.size(); a++)
                    for (size_t b = 0; b < nodes.size(); b++)
                        if (a != b) moves += sync(a, b, r);
                if (round == 1) break;
                for (size_t a = 0; a < nodes.size(); a++) {
                    N& x = *nodes[a];
                    NodeScope s{x.node};
                    for (size_t b = 0; b < nodes.size(); b++) {
                        if (a == b) continue;
                        Items it = merge_items(x, x.br.at(x.own), x.br.at(nodes[b]->own), r, 100000);
                        if (!it.empty() && !submit(a, x.own, it, r, "final merge")) fail("no-progress", "a final merge is refused");
                    }
                }
            }
            converged();
        }
        for (size_t n = 0; n < nodes.size(); n++) {
            N& x = *nodes[n];
            for (auto& b : x.br) check(n, b.first, r, "at the end", 60);
            NodeScope s{x.node};
            restart(n, "final reopen");
            for (auto& b : x.br) {
                x.node.want_compact = true;
                RFrame f;
                x.rep->GetStore(R_(branch_uuid(b.first))).Read(Key{}, f);
                run_jobs(x.node);
                expect(n, b.first, "after the final compaction");
            }
            for (auto& b : x.br) check(n, b.first, r, "after the final reopen", 20);
        }
        if (nodes.size() > 1) converged();
        cx->probe("deliveries_after_heal", u64(moves));
    }
    /** everybody has the same branches; the objects everybody has merged are the same */
    void converged() {
        for (size_t a = 0; a < nodes.size(); a++) {
            u64 y = nodes[a]->own;
            std::map<std::pair<int, U>, Ops> first;
            for (size_t b = 0; b < nodes.size(); b++) {
                NodeScope s{nodes[b]->node};
                std::map<std::pair<int, U>, Ops> db;
                string err;
                if (!scan(*nodes[b], y, db, err)) fail("garbage", "at the end: " + err);
                std::map<std::pair<int, U>, Ops> objs;
                for (auto& p : db)
                    if (p.first.first == ron::RGA_RDT_FORM || p.first.first == ron::MX_RDT_FORM || p.first.first == ron::MAX_RDT_FORM ||
                        p.first.first == ron::YARN_RAW_FORM || p.first.first == ron::ZERO_RAW_FORM ||
                        (p.first.first == ron::LWW_RDT_FORM && p.first.second.v))
                        objs.insert(p);
                if (b == 0)
                    first = objs;
                else if (objs != first)
                    fail("diverged", "branch " + word64(y) + " is different at node 0 and node " + std::to_string(b));
                // yarn hashes, as the replicas see them
            }
            std::map<u64, string> hashes;
            for (size_t b = 0; b < nodes.size(); b++) {
                NodeScope s{nodes[b]->node};
                Commit c{*nodes[b]->rep, R_(branch_uuid(y))};
                for (auto& l : nodes[b]->br.at(y).last) {
                    ron::OpMeta m;
                    Status ok = c.FindYarnTipMeta(m, Word{(F_TIME << 60) | l.first});
                    if (!ok) fail("read-fails", "FindYarnTipMeta: " + ok.str());
                    string h = ustr(U_(m.id)) + string(m.hash.base64());
                    if (b == 0)
                        hashes[l.first] = h;
                    else if (hashes[l.first] != h)
                        fail("diverged", "yarn " + word64(l.first) + " has different hashes at node 0 and node " + std::to_string(b));
                }
            }
        }
        cx->probe("converged_runs");
    }
};

#include "cli_world.hpp"

template <class S>
void exec(const Plan& p) {
    if (p.empty() || p[0].op != "cfg") return;
    S s;
    s.start(p[0]);
    for (size_t i = 1; i < p.size(); i++) {
        cx->ev("> " + p[i].str());
        s.step(p[i]);
    }
    s.finish();
}

struct Mix {
    int edit, unst, name, merge, send, net, bad, newbr, fork, drop, active, check, sens, now, clock, tick, flush, compact, jobs, arm,
        reopen, crash, power, wild, cli, txn;
};
Plan gen_mix(Rng& r, const Mix& m, int nlo, int nhi, int lo, int hi, bool bootfaults) {
    Plan p;
    int nn = int(r.in(nlo, nhi));
    p.push_back(Step{"cfg", {nn - 1, bootfaults && r.chance(50), r.in(1, 1 << 30), m.power > 0, m.wild > 0}});
    int n = int(r.in(lo, hi));
    bool churn = m.fork && r.chance(3);  // many branches
    if (churn) p.back().a.push_back(14);
    const int* w = &m.edit;
    constexpr int K = sizeof(Mix) / sizeof(int);
    int tot = 0;
    for (int i = 0; i < K; i++) tot += w[i];
    auto seed = [&] { return r.in(1, 1 << 30); };
    auto cli = [&](i64 nd) {
        //                       cr fo dr ho na ne wr in ba li nm ge re du no on te
        static const int vw[] = {7, 6, 5, 9, 9, 12, 24, 3, 6, 5, 5, 8, 7, 5, 3, 4, 9};
        int total = 0, v = 0;
        for (int k : vw) total += k;
        i64 y = r.in(0, total - 1);
        while ((y -= vw[v]) >= 0) ++v;
        if (r.chance(3)) v = 20;
        return Step{"cli", {nd, v, seed(), r.chance(40) ? 0 : r.in(0, 3000000)}};
    };
    if (m.cli)
        for (int i = 0; i < nn; i++)
            if (r.chance(90)) p.push_back(Step{"active", {i, 0, seed()}});
    for (int i = 0; i < n; i++) {
        i64 x = i64(r.below(u64(tot)));
        int k = 0;
        while ((x -= w[k]) >= 0) ++k;
        i64 nd = r.in(0, nn - 1), b = churn ? r.in(0, 14) : r.small(4);
        if (churn && r.chance(30)) {
            p.push_back(Step{r.chance(70) ? "fork" : "newbr", {nd, r.in(0, 14), seed()}});
            if (p.back().op == "newbr") p.back().a = {nd, seed()};
            if (r.chance(40)) p.push_back(Step{"drop", {nd, r.in(0, 14)}});
        }
        switch (k) {
            case 0: p.push_back(Step{"edit", {nd, b, seed()}}); break;
            case 1: p.push_back(Step{"unst", {nd, b, seed()}}); break;
            case 2: p.push_back(Step{"name", {nd, b, seed()}}); break;
            case 3: p.push_back(Step{"merge", {nd, b, r.in(0, 5), seed()}}); break;
            case 4:
                p.push_back(Step{"send", {nd, r.in(0, nn - 1), seed()}});
                break;
            case 5: p.push_back(Step{"net", {nd, r.in(0, 9), r.in(0, 7), seed()}}); break;
            case 6: p.push_back(Step{"bad", {nd, b, r.in(0, 19), seed()}}); break;
            case 7: p.push_back(Step{"newbr", {nd, seed()}}); break;
            case 8: p.push_back(Step{"fork", {nd, r.in(0, 5), seed()}}); break;
            case 9: p.push_back(Step{"drop", {nd, r.in(0, 5)}}); break;
            case 10: p.push_back(Step{"active", {nd, r.in(0, 5), seed()}}); break;
            case 11: p.push_back(Step{"check", {nd, r.in(0, 5), seed()}}); break;
            case 12: p.push_back(Step{"sens", {nd, seed()}}); break;
            case 13: p.push_back(Step{"now", {nd, r.chance(85) ? 0 : r.chance(60) ? r.in(1, 100) : r.in(100, 9000)}}); break;
            case 14: {
                static const i64 d[] = {1, -1, 60, -60, 3600, -86400, 86400 * 40, -86400 * 400, 86400 * 3000};
                p.push_back(Step{"clock", {nd, d[r.below(9)] * 1000000 * r.in(1, 3)}});
                break;
            }
            case 15: p.push_back(Step{"tick", {nd, r.in(1, 5000000)}}); break;
            case 16: p.push_back(Step{"flush", {nd}}); break;
            case 17: p.push_back(Step{"compact", {nd}}); break;
            case 18: p.push_back(Step{"jobs", {nd, r.in(-1, 4)}}); break;
            case 19: {
                if (!m.cli && r.chance(30)) {  // the database says no, the process goes on
                    p.push_back(Step{"api", {nd, r.in(0, 2), r.chance(50) ? 0 : r.small(20), r.in(0, 8)}});
                    int wf = int(r.below(100));
                    p.push_back(m.fork && wf < 30          ? Step{"fork", {nd, r.in(0, 5), seed()}}
                                : m.fork && wf < 36        ? Step{"newbr", {nd, seed()}}
                                : m.fork && wf < 42        ? Step{"active", {nd, r.in(0, 5), seed()}}
                                : m.txn && wf < 60         ? Step{"txn", {nd, b, seed()}}
                                : wf < 52                  ? Step{"edit", {nd, b, seed()}}
                                : m.merge && wf < 70       ? Step{"merge", {nd, b, r.in(0, 5), seed()}}
                                : wf < 75                  ? Step{"name", {nd, b, seed()}}
                                : wf < 82                  ? Step{"unst", {nd, b, seed()}}
                                : wf < 88                  ? Step{"bad", {nd, b, r.in(0, 19), seed()}}
                                                           : Step{"check", {nd, r.in(0, 5), seed()}});
                    break;
                }
                if (m.cli && r.chance(30)) {
                    bool rd = r.chance(70);
                    if (r.chance(30)) p.push_back(Step{"flush", {nd}});
                    p.push_back(Step{"api", {nd, rd ? r.in(1, 2) : 0, r.chance(30) ? 0 : r.small(rd ? 30 : 3), r.in(0, 8)}});
                    p.push_back(cli(nd));
                    if (rd && r.chance(60)) p.back().a[1] = r.in(9, 15);
                    break;
                }
                if (m.cli && r.chance(20)) p.push_back(Step{"flush", {nd}});
                p.push_back(Step{"arm", {nd, r.in(0, 7), r.in(0, 5), r.small(8), r.in(0, 4000), r.chance(50) ? 0 : r.in(0, 5)}});
                if (m.cli) {  // past the opening of the database
                    Step& a = p.back();
                    bool wal = r.chance(45);
                    if (wal) a.a[1] = r.chance(60) ? 0 : 6, a.a[5] = 1, a.a[3] = r.small(3);
                    else a.a[3] = r.in(0, a.a[1] == 3 ? 40 : 90), a.a[5] = r.chance(80) ? 0 : a.a[5];
                }
                // place the fault into the operation that follows
                if (!m.cli && r.chance(20)) p.push_back(Step{"flush", {nd}});
                int wf = int(r.below(100));
                if (m.cli) {
                    Step& a = p.back();
                    bool rd = a.a[1] == 3 || r.chance(15);
                    if (rd) a = Step{"arm", {nd, 3, r.chance(70) ? 0 : r.in(0, 5), r.in(0, 40), 0, 0}};
                    p.push_back(cli(nd));
                    if (rd) p.back().a[1] = r.chance(50) ? 13 : r.in(9, 15);
                    break;
                }
                if (m.fork && wf < 35)
                    p.push_back(wf < 20 ? Step{"fork", {nd, r.in(0, 5), seed()}}
                                        : wf < 25 ? Step{"newbr", {nd, seed()}}
                                                  : wf < 30 ? Step{"drop", {nd, r.in(0, 5)}} : Step{"active", {nd, r.in(0, 5), seed()}});
                else if (wf < 60)
                    p.push_back(Step{"edit", {nd, b, seed()}});
                else if (m.txn && wf < 90)
                    p.push_back(Step{"txn", {nd, b, seed()}});
                else if (m.merge && wf < 75)
                    p.push_back(Step{"merge", {nd, b, r.in(0, 5), seed()}});
                else if (m.net && wf < 85)
                    p.push_back(Step{"net", {nd, r.in(0, 9), 5, seed()}});
                else
                    p.push_back(Step{"unst", {nd, b, seed()}});
                if (r.chance(30)) p.push_back(Step{"jobs", {nd, -1}});
                if (r.chance(40)) p.push_back(Step{"crash", {nd}});
                break;
            }
            case 20: p.push_back(Step{"reopen", {nd}}); break;
            case 21: p.push_back(Step{"crash", {nd}}); break;
            case 22: p.push_back(Step{"power", {nd, seed(), r.in(0, 1)}}); break;
            case 23: p.push_back(Step{"wild", {nd, b, seed()}}); break;
            case 24: p.push_back(cli(nd)); break;
            case 25: p.push_back(Step{"txn", {nd, b, seed()}}); break;
        }
    }
    return p;
}

const char* STUBS =
    "real: db/replica.*, db/joined_store.hpp, db/mem_store.hpp, db/rocks_store.cc, db/key.*, db/map/txt.hpp (reads), rdt/*, ron/*, "
    "RocksDB 8.9, Botan SHA-2; simulated: network, disks, clocks, background-job scheduling, crashes, power; stub: the btree "
    "container header (an ordered multimap) and the text diff header, neither of which is in the repository";

void add(const char* name, const char* prop, const char* what, Mix m, int nlo, int nhi, int lo, int hi, bool boot = false,
         void (*ex)(const Plan&) = exec<Sim>) {
    World w;
    w.name = name;
    w.property = prop;
    w.what = what;
    w.gen = [=](Rng& r) { return gen_mix(r, m, nlo, nhi, lo, hi, boot); };
    w.exec = ex;
    w.stubs = STUBS;
    worlds().push_back(w);
}

struct Init {
    Init() {
        //                                                ed un na me se ne ba nb fo dr ac ch se no cl ti fl co jo ar re cr po
        add("rep_atomic", "C11", "frames, good and bad, with crashes and disk errors",
            Mix{20, 6, 6, 8, 6, 8, 22, 0, 0, 0, 0, 4, 0, 0, 0, 2, 3, 1, 3, 10, 2, 3, 0}, 1, 2, 8, 30);
        add("rep_power", "C11", "frames and power losses",
            Mix{40, 8, 10, 8, 0, 0, 8, 2, 3, 0, 3, 2, 0, 0, 0, 2, 0, 0, 0, 0, 3, 3, 10}, 1, 1, 8, 30);
        add("rep_causal", "C12", "duplicated, reordered, dangling events",
            Mix{20, 2, 0, 10, 14, 26, 22, 0, 0, 0, 0, 3, 0, 0, 0, 2, 2, 1, 2, 2, 2, 2, 0}, 1, 3, 10, 36);
        add("rep_clock", "C13", "clock jumps, restarts",
            Mix{14, 20, 4, 6, 5, 6, 4, 2, 3, 1, 2, 1, 0, 10, 16, 6, 1, 1, 1, 4, 8, 6, 0}, 1, 2, 10, 36);
        add("rep_net", "C14", "a faulty network",
            Mix{20, 3, 1, 12, 22, 34, 3, 0, 0, 0, 0, 2, 0, 0, 2, 3, 2, 1, 2, 3, 1, 2, 0}, 2, 4, 14, 50);
        add("rep_state", "C15", "states, logs and versions under background work",
            Mix{40, 8, 4, 10, 6, 8, 4, 1, 1, 0, 0, 14, 0, 0, 0, 2, 7, 4, 8, 0, 3, 2, 0}, 1, 2, 12, 44);
        add("rep_txn", "C21", "changes and queries in one frame, crashes, disk errors",
            Mix{14, 4, 2, 10, 6, 8, 4, 0, 2, 0, 0, 3, 0, 0, 0, 2, 4, 2, 4, 4, 2, 2, 0, 0, 0, 40}, 1, 2, 8, 30);
        add("rep_hash", "C18", "hashes over regrouped frames, restarts, branches",
            Mix{24, 6, 1, 12, 14, 22, 4, 1, 4, 0, 0, 8, 14, 0, 0, 2, 3, 1, 3, 0, 5, 3, 0}, 1, 3, 10, 36);
        add("rep_wire", "C16", "every notation, rewrites, relays",
            Mix{30, 10, 4, 12, 10, 18, 6, 1, 1, 0, 0, 8, 0, 0, 0, 2, 4, 2, 4, 2, 2, 2, 0, 2}, 1, 3, 8, 34);
        add("rep_junk", "C17", "torn, garbled, senseless frames",
            Mix{16, 4, 2, 4, 3, 6, 40, 0, 0, 0, 0, 2, 0, 0, 0, 2, 2, 1, 2, 3, 2, 2, 0, 16}, 1, 2, 6, 22);
        add("rep_branch", "C19", "forks, drops, active branches, names, with crashes",
            Mix{18, 4, 10, 10, 0, 0, 4, 5, 12, 6, 10, 4, 0, 0, 1, 2, 3, 2, 3, 12, 4, 5, 0}, 1, 1, 8, 32, true);
        add("rep_cli", "C20", "the command line tool, with crashes, disk errors, short reads",
            Mix{8, 2, 2, 3, 2, 3, 1, 1, 1, 1, 2, 1, 0, 0, 2, 2, 2, 1, 2, 16, 1, 2, 0, 0, 40}, 1, 2, 6, 24, false, exec<CliSim>);
    }
} init;

}  // namespace
}  // namespace sim
