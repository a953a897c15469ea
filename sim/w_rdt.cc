// The gossip worlds: N replicas hold reduced states of one replicated object and
// exchange frames over a network that loses, repeats, delays and reorders them.
// Real code: rdt/* (mergers, visibility, object views), ron/* (parser, builder).
#include <algorithm>
#include "rdt/lww_obj.hpp"
#include "ronutil.hpp"
#include "simfs.hpp"

namespace sim {
namespace {

using ron::Status;
enum Kind { LWW, MX, META, YARN, RGA, MAX };
const ron::FORM FORM_OF[] = {ron::LWW_RDT_FORM, ron::MX_RDT_FORM,  ron::META_META_FORM,
                             ron::YARN_RAW_FORM, ron::RGA_RDT_FORM, ron::MAX_RDT_FORM};
const char* NAME_OF[] = {"lww", "mx", "meta", "yarn", "rga", "max"};

struct Msg {
    string text;
    Ops ops;
};
struct Replica {
    string state;        // durable
    std::set<U> has;     // what the state is made of
    Ops log;             // the same, in the order of arrival
    std::vector<Msg> inbox;
    i64 skew = 0;
};

struct Gossip {
    Kind kind;
    std::vector<Replica> rep;
    std::map<U, MOp> all;
    U obj;
    u64 breed = 0;  // what the origins look like
    bool views = true;

    u64 origin(size_t r) const {
        switch (breed) {
            case 1: return name64("000000000a") + r;              // the last char differs
            case 2: return PAYLOAD - r;                           // the last ones possible
            case 3: return (u64(r) + 1) << 54;                    // a single char
            case 4: return name64("alice") + (u64(r % 2) << 58) + r / 2;  // the first and the last chars differ
            default: return 0x100 + r;
        }
    }
    Ops ops_of(const std::set<U>& ids) const {
        Ops r;
        for (auto& i : ids) r.push_back(all.at(i));
        return r;
    }
    /** the state the type's definition asks for */
    Ops model(const std::set<U>& ids) const {
        Ops ops = ops_of(ids);
        switch (kind) {
            case RGA: return ct_order(ops);
            case MAX: {
                Ops r;
                if (ids.count(obj)) r.push_back(all.at(obj));
                const MOp* best = nullptr;
                for (auto& o : ops) {
                    if (o.id == obj) continue;
                    int c = best ? cmp_val(best->vals[0], o.vals[0]) : -1;
                    if (c < 0 || (c == 0 && best->id < o.id)) best = &o;
                }
                if (best) r.push_back(*best);
                return r;
            }
            default: return id_order(ops);
        }
    }
    /** which of these could be attached? */
    bool attachable(const std::set<U>& ids) const {
        if (kind != RGA) return true;
        Ops orphans;
        ct_order(ops_of(ids), &orphans);
        return orphans.empty();
    }

    string render(const Ops& ops, u64 how) {
        if (how % 3 == 0) return text_of(ops);
        RFrame plain = frame_of(ops);
        RCursor c{plain};
        RBuilder b;
        while (c.Next()) b.AppendOp(c);
        return b.Release().data();
    }
    Ops parse(const string& text, const string& where) {
        Ops r;
        string err;
        if (!read_frame(r, text, &err)) fail("garbage", where + ": " + err + ": " + esc(text));
        return r;
    }

    void create(int n, Kind k, u64 seed) {
        kind = k;
        Rng r{seed};
        rep.resize(size_t(n));
        breed = r.chance(50) ? 0 : r.below(5);
        static const char* since[] = {"1hLHRG", "0000000001", "1", "1hLHRG0001", "1hLHRGzz~z"};
        obj = time_id(name64(since[r.chance(60) ? 0 : r.below(5)]), origin(0));
        MOp root;
        root.id = obj;
        root.ref = name_id(NAME_OF[k]);
        all[obj] = root;
        for (auto& p : rep) {
            p.skew = r.chance(50) ? 0 : r.in(-50, 50);
            p.has.insert(obj);
            p.log.push_back(root);
            p.state = text_of({root});
        }
    }

    U stamp(size_t r, Rng& g) {
        u64 hi = obj.v;
        for (auto& i : rep[r].has) hi = std::max(hi, i.v);
        // the clock, or the next tick after all that has been seen
        i64 clk = i64(obj.v) + global_us - EPOCH_US + rep[r].skew;
        u64 v = std::max<i64>(clk, i64(hi) + 1);
        if (g.chance(20)) v += g.below(3000);
        return time_id(v, origin(r));
    }

    /** a user edits his own replica */
    void edit(size_t r, u64 seed, int paste = 0) {
        Rng g{seed};
        Replica& p = rep[r];
        Ops ops;
        U id = stamp(r, g);
        auto next = [&](U ref) {
            MOp o;
            o.id = id;
            o.ref = ref;
            id.v++;
            return o;
        };
        if (kind == RGA) {
            Ops tree = ct_order(ops_of(p.has));
            U at = tree[g.below(tree.size())].id;
            int n = int(g.in(1, 5)), what = int(g.below(100));
            if (paste) n = paste;
            // mostly what an editor does: insert or remove at an entry; sometimes anything anywhere
            if (what < 85) {
                std::vector<U> e;
                for (auto& o : tree)
                    if (kind_of(o) == V_ENTRY) e.push_back(o.id);
                at = e[g.below(e.size())];
            }
            for (int i = 0; i < n; i++) {
                MOp o = next(at);
                if (what < 50)
                    o.vals.push_back(Val::S(string(1, char(g.in('a', 'z')))));
                else if (what < 55)
                    o.vals.push_back(Val::S(gen_text(g, 1, true)));
                else if (what < 75)
                    o.vals.push_back(Val::Id(name_id("rm")));
                else if (what < 85)
                    o.vals.push_back(Val::Id(name_id(i < (paste ? paste / 2 : int(g.below(4)) + 1) ? "rm" : "un")));
                else if (what < 92)
                    o.vals.push_back(Val::Id(name_id("un")));
                else
                    o.vals.push_back(g.chance(40) ? Val::Id(name_id("rm"))
                                                  : g.chance(50) ? Val::Id(name_id("un")) : Val::S("x"));
                at = o.id;
                ops.push_back(o);
            }
        } else if (kind == MAX) {
            MOp o = next(obj);
            switch (g.below(8)) {
                case 0: {
                    static const double base[] = {1, 0.1, -1e15, 123456.789, 3e9, -2.5};
                    o.vals.push_back(Val::F(g.chance(60) ? double(g.in(-8, 8)) / 2 : base[g.below(6)] * (1 + double(g.in(-3, 3)) * 1e-12)));
                    break;
                }
                case 1: o.vals.push_back(Val::Id(time_id(obj.v + g.below(4), origin(g.below(3))))); break;
                case 2: o.vals.push_back(Val::S(gen_text(g, 2, true))); break;
                default: o.vals.push_back(Val::I(g.in(-5, 5))); break;
            }
            ops.push_back(o);
        } else {
            int n = int(g.in(1, 4));
            if (paste) n = paste;
            U prev = obj;
            for (int i = 0; i < n; i++) {
                MOp o = next(g.chance(50) ? obj : prev);
                prev = o.id;
                if (kind == LWW) {
                    static const char* keys[] = {"a", "b", "key", "longkeyyy"};
                    const char* key = keys[g.below(4)];
                    o.vals.push_back(g.chance(90) ? Val::Id(name_id(key)) : g.chance(50) ? Val::S(key) : Val::I(g.in(0, 2)));
                    o.vals.push_back(gen_val(g, 5));
                } else if (kind == MX) {
                    o.vals.push_back(Val::I(g.in(0, 3)));
                    o.vals.push_back(Val::I(g.in(0, 3)));
                    o.vals.push_back(gen_val(g, 5));
                } else {
                    for (i64 k = g.in(0, 3); k > 0; k--) o.vals.push_back(gen_val(g, 5));
                }
                ops.push_back(o);
            }
        }
        for (auto& o : ops) all[o.id] = o;
        // apply to the own state first: a local merge
        std::vector<Msg> in{Msg{render(ops, seed >> 3), ops}};
        merge(r, in, g);
        // and tell the others
        for (size_t q = 0; q < rep.size(); q++)
            if (q != r) {
                Msg m{render(ops, g.next()), ops};
                rep[q].inbox.push_back(m);
            }
    }

    /** merge the state with the frames, all at once */
    void merge(size_t r, std::vector<Msg>& in, Rng& g) {
        Replica& p = rep[r];
        std::vector<string> texts{p.state};
        for (auto& m : in) texts.push_back(m.text);
        if (g.chance(50))
            for (size_t i = texts.size() - 1; i > 0; i--) std::swap(texts[i], texts[g.below(i + 1)]);
        std::set<U> want = p.has;
        for (auto& m : in)
            for (auto& o : m.ops) want.insert(o.id);
        RCursors cs;
        for (auto& t : texts) {
            cs.emplace_back(t);
            if (!cs.back().Next()) cs.pop_back();
        }
        RFrame out;
        Status ok;
        if (g.chance(30) && kind != META && kind != YARN) {
            std::vector<RFrame> fs;
            for (auto& t : texts) fs.emplace_back(t);
            ok = ron::MergeFrames<RFrame>(out, fs);
        } else if (g.chance(30)) {
            string s;
            ron::Strings ss{texts.begin(), texts.end()};
            ok = ron::MergeStrings<RFrame>(s, FORM_OF[kind], ss);
            out = RFrame{s};
        } else
            ok = ron::MergeCursors<RFrame>(out, FORM_OF[kind], cs);
        string where = "replica " + std::to_string(r) + " merges " + std::to_string(texts.size()) + " frames of " +
                       NAME_OF[kind];
        cx->ev("merge " + std::to_string(r) + " " + ok.str() + " " + out.data());
        if (!attachable(want)) {
            cx->probe("merge.causebreak");
            if (ok) fail("orphans-accepted", where + ": pieces that cannot be attached are reported as merged");
            // keep them for later
            for (auto& m : in) p.inbox.push_back(m);
            return;
        }
        if (!ok) fail("merge-fails", where + ": " + ok.str() + tell(texts));
        Ops got = parse(out.data(), where);
        Ops exp = model(want);
        if (got != exp) {
            string cls = "wrong-order";
            std::set<U> a, b;
            for (auto& o : got) a.insert(o.id);
            for (auto& o : exp) b.insert(o.id);
            if (a.size() != got.size()) cls = "duplicate-op";
            for (auto& i : b)
                if (!a.count(i)) cls = "lost-op";
            for (auto& i : a)
                if (!b.count(i)) cls = "phantom-op";
            if (cls == "wrong-order") {
                std::map<U, MOp> g2;
                for (auto& o : got) g2[o.id] = o;
                for (auto& o : exp)
                    if (g2[o.id] != o) cls = "changed-op";
            }
            fail(cls, where + "\n  got  " + show(got, 60) + "\n  want " + show(exp, 60) + tell(texts));
        }
        // a log is causally ordered
        for (bool more = true; more;) {
            more = false;
            for (auto& m : in)
                for (auto& o : m.ops)
                    if ((kind != RGA || p.has.count(o.ref)) && p.has.insert(o.id).second) {
                        p.log.push_back(o);
                        more = true;
                    }
        }
        p.state = out.data();
        cx->state(hstr(p.state, u64(kind) + 1));
        if (views) look(r, exp);
    }
    string tell(const std::vector<string>& t) {
        string s;
        for (auto& x : t) s += "\n  in: " + esc(x).substr(0, 600);
        return s;
    }

    /** the views of the state */
    void look(size_t r, const Ops& ops) {
        Replica& p = rep[r];
        RFrame f{p.state};
        if (kind == RGA) {
            ron::Booleans tombs;
            Status ok = ron::ScanRGA<RFrame>(tombs, f);
            if (!ok) fail("scan-fails", "visibility scan of a valid state: " + ok.str() + ": " + esc(p.state));
            if (tombs.size() != ops.size())
                fail("scan-size", "the visibility map has " + std::to_string(tombs.size()) + " entries for " +
                                      std::to_string(ops.size()) + " ops");
            auto vis = visible(ops);
            for (size_t i = 0; i < ops.size(); i++)
                if (tombs[i] == (vis.count(ops[i].id) > 0))
                    fail(tombs[i] ? "hidden-entry" : "shown-entry",
                         "op #" + std::to_string(i) + " " + ops[i].str() + " is " + (tombs[i] ? "hidden" : "shown") +
                             " in " + show(ops, 60));
        } else if (kind == LWW) {
            ron::LWWObject<RFrame> o{f};
            std::map<U, Val> last;
            for (auto& x : ops)
                if (x.vals.size() == 2 && x.vals[0].t == ron::UUID) last[x.vals[0].u] = x.vals[1];
            for (auto k : {name_id("a"), name_id("b"), name_id("key"), name_id("longkeyyy")}) {
                auto l = last.find(k);
                bool have = l != last.end();
                string where = "key " + ustr(k) + (have ? " = " + l->second.str() : " absent") + " in " + show(ops, 60);
                ron::Uuid u = o.uuid(R_(k));
                if (U_(u) != (have && l->second.t == ron::UUID ? l->second.u : U{}))
                    fail("wrong-value", "an id is read as " + u.str() + ", " + where);
                double d = o.number(R_(k));
                if (have && l->second.t == ron::FLOAT ? d != l->second.f : d == d)
                    fail("wrong-value", "a number is read as " + std::to_string(d) + ", " + where);
                {
                    string s = o.string(R_(k));
                    if (s != (have && l->second.t == ron::STRING ? l->second.s : "")) fail("wrong-value", "a string is read as '" + esc(s) + "', " + where);
                }
                if (have && l->second.t == ron::INT) {
                    ron::Atom a = o.atom(R_(k), ron::INT);
                    if (a.value.as_integer != l->second.i) fail("wrong-value", "an int is misread, " + where);
                }
            }
            // garbage collection leaves the last write of each field
            Ops win;
            for (size_t i = 0; i < ops.size(); i++) {
                bool over = false;
                for (size_t k = i + 1; k < ops.size() && !ops[i].vals.empty(); k++)
                    over = over || (!ops[k].vals.empty() && ops[k].vals[0] == ops[i].vals[0]);
                if (!over) win.push_back(ops[i]);
            }
            RBuilder b;
            Status ok = ron::LastWriteWinsRDT<RFrame>{}.GC(b, f);
            if (!ok) fail("gc-fails", "garbage collection of a valid state: " + ok.str() + ": " + esc(p.state));
            string text = b.Release().data();
            Ops got = parse(text, "gc");
            if (got != win) fail("gc-state", "garbage collection of " + show(ops, 60) + "\n  got  " + show(got, 60) + "\n  want " + show(win, 60));
            cx->probe("lww.gc");
        }
    }

    /** rebuild a state from the log of ops in the order of arrival, also at an older version */
    void from_log(size_t r, u64 seed) {
        if (kind == META || kind == YARN || kind == MAX) return;
        Replica& p = rep[r];
        Rng g{seed};
        string log = render(p.log, g.next());
        size_t upto = g.chance(40) ? p.log.size() : 1 + g.below(p.log.size());
        RFrame out;
        Status ok = upto == p.log.size()
                        ? ron::ObjectLogToState<RFrame>(out, RFrame{log})
                        : ron::ObjectLogToState<RFrame>(out, RFrame{log}, R_(p.log[upto - 1].id));
        cx->ev("log " + ok.str() + " " + out.data());
        if (!ok) fail("log-fails", "a log of " + std::to_string(upto) + " ops into a state: " + ok.str() + ": " + esc(log));
        std::set<U> ids;
        for (size_t i = 0; i < upto; i++) ids.insert(p.log[i].id);
        Ops got = parse(out.data(), "log to state"), exp = model(ids);
        if (got != exp)
            fail("log-state", "the state made from a log up to op #" + std::to_string(upto) + " of " + esc(log) +
                                  "\n  got  " + show(got, 60) + "\n  want " + show(exp, 60));
        cx->probe("log.to_state");
    }

    void send(size_t a, size_t b, u64 seed) {
        if (a == b) return;
        Rng g{seed};
        Replica &p = rep[a], &q = rep[b];
        Msg m;
        if (kind == RGA && g.chance(50)) {
            // a subtree, maybe cut short
            Ops tree = ct_order(ops_of(p.has));
            size_t i = g.below(tree.size());
            std::set<U> in{tree[i].id};
            m.ops.push_back(tree[i]);
            size_t max = g.chance(40) ? 1 + g.below(6) : tree.size();
            for (size_t k = i + 1; k < tree.size() && m.ops.size() < max && in.count(tree[k].ref); k++) {
                in.insert(tree[k].id);
                m.ops.push_back(tree[k]);
            }
            m.text = render(m.ops, g.next());
            cx->probe("send.subtree");
        } else if (kind != RGA && g.chance(40)) {
            // any subset: the types are commutative op by op
            for (auto& o : id_order(ops_of(p.has)))
                if (g.chance(50) && !(kind == MAX && o.id == obj)) m.ops.push_back(o);
            if (kind == MAX) m.ops = ops_of(p.has), m.ops.erase(m.ops.begin());
            if (m.ops.empty()) return;
            m.text = render(m.ops, g.next());
            cx->probe("send.subset");
        } else {
            m.text = p.state;
            m.ops = ops_of(p.has);
            cx->probe("send.state");
        }
        q.inbox.push_back(m);
    }

    void gather(size_t r, u64 seed) {
        Replica& p = rep[r];
        Rng g{seed};
        std::vector<Msg> in;
        size_t n = std::min<size_t>(p.inbox.size(), 1 + (g.chance(20) ? g.below(80) : g.below(7)));
        for (size_t i = 0; i < n; i++) {
            size_t k = g.below(p.inbox.size());  // any order
            if (k) cx->faults["net.reorder"]++;
            in.push_back(p.inbox[k]);
            p.inbox.erase(p.inbox.begin() + long(k));
        }
        if (!in.empty()) merge(r, in, g);
    }

    void step(const Step& s) {
        size_t r = s.uarg(0) % rep.size();
        if (s.op == "edit")
            edit(r, s.uarg(1));
        else if (s.op == "paste")
            edit(r, s.uarg(1), int(s.uarg(2) % 70000) + 1);
        else if (s.op == "send")
            send(r, s.uarg(1) % rep.size(), s.uarg(2));
        else if (s.op == "merge")
            gather(r, s.uarg(1));
        else if (s.op == "drop") {
            auto& in = rep[r].inbox;
            if (!in.empty()) {
                in.erase(in.begin() + long(s.uarg(1) % in.size()));
                cx->fault("net.loss");
            }
        } else if (s.op == "dup") {
            auto& in = rep[r].inbox;
            if (!in.empty()) {
                in.push_back(in[s.uarg(1) % in.size()]);
                cx->fault("net.duplicate");
            }
        } else if (s.op == "crash") {
            rep[r].inbox.clear();
            cx->fault("process_crash");
        } else if (s.op == "skew") {
            rep[r].skew = s.arg(1);
            cx->fault("clock.jump");
        } else if (s.op == "log")
            from_log(r, s.uarg(1));
        else if (s.op == "tick")
            global_us += s.arg(1);
    }

    /** the network heals: a state exchange in any order makes all the replicas equal */
    void heal(u64 seed) {
        Rng g{seed};
        for (int round = 0; round < 2; round++) {
            std::vector<std::pair<size_t, size_t>> e;
            for (size_t a = 0; a < rep.size(); a++)
                for (size_t b = 0; b < rep.size(); b++)
                    if (a != b) e.emplace_back(a, b);
            for (size_t i = e.size() - 1; i > 0; i--) std::swap(e[i], e[g.below(i + 1)]);
            for (auto& x : e) {
                Msg m;
                m.text = rep[x.first].state;
                m.ops = ops_of(rep[x.first].has);
                std::vector<Msg> in{m};
                if (g.chance(30)) in.push_back(m);
                merge(x.second, in, g);
            }
        }
        std::set<U> got = rep[0].has;
        for (size_t r = 0; r < rep.size(); r++) {
            rep[r].inbox.clear();
            if (rep[r].has != got) fail("not-converged", "bookkeeping");
            if (parse(rep[r].state, "final") != parse(rep[0].state, "final"))
                fail("not-converged", "replicas 0 and " + std::to_string(r) + " differ after the exchange\n  " +
                                          esc(rep[0].state) + "\n  " + esc(rep[r].state));
            from_log(r, g.next());
        }
    }
};

void exec(const Plan& p, Kind dflt, bool views) {
    Gossip w;
    w.views = views;
    size_t i = 0;
    if (!p.empty() && p[0].op == "cfg") {
        w.create(int(2 + p[0].uarg(0) % 3), Kind(p[0].uarg(1) % 6), p[0].uarg(2));
        i = 1;
    } else
        w.create(2, dflt, 1);
    u64 h = 7;
    for (; i < p.size(); i++) {
        cx->ev("> " + p[i].str());
        w.step(p[i]);
        h = mix64(h + hstr(p[i].str()));
    }
    w.heal(h);
}

Plan gen(Rng& r, std::vector<Kind> kinds) {
    Plan p;
    p.push_back(Step{"cfg", {r.in(0, 2), kinds[r.below(kinds.size())], r.in(1, 1 << 30)}});
    int n = int(r.in(8, 60));
    // swarm: how often each thing happens
    int e = int(r.in(5, 30)), m = int(r.in(5, 30)), s = int(r.in(0, 15)), d = int(r.in(0, 8)), u = int(r.in(0, 8)),
        c = int(r.in(0, 3)), k = int(r.in(0, 3)), l = int(r.in(0, 8)), t = int(r.in(0, 4));
    int tot = e + m + s + d + u + c + k + l + t;
    int bulk = r.chance(2) ? 20 : r.chance(8) ? 2 : 0;
    if (r.chance(5)) n = int(r.in(60, 140)), m = int(r.in(0, 3)), tot = e + m + s + d + u + c + k + l + t;  // merges are rare
    for (int i = 0; i < n; i++) {
        int x = int(r.below(u64(tot)));
        i64 a = r.in(0, 3), b = r.in(0, 3), seed = r.in(1, 1LL << 40);
        if (bulk && r.chance(bulk)) p.push_back(Step{"paste", {a, seed, r.chance(90) ? r.in(6, 70) : r.in(70, 700)}});
        if ((x -= e) < 0)
            p.push_back(Step{"edit", {a, seed}});
        else if ((x -= m) < 0)
            p.push_back(Step{"merge", {a, seed}});
        else if ((x -= s) < 0)
            p.push_back(Step{"send", {a, b, seed}});
        else if ((x -= d) < 0)
            p.push_back(Step{"drop", {a, r.in(0, 20)}});
        else if ((x -= u) < 0)
            p.push_back(Step{"dup", {a, r.in(0, 20)}});
        else if ((x -= c) < 0)
            p.push_back(Step{"crash", {a}});
        else if ((x -= k) < 0)
            p.push_back(Step{"skew", {a, r.in(-3000, 3000)}});
        else if ((x -= l) < 0)
            p.push_back(Step{"log", {a, seed}});
        else
            p.push_back(Step{"tick", {a, r.in(1, 5000)}});
    }
    return p;
}

const char* STUBS =
    "real: rdt/* (merge, causal trees, visibility, object view, log to state), ron/* (parser, builder, UUIDs); "
    "simulated: network, clocks, replica storage (a string)";

void add(const char* name, const char* prop, const char* what, std::vector<Kind> kinds, bool views = true) {
    World w;
    w.name = name;
    w.property = prop;
    w.what = what;
    w.gen = [=](Rng& r) { return gen(r, kinds); };
    w.exec = [=](const Plan& p) { exec(p, kinds[0], views); };
    w.stubs = STUBS;
    worlds().push_back(w);
}
struct Init {
    Init() {
        add("rdt_id", "C08", "gossip of registers, matrices and id-ordered records", {LWW, LWW, MX, META, YARN});
        add("rdt_max", "C08", "gossip of max registers", {MAX});
        add("rdt_rga", "C09", "gossip of causal trees", {RGA}, false);
        add("rdt_vis", "C10", "gossip of causal trees: what is visible", {RGA}, true);
    }
} init;

}  // namespace
}  // namespace sim
