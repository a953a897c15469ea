// The command line tool, db/main.cc, run as a process of its own over the same
// disk: each command opens the replica, does its thing, exits. Included by
// w_replica.cc.

/** what a run of swarmdb leaves */
struct CliOut {
    int rc = 0;
    string out, err;
    bool down = false;
};

struct CliSim : Sim {
    struct Cap {
        std::ostringstream os;
        std::ostream& to;
        std::streambuf* was;
        explicit Cap(std::ostream& s) : to{s}, was{s.rdbuf(os.rdbuf())} {}
        ~Cap() { to.rdbuf(was); }
    };

    std::map<size_t, std::map<U, U>> tags;  // node -> names in the metadata store

    CliOut run(N& x, const std::vector<string>& args) {
        std::vector<char*> av;
        std::vector<string> keep{"swarmdb"};
        keep.insert(keep.end(), args.begin(), args.end());
        string all;
        for (auto& a : keep) av.push_back(&a[0]), all += a + " ";
        av.push_back(nullptr);
        CliOut r;
        {
            Cap o{std::cout}, e{std::cerr};
            Api api{x};
            if (api.on) x.armed = true;
            std::cout.clear();
            r.rc = swarmdb_main(int(keep.size()), av.data());
            x.node.cwd.clear();
            std::cout.flush();
            r.out = o.os.str();
            r.err = e.os.str();
        }
        r.down = x.node.disk.down;
        cx->ev("$ " + all + "= " + std::to_string(r.rc) + (r.down ? " DOWN" : "") + " " + r.out + " / " + r.err);
        cx->probe("cli." + (args.empty() ? "" : args[0]) + (r.rc ? ".no" : ".ok"));
        return r;
    }

    std::map<U, U> read_tags(N& x, const string& why) {
        Commit c{*x.rep, ron::Uuid::NIL};
        Rep::Names names;
        Status ok = c.ReadNames(names);
        if (!ok) fail("read-fails", why + ": names of branches: " + ok.str());
        std::map<U, U> r;
        for (auto& n : names) r[U_(n.first)] = U_(n.second);
        return r;
    }
    static string show_tags(const std::map<U, U>& t) {
        string s;
        for (auto& p : t) s += " " + ustr(p.first) + "=" + ustr(p.second);
        return s;
    }

    /** what a command might change */
    struct Effect {
        std::map<u64, Cands> br;    // branches that could differ
        bool new_branch = false;    // makes a branch of a random id
        Br from;                    // and this is what it takes over (fork)
        U tag, tag_to;              // a name in the metadata store (tag_to = the new branch, if any)
        bool sets_active = false;
        U active;                   // (the new branch, if any)
    };
    static Br forked(const Br& from, u64 y, const U& tip) {
        if (pl(tip.o) != y) return Br{};
        if (from.yarn == 0) return fresh_branch(y, tip);
        Br f = from;
        f.yarn = y;
        MOp o;
        o.id = tip;
        o.ref = name_id("yarn");
        f.add(o);
        f.tip = tip;
        return f;
    }
    /** the process is gone; see what it has left behind.
     *  @param all  the effect must be there, `none`: must not be */
    void after(size_t n, const CliOut& r, Effect e, bool may, const string& what) {
        N& x = *nodes[n];
        bool all = r.rc == 0 && !r.down, none = !all && !(r.down || x.armed);
        if (!may) all = false, none = true;
        disarm(x.node);
        x.armed = false;
        if (x.node.disk.down) x.node.disk.restart();
        string why = "after `" + what + "`" + (all ? "" : none ? " (no effect)" : " (interrupted)");
        std::map<U, U> now_tags;
        U act, nb;
        {
            Rep probe;
            Status ok = probe.Open();
            if (!ok) fail("cant-open", why + ": " + ok.str());
            ron::Uuids list;
            probe.ListStores(list);
            for (auto& u : list)
                if (!U_(u).zero() && !x.br.count(pl(u.origin.as_u64))) {
                    if (!e.new_branch || !nb.zero() || none) fail("branch-phantom", why + ": a branch from nowhere " + ustr(U_(u)));
                    nb = U_(u);
                }
            act = U_(probe.active_store());
        }
        if (e.new_branch) {
            if (all && nb.zero()) fail("branch-lost", why + ": no new branch");
            if (!nb.zero()) {
                u64 y = pl(nb.o);
                if (used.count(y)) fail("id-collision", why + ": the new branch has the id of another one, " + ustr(nb));
                used.insert(y);
                if (all && r.out != ustr(nb) + "\n") fail("wrong-output", why + ": a branch is created, " + ustr(nb) + ", output " + esc(r.out));
                Cands c;
                Br from = e.from;
                c.is.push_back([=](const U& tip) { return forked(from, y, tip); });
                e.br[y] = c;
                x.fork_of[y] = branch_uuid(from.yarn);
            }
            e.tag_to = e.active = nb;
        }
        U active2 = e.sets_active ? e.active : x.active;
        if (all && e.sets_active) x.active = e.active;
        std::map<u64, Cands> unsure;
        if (!none) unsure = e.br;
        if (all)
            for (auto& p : unsure)  // only the last one
                p.second.is.erase(p.second.is.begin(), p.second.is.end() - 1), p.second.absent = p.second.absent && p.second.is.empty();
        restart(n, why, unsure, !all && !none && e.sets_active, active2);
        x.shown += 1000;
        now_tags = read_tags(x, why);
        std::map<U, U> want = tags[n], want2 = want;
        if (!e.tag.zero()) want2[e.tag] = e.tag_to;
        if (all) want = want2;
        if (now_tags != want && (all || none || now_tags != want2 || e.tag_to.zero()))
            fail("wrong-names", why + ": names of branches:" + show_tags(now_tags) + ", must be" + show_tags(want));
        tags[n] = now_tags;
    }

    //  A R G U M E N T S

    string branch_arg(size_t n, const U& id, Rng& r) {
        for (auto& t : tags[n])
            if (t.second == id && is_camel(t.first) && r.chance(75)) return ustr(t.first);
        return ustr(id);
    }
    static bool is_camel(const U& name) {
        string s = ustr(name);
        bool lo = false, up = false;
        for (char c : s) lo = lo || islower(c), up = up || isupper(c);
        return lo && up;
    }
    static bool is_snake(const U& name) {
        string s = ustr(name);
        bool lo = false, up = false;
        for (char c : s) lo = lo || islower(c), up = up || isupper(c);
        return lo && !up;
    }
    static string camel(Rng& r) {
        static const char* n[] = {"Work", "Home", "Experiment", "Ab", "MyBranch", "TestFork1", "NoteBook", "Zz"};
        return n[r.below(8)];
    }
    static string snake(Rng& r) {
        static const char* n[] = {"readme", "todo", "x", "some_list", "longername", "a1"};
        return n[r.below(6)];
    }
    static string bad_camel(Rng& r) {
        static const char* n[] = {"work", "WORK", "1234", "WayTooLongForAName", "Wo-rk", "Wo rk", "Wo+rk", "", "0"};
        return n[r.below(9)];
    }
    U some_branch(N& x, Rng& r) {
        auto i = x.br.begin();
        std::advance(i, long(r.below(x.br.size())));
        return branch_uuid(i->first);
    }
    /** picks the branch: the active one or any, then with `on` */
    U target(size_t n, std::vector<string>& tail, Rng& r) {
        N& x = *nodes[n];
        if (r.chance(45) || x.br.empty()) return x.active;
        U b = some_branch(x, r);
        tail = {"on", branch_arg(n, b, r)};
        return b;
    }
    static bool is_mirror(N& x, const U& b) { return !b.zero() && !x.fork_of.count(pl(b.o)) && pl(b.o) != x.own; }
    string no_branch(size_t n, Rng& r) {
        switch (r.below(5)) {
            case 0: return "Nosuch";
            case 1: return "~+nosuch";
            case 2: return "lower";
            case 3: return "@#$";
            default: {  // an id of an event, not a branch
                N& x = *nodes[n];
                if (x.br.empty()) return "~+nosuch";
                return ustr(x.br.begin()->second.tip.v ? x.br.begin()->second.tip : time_id(1, x.own));
            }
        }
    }
    bool is_branch(N& x, const U& id) { return !id.zero() && x.br.count(pl(id.o)) && id == branch_uuid(pl(id.o)); }
    using Strs = std::vector<string>;
    static Strs cat(Strs a, const Strs& b) {
        a.insert(a.end(), b.begin(), b.end());
        return a;
    }
    static string join(const Strs& a) {
        string s;
        for (auto& t : a) s += (s.empty() ? "" : " ") + t;
        return s;
    }

    /** exit code and effect as expected? */
    void finish_cmd(size_t n, const Strs& args, const CliOut& r, const Effect& e, Exp exp) {
        N& x = *nodes[n];
        bool faulty = r.down || x.armed;
        if (r.rc == 0 && !r.down && exp == MUST_REFUSE)
            fail("accepted-bad", "`" + join(args) + "` is not refused: " + esc(r.out));
        if (r.rc != 0 && exp == MUST_OK && !faulty) fail("refused-good", "`" + join(args) + "`: " + esc(r.out + r.err));
        after(n, r, e, exp != MUST_REFUSE, join(args));
    }

    //  C O M M A N D S

    void do_cli(size_t n, u64 verb, u64 b, u64 seed) {
        N& x = *nodes[n];
        NodeScope s{x.node};
        Rng r{seed};
        (void)b;
        x.node.rand_state = r.next();
        Strs args, tail;
        Effect e;
        if (verb == 20) return locked(n, r);
        if (verb == 16) return scenario(n, r);
        switch (verb) {
            case 0:
            case 1: {  // create, fork
                if (x.br.size() > 5) return;
                bool fork = verb == 1;
                args = {fork ? "fork" : "create"};
                Exp exp = MUST_OK;
                if (r.chance(60)) {
                    bool bad = r.chance(12);
                    string name = bad ? bad_camel(r) : camel(r);
                    args.push_back("as");
                    if (!(bad && r.chance(20))) args.push_back(name);
                    if (bad) exp = MUST_REFUSE;
                    else e.tag = name_id(name.c_str());
                } else if (r.chance(6)) {
                    args.push_back("stuff");
                    exp = MUST_REFUSE;
                }
                if (fork && x.active.zero()) exp = MUST_REFUSE;
                e.new_branch = e.sets_active = true;
                if (fork && !x.active.zero()) e.from = x.br.at(pl(x.active.o));
                exec(n, args, e, exp);
                return;
            }
            case 2: {  // drop
                std::vector<u64> can;
                for (auto& p : x.br)
                    if (x.fork_of.count(p.first)) can.push_back(p.first);
                if (can.empty() || r.chance(15)) {
                    static const char* bad[] = {"", "0", "~+nosuch", "Nosuch", "lower", "~~~bad~~~id"};
                    string a = bad[r.below(6)];
                    if (r.chance(30) && !x.br.empty()) a = ustr(x.br.begin()->second.tip);  // an event is not a branch
                    for (auto& t : tags[n])
                        if (a == ustr(t.first)) return;
                    args = {"drop"};
                    if (!a.empty() || r.chance(50)) args.push_back(a);
                    exec(n, args, e, MUST_REFUSE);
                    return;
                }
                u64 y = can[r.below(can.size())];
                U id = branch_uuid(y);
                args = {"drop", branch_arg(n, id, r)};
                Br was = x.br.at(y);
                Cands c;
                c.absent = true;
                c.is.push_back([=](const U&) { return was; });
                e.br[y] = c;
                if (x.active == id) e.sets_active = true;
                CliOut o = process(n, args);
                if (o.rc == 0 && !o.down) e.br[y].is.clear();
                bool gone = o.rc == 0 && !o.down;
                finish_cmd_drop(n, args, o, e, gone, y);
                return;
            }
            case 3: {  // hop
                args = {"hop"};
                if (r.chance(15)) {
                    if (r.chance(40)) {  // a word missing
                        args.push_back(ustr(some_branch_or_nil(x, r)));
                    } else {
                        args.push_back("on");
                        if (r.chance(80)) args.push_back(known_bad(n, r));
                    }
                    exec(n, args, e, MUST_REFUSE);
                    return;
                }
                e.active = target(n, tail, r);
                if (r.chance(8)) {
                    e.active = U{};
                    tail = {"on", "0"};
                }
                e.sets_active = true;
                exec(n, cat(args, tail), e, MUST_OK);
                return;
            }
            case 4: {  // name
                U branch = target(n, tail, r);
                U id = time_id(r.next(), r.next());
                if (!branch.zero() && r.chance(70)) id = x.br.at(pl(branch.o)).tip;
                if (branch.zero() && !x.br.empty()) id = some_branch(x, r);
                string tag = branch.zero() ? camel(r) : r.chance(70) ? snake(r) : camel(r);
                args = {"name", ustr(id), "as", tag};
                if (r.chance(12)) {
                    switch (r.below(6)) {
                        case 0: args = {"name"}; break;
                        case 1: args = {"name", ustr(id)}; break;
                        case 2: args = {"name", ustr(id), "as"}; break;
                        case 3: args = {"name", "justname", "as", tag}; break;
                        case 4: args = {"name", ustr(id), "as", "123+abc"}; break;
                        default: args = {"name", ustr(id), "as", tag, "on", known_bad(n, r)}; tail.clear();
                    }
                    exec(n, cat(args, tail), e, MUST_REFUSE);
                    return;
                }
                U tid = name_id(tag.c_str());
                if (branch.zero()) {
                    e.tag = tid;
                    e.tag_to = id;
                } else {
                    Br was = x.br.at(pl(branch.o)), now = was;
                    now.names.emplace_back(tid, id);
                    put(e, was, now);
                }
                exec(n, cat(args, tail), e, MUST_OK);
                return;
            }
            case 5: {  // new
                U branch = target(n, tail, r);
                if (is_mirror(x, branch)) return;
                string rdt = RDTS[r.below(4)];
                args = {"new", rdt};
                Exp exp = MUST_OK;
                string name;
                if (r.chance(50) && !branch.zero()) {
                    name = snake(r);
                    args.push_back("as");
                    args.push_back(name);
                }
                if (branch.zero()) exp = EITHER;  // it has no yarn of its own
                if (r.chance(12)) {
                    exp = MUST_REFUSE;
                    switch (r.below(6)) {
                        case 0: args = {"new"}; break;
                        case 1: args = {"new", "foo"}; break;
                        case 2: args = {"new", rdt, "as", camel(r)}; break;
                        case 3: args = {"new", rdt, "stuff"}; break;
                        case 4: args = {"new", rdt, "as", "12345+abc"}; break;
                        default: args = {"new", rdt, "on", known_bad(n, r)}; tail.clear();
                    }
                    if (args.size() == 1) tail.clear();
                }
                if (exp != MUST_OK) {
                    exec(n, cat(args, tail), e, exp);
                    return;
                }
                Br was = x.br.at(pl(branch.o));
                Cands c;
                c.is.push_back([=](const U&) { return was; });
                c.is.push_back([=](const U& tip) {
                    Br b = was;
                    if (tip == was.tip) return Br{};
                    MOp o;
                    o.id = tip;
                    o.ref = name_id(rdt.c_str());
                    if (!b.why_not(o).empty() || pl(tip.o) != was.yarn) return Br{};
                    b.add(o);
                    b.tip = tip;
                    if (!name.empty()) b.names.emplace_back(name_id(name.c_str()), tip);
                    return b;
                });
                e.br[was.yarn] = c;
                seen_by_tips(x);
                U was_seen = x.seen;
                CliOut o = exec(n, cat(args, tail), e, MUST_OK);
                if (o.rc == 0 && !o.down) {
                    U tip = x.br.at(was.yarn).tip;
                    if (o.out != ustr(tip) + "\n") fail("wrong-output", "`" + join(args) + "` has created " + ustr(tip) + ", output " + esc(o.out));
                    x.seen = was_seen;
                    check_now(x, tip, was.yarn, "`new`");
                }
                return;
            }
            case 6: return write(n, r);
            case 7: return init(n, r);
            case 8: {  // bad ones
                static const char* bad[] = {"", "foo", "New", "CREATE", "list foo", "named foo", "named objects on", "get", "get lww", "get lww of",
                                            "get lww of nosuchname", "get +++ of 1+a", "recall", "recall 123+abc", "recall foo of 123+abc",
                                            "recall 123+abc of", "dump Nosuch", "dump ~+nosuch", "write nosuchfile", "now on", "lists", "recall 1+a of 2+b"};
                size_t k = r.below(22);
                std::istringstream is{bad[k]};
                string w;
                while (is >> w) args.push_back(w);
                Exp exp = args.empty() || args[0] == "now" ? EITHER : MUST_REFUSE;
                exec(n, args, e, exp);
                return;
            }
            case 9: return show_list(n, r);
            case 10: return show_named(n, r);
            case 11: return show_get(n, r);
            case 12: return show_recall(n, r);
            case 13: return show_dump(n, r);
            case 14: {  // now
                U act = x.active;
                seen_by_tips(x);
                U was_seen = x.seen;
                CliOut o = process(n, {"now"});
                if (o.rc == 0 && !o.down) {
                    RFrame f{"@" + trim(o.out) + " :lww;"};
                    RCursor c{f};
                    if (!c.Next()) fail("wrong-output", "`now`: " + esc(o.out));
                    x.seen = was_seen;
                    check_now(x, U_(c.id()), pl(act.o), "`now`");
                }
                finish_cmd(n, {"now"}, o, e, MUST_OK);
                return;
            }
            default: {  // on
                std::set<string> want{ustr(x.active)};
                bool named = false;
                for (auto& t : tags[n])
                    if (t.second == x.active) {
                        named = true;
                        want.insert(ustr(t.first));
                    }
                if (x.active.zero()) want = {""};
                if (named) want.erase(ustr(x.active));
                CliOut o = process(n, {"on"});
                if (o.rc == 0 && !o.down && !want.count(trim(o.out)) && !(x.active.zero() && named))
                    fail("wrong-output", "`on` says " + esc(o.out) + ", the active branch is " + *want.begin());
                finish_cmd(n, {"on"}, o, e, MUST_OK);
                return;
            }
        }
    }
    static string trim(string s) {
        while (!s.empty() && isspace(s.back())) s.pop_back();
        return s;
    }
    U some_branch_or_nil(N& x, Rng& r) { return x.br.empty() ? U{} : some_branch(x, r); }
    string known_bad(size_t n, Rng& r) {
        while (true) {
            string s = no_branch(n, r);
            bool known = false;
            for (auto& t : tags[n]) known = known || ustr(t.first) == s;
            if (!known) return s;
        }
    }
    void put(Effect& e, const Br& was, const Br& now) {
        Cands c;
        c.is.push_back([=](const U&) { return was; });
        c.is.push_back([=](const U&) { return now; });
        e.br[was.yarn] = c;
    }
    /** the resident process goes, the tool comes */
    CliOut process(size_t n, const Strs& args) {
        N& x = *nodes[n];
        x.rep.reset();
        if (x.node.disk.down) {  // died closing
            bool armed = x.armed;
            restart(n, "after a crash on closing");
            x.rep.reset();
            (void)armed;
        }
        return run(x, args);
    }
    CliOut exec(size_t n, const Strs& args, const Effect& e, Exp exp) {
        CliOut o = process(n, args);
        finish_cmd(n, args, o, e, exp);
        return o;
    }
    void finish_cmd_drop(size_t n, const Strs& args, const CliOut& o, Effect e, bool gone, u64 y) {
        N& x = *nodes[n];
        if (o.rc != 0 && !o.down && !x.armed) fail("refused-good", "`" + join(args) + "`: " + esc(o.out + o.err));
        if (!gone) {
            finish_cmd(n, args, o, e, EITHER);
            return;
        }
        bool was_active = x.active == branch_uuid(y);
        x.br.erase(y);
        x.hist.erase(y);
        Effect none;
        if (was_active) {
            none.sets_active = true;
            none.active = U{};
        }
        finish_cmd(n, args, o, none, EITHER);
        if (x.rep->HasBranch(Word{y})) fail("branch-back", "a dropped branch is still listed");
    }
    /** another process has the database open: refused, nothing changes */
    void locked(size_t n, Rng& r) {
        N& x = *nodes[n];
        static const char* cmds[] = {"init", "create", "fork", "hop", "list", "new lww", "on", "now", "dump"};
        Strs args;
        std::istringstream is{cmds[r.below(9)]};
        string w;
        while (is >> w) args.push_back(w);
        CliOut o = run(x, args);
        if (o.rc == 0 && !o.down) fail("accepted-bad", "`" + join(args) + "` while another process has the database open: " + esc(o.out));
        x.rep.reset();
        Effect e;
        finish_cmd(n, args, o, e, EITHER);
    }
    void init(size_t n, Rng&) {
        N& x = *nodes[n];
        Effect e;
        CliOut o = process(n, {"init"});
        bool faulty = o.down || x.armed;
        if (o.rc == 0 && !faulty) fail("accepted-bad", "`init` over an existing replica is not refused");
        finish_cmd(n, {"init"}, o, e, EITHER);
    }
    void write(size_t n, Rng& r) {
        N& x = *nodes[n];
        Strs tail;
        U branch = target(n, tail, r);
        if (is_mirror(x, branch)) return;
        Items items;
        Exp exp = MUST_OK;
        Effect e;
        string text;
        u64 y = pl(branch.o);
        if (branch.zero()) {
            text = "@" + ustr(time_id(1, 0)) + " :lww;";
            exp = MUST_REFUSE;
        } else {
            Br before = x.br.at(y);
            std::function<Br(const U&)> after;
            if (r.chance(40)) {  // as the usage says: unstamped
                std::vector<string> rd{"lww", "rga", "mx"};
                string rdt = rd[r.below(3)];
                int cnt = int(r.in(0, 5));
                std::vector<Val> vals;
                text = "@" + ustr(time_id(1, 0)) + " :" + rdt + ";\n";
                std::vector<std::vector<Val>> vs;
                for (int i = 0; i < cnt; i++) {
                    std::vector<Val> v;
                    if (rdt == "lww") v = {Val::Id(name_id("k")), gen_val(r, 8)};
                    else if (rdt == "rga") v = {Val::S(string(1, char(r.in('a', 'z'))))};
                    else v = {Val::I(r.in(0, 3)), Val::I(r.in(0, 3)), gen_val(r, 8)};
                    MOp o;
                    o.id = time_id(u64(i + 2), 0);
                    o.ref = time_id(u64(rdt == "rga" ? i + 1 : 1), 0);
                    o.vals = v;
                    text += o.str() + (i + 1 == cnt ? ";\n" : ",\n");
                    vs.push_back(v);
                }
                after = [=](const U& tip) {
                    Br a = before;
                    if (tip == before.tip) return Br{};
                    Items its;
                    u64 base = tip.v - u64(cnt + 1);
                    for (int i = 0; i <= cnt; i++) {
                        Item it;
                        it.op.id = time_id(base + u64(i + 1), y);
                        it.op.ref = i ? time_id(base + u64(rdt == "rga" ? i : 1), y) : name_id(rdt.c_str());
                        if (i) it.op.vals = vs[size_t(i - 1)];
                        its.push_back(it);
                    }
                    if (!a.apply(its).empty()) return Br{};
                    return a;
                };
                (void)vals;
            } else {
                items = edit(x, before, r, int(r.in(1, 3)));
                if (r.chance(15)) add_name(x, items, r);
                if (r.chance(15)) {
                    Item it;
                    it.kind = BAD;
                    it.text = r.chance(50) ? "@)(:: bad" : "@notaname :lww 1";
                    items.insert(items.begin() + long(r.below(items.size() + 1)), it);
                }
                after = becomes(before, items, &exp);
                if (exp == MUST_OK) {
                    Br b = after(U{});
                    for (auto& i : items)
                        if (i.kind == OP && i.op.vals.empty() && b.ops.at(i.op.id).rdt == "max" && b.ops.at(i.op.id).obj != i.op.id) return;
                }
                text = render(items, r);
                shown(x, items);
            }
            Cands c;
            c.is.push_back([=](const U&) { return before; });
            if (exp == MUST_OK) c.is.push_back(after);
            e.br[y] = c;
        }
        // big ones take many reads
        if (r.chance(25) && exp == MUST_OK) text += string(size_t(r.in(1, 9000)), r.chance(50) ? ' ' : '\n');
        Stream st;
        st.data = text;
        int io = 0;
        if (r.chance(60)) {
            for (int i = 0; i < 40; i++) st.chunks.push_back(r.chance(50) ? r.in(1, 16) : r.in(1, 5000));
            cx->fault("read.short");
        }
        if (r.chance(12)) {
            io = r.chance(50) ? EIO : EINTR;
            size_t at = r.below(4);
            while (st.chunks.size() <= at) st.chunks.push_back(r.in(1, 64));
            st.chunks[at] = -io;
            cx->fault(io == EIO ? "read.eio" : "read.eintr");
        }
        Strs args{"write"};
        bool file = r.chance(60);
        if (file) {
            stream_files["frame.ron"] = &st;
            args.push_back("frame.ron");
        } else {
            stdin_stream = &st;
            if (r.chance(50)) args.push_back("-");
            // no file name, no branch: reads the standard input
        }
        if (r.chance(5)) {  // no such branch
            tail = {"on", known_bad(n, r)};
            exp = MUST_REFUSE;
            io = 0;
        }
        args = cat(args, tail);
        CliOut o = process(n, args);
        stream_files.clear();
        stdin_stream = nullptr;
        close_streams();
        bool hit = io && st.next > 0 && st.at < st.data.size();
        if (o.rc == 0 && !o.down && hit) fail("accepted-bad", "`" + join(args) + "`: the file can not be read to its end, still OK");
        if (hit) exp = MUST_REFUSE;
        if (io && exp == MUST_OK && o.rc) exp = EITHER;
        if (exp == MUST_REFUSE && !e.br.empty()) e.br[y].is.resize(1);
        finish_cmd(n, args, o, e, exp);
        if (o.rc == 0 && !o.down)
            for (auto& i : items)
                if (i.kind == OP) see(x, i.op.id);
    }

    //  O U T P U T

    static std::vector<std::pair<string, string>> lines(const string& t) {
        std::vector<std::pair<string, string>> r;
        std::istringstream is{t};
        string l;
        while (std::getline(is, l)) {
            size_t p = l.find('\t');
            r.emplace_back(l.substr(0, p), p == string::npos ? "" : l.substr(p + 1));
        }
        return r;
    }
    void show_list(size_t n, Rng& r) {
        N& x = *nodes[n];
        Strs args{"list"};
        if (r.chance(50)) args.push_back(r.chance(50) ? "branches" : "stores");
        CliOut o = process(n, args);
        if (o.rc == 0 && !o.down) {
            std::map<string, string> got;
            for (auto& l : lines(o.out))
                if (!got.emplace(l).second) fail("wrong-output", "`list`: twice the same " + esc(o.out));
            got.erase(ustr(U{}));
            if (got.size() != x.br.size()) fail("wrong-output", "`list` shows " + std::to_string(got.size()) + " branches of " + std::to_string(x.br.size()) + ": " + esc(o.out));
            for (auto& b : x.br) {
                U id = branch_uuid(b.first);
                auto g = got.find(ustr(id));
                if (g == got.end()) fail("wrong-output", "`list` does not show " + ustr(id) + ": " + esc(o.out));
                std::set<string> names;
                for (auto& t : tags[n])
                    if (t.second == id) names.insert(ustr(t.first));
                if (names.empty()) names.insert(ustr(U{}));
                if (!names.count(g->second)) fail("wrong-output", "`list` says the name of " + ustr(id) + " is " + g->second + ", not " + *names.begin());
            }
        }
        finish_cmd(n, args, o, Effect{}, MUST_OK);
    }
    void show_named(size_t n, Rng& r) {
        N& x = *nodes[n];
        Strs args{"named"}, tail;
        int what = int(r.below(5));
        static const char* w[] = {"yarns", "objects", "things", "", ""};
        if (*w[what]) args.push_back(w[what]);
        U b = target(n, tail, r);
        if (r.chance(20)) b = U{}, tail = {"on", "0"};
        args = cat(args, tail);
        std::map<U, U> want;
        if (b.zero()) want = tags[n];
        else
            for (auto& nm : x.br.at(pl(b.o)).names) want[nm.first] = nm.second;
        CliOut o = process(n, args);
        if (o.rc == 0 && !o.down) {
            std::map<string, string> w2, got;
            for (auto& p : want)
                if (what > 1 || (what == 0 ? is_camel(p.first) : is_snake(p.first))) w2[ustr(p.first)] = ustr(p.second);
            for (auto& l : lines(o.out)) got[l.second] = l.first;
            if (got != w2) fail("wrong-output", "`" + join(args) + "` shows " + esc(o.out) + ", " + std::to_string(w2.size()) + " names expected");
        }
        finish_cmd(n, args, o, Effect{}, MUST_OK);
    }
    /** an object of the active branch, by the id or by the name */
    bool object_arg(N& x, Rng& r, U& id, string& arg) {
        if (x.active.zero()) return false;
        const Br& b = x.br.at(pl(x.active.o));
        auto i = b.log.begin();
        std::advance(i, long(r.below(b.log.size())));
        id = i->first;
        arg = ustr(id);
        std::map<U, U> names;
        for (auto& nm : b.names) names[nm.first] = nm.second;
        for (auto& nm : names)
            if (b.log.count(nm.second) && is_snake(nm.first) && r.chance(60)) {
                id = nm.second;
                arg = ustr(nm.first);
                break;
            }
        return true;
    }
    void show_get(size_t n, Rng& r) {
        N& x = *nodes[n];
        U id;
        string arg;
        if (!object_arg(x, r, id, arg)) {
            exec(n, {"get", "lww", "of", "123+abc"}, Effect{}, MUST_REFUSE);
            return;
        }
        const Br& b = x.br.at(pl(x.active.o));
        string rdt = b.ops.at(id).rdt;
        if (rdt == "max") return;
        bool log = r.chance(30);
        Strs args{"get", log ? "log" : rdt, "of", arg};
        CliOut o = process(n, args);
        if (o.rc == 0 && !o.down) {
            Ops got = parse(RFrame{trim(o.out)}, "`" + join(args) + "`");
            if (log) {
                string d = diff_log(b, b.log.at(id), got);
                if (!d.empty()) fail("wrong-output", "`" + join(args) + "`: " + d + " in " + show(got));
            } else if (got != b.state(id)) {
                fail("wrong-output", "`" + join(args) + "`\n  got  " + show(got) + "\n  want " + show(b.state(id)));
            }
        }
        finish_cmd(n, args, o, Effect{}, MUST_OK);
    }
    void show_recall(size_t n, Rng& r) {
        N& x = *nodes[n];
        U id;
        string arg;
        if (!object_arg(x, r, id, arg)) return;
        const Br b = x.br.at(pl(x.active.o));
        string rdt = b.ops.at(id).rdt;
        RFrame lf;
        {
            Commit c{*x.rep, R_(x.active)};
            if (!io(x, c.FindObjectLog(lf, R_(id)), "FindObjectLog")) return;
        }
        Ops log = parse(lf, "the log");
        size_t v = r.below(log.size());
        Strs args{"recall", ustr(log[v].id), "of", arg};
        CliOut o = process(n, args);
        if (o.rc == 0 && !o.down) {
            Ops got = parse(RFrame{trim(o.out)}, "`" + join(args) + "`");
            Ops want = Br::state_of(rdt, id, Ops{log.begin(), log.begin() + long(v) + 1});
            if (got != want) fail("wrong-output", "`" + join(args) + "`\n  got  " + show(got) + "\n  want " + show(want));
        }
        finish_cmd(n, args, o, Effect{}, MUST_OK);
    }
    void show_dump(size_t n, Rng& r) {
        N& x = *nodes[n];
        Strs args{"dump"};
        U b = x.active;
        if (r.chance(60) && !x.br.empty()) {
            b = some_branch(x, r);
            args.push_back(branch_arg(n, b, r));
        }
        CliOut o = process(n, args);
        finish_cmd(n, args, o, Effect{}, MUST_OK);
        if (o.rc || o.down || b.zero()) return;
        // restarted by now; the content is checked already
        std::vector<std::pair<string, string>> want;
        RStore& st = x.rep->GetStore(R_(b));
        Rep::StoreIterator it{st};
        Status ok = it.SeekTo(Key{});
        size_t at = 0;
        while (ok && it.key() != Key::END) {
            string key = it.key().str() + '\t';
            if (o.out.compare(at, key.size(), key) != 0)
                fail("wrong-output", "`" + join(args) + "`: no " + esc(key) + " at " + std::to_string(at) + " of " + esc(o.out));
            at += key.size();
            // the value goes up to the next key
            Ops got, was;
            string e, val = it.value().data().str();
            ok = it.Next();
            string next = it.key() == Key::END ? "" : it.key().str() + '\t';
            size_t to = next.empty() ? o.out.size() : o.out.find(next, at);
            if (to == string::npos) fail("wrong-output", "`" + join(args) + "` is incomplete: no " + esc(next) + " in " + esc(o.out));
            if (!read_frame(was, val, &e) || !read_frame(got, o.out.substr(at, to - at), &e) || got != was)
                fail("wrong-output", "`" + join(args) + "`: a value of " + esc(key) + " is " + esc(o.out.substr(at, to - at)) + ", not " + esc(val));
            at = to;
        }
        cx->probe("cli.dumps_checked");
    }

    /** a scenario of frames, queries and responses, played on a replica of its own */
    void scenario(size_t n, Rng& r) {
        N& x = *nodes[n];
        u64 y = name64("test");
        Br cur = fresh_branch(y, time_id(0, y));
        string text;
        Exp exp = MUST_OK;
        Ops piled;
        auto head = [&](char term) {
            static const char* c[] = {"'a test' ", "", "'it\\'s' ", "'!' ", "'longer, with ? and ;' "};
            text += string("@~ ") + c[r.below(5)] + term + (r.chance(80) ? "\n" : " ");
        };
        auto ops = [&](const Ops& os) {
            for (auto& o : os) text += o.str() + (r.chance(80) ? ";" : "!") + (r.chance(50) ? "\n" : " ");
        };
        int parts = int(r.in(1, 5));
        for (int p = 0; p < parts; p++) {
            if (p == 0 || r.chance(80)) {
                Items items = edit(x, cur, r, int(r.in(1, 3)));
                if (!cur.apply(items).empty()) return;
                for (auto& i : items)
                    if (i.kind == OP && i.op.vals.empty() && cur.ops.at(i.op.id).rdt == "max" && cur.ops.at(i.op.id).obj != i.op.id) return;
                head(p || r.chance(70) ? '!' : ';');
                for (auto& i : items)
                    if (i.kind == OP) text += i.op.str() + (r.chance(50) ? "," : ";") + "\n";
                if (text.size() > 1 && text[text.size() - 2] == ',') text[text.size() - 2] = ';';
                if (r.chance(8)) {
                    text += r.chance(50) ? "@notaname :lww 1;\n" : "@1+stranger :lww;\n";
                    exp = MUST_REFUSE;
                }
            }
            std::vector<U> objs;
            for (auto& l : cur.log)
                if (cur.ops.at(l.first).rdt != "max") objs.push_back(l.first);
            Ops want;
            int asks = objs.empty() ? 0 : int(r.in(0, 3));
            if (!asks) continue;
            head('!');
            for (int q = 0; q < asks; q++) {
                U obj = objs[r.below(objs.size())];
                string rdt = cur.ops.at(obj).rdt;
                Ops st = cur.state(obj);
                string shows;
                if (rdt == "rga") {
                    auto vis = visible(st);
                    for (auto& o : st)
                        if (vis.count(o.id) && !o.vals.empty() && o.vals[0].t == ron::STRING) shows += o.vals[0].s;
                }
                if (!shows.empty() && r.chance(60)) {
                    MOp o;
                    o.id = U{obj.v, pl(obj.o) | (F_DERIVED << 60)};
                    o.ref = name_id("txt");
                    text += "@" + ustr(o.id) + " :txt ?\n";
                    o.vals.push_back(Val::S(shows));
                    want.push_back(o);
                } else {
                    text += "@" + ustr(obj) + " :" + rdt + " ?\n";
                    want.insert(want.end(), st.begin(), st.end());
                }
            }
            want.insert(want.begin(), piled.begin(), piled.end());
            piled.clear();
            if (r.chance(10)) {  // the responses pile up
                piled = want;
                continue;
            }
            if (r.chance(9)) {  // a wrong expectation
                size_t at = r.below(want.size());
                Ops was = want;
                switch (r.below(5)) {
                    case 0: want.erase(want.begin() + long(at)); break;
                    case 1: want.insert(want.begin() + long(at), want[at]); break;
                    case 2: want[at].id.v++; break;
                    case 3: want[at].vals.push_back(Val::I(1)); break;
                    default:
                        if (want[at].vals.empty()) want[at].vals.push_back(Val::S(""));
                        else want[at].vals[0] = Val::S("something else, really");
                }
                if (want == was || want.empty()) return;
                exp = MUST_REFUSE;
            }
            head('?');
            ops(want);
        }
        Stream st;
        st.data = text;
        if (r.chance(50)) {
            for (int i = 0; i < 40; i++) st.chunks.push_back(r.chance(50) ? r.in(1, 16) : r.in(1, 5000));
            cx->fault("read.short");
        }
        stream_files["script.ron"] = &st;
        Strs args{"test", "script.ron"};
        CliOut o = process(n, args);
        stream_files.clear();
        close_streams();
        if (!o.down)
            for (auto& d : x.node.disk.dirs)
                if (d.compare(0, 5, "/tmp/") == 0) fail("leftover", "`swarmdb test` leaves " + d + " behind");
        auto tmp = [](const string& p) { return p.compare(0, 5, "/tmp/") == 0; };
        auto& d = x.node.disk;
        for (auto i = d.files.begin(); i != d.files.end();) i = tmp(i->first) ? d.files.erase(i) : std::next(i);
        for (auto i = d.dirs.begin(); i != d.dirs.end();) i = tmp(*i) ? d.dirs.erase(i) : std::next(i);
        cx->ev("script " + text);
        finish_cmd(n, args, o, Effect{}, exp);
    }

    void step(const Step& s) {
        step_us = global_us;
        if (s.op == "cli") {
            size_t n = s.uarg(0) % nodes.size();
            global_us += s.arg(3);
            step_us = global_us;
            do_cli(n, s.uarg(1), 0, s.uarg(2));
            settle();
        } else {
            Sim::step(s);
            if (s.op == "crash" || s.op == "reopen") check_tags(s.uarg(0) % nodes.size(), s.op);
        }
    }
    void check_tags(size_t n, const string& why) {
        NodeScope sc{nodes[n]->node};
        auto t = read_tags(*nodes[n], why);
        if (t != tags[n]) fail("wrong-names", why + ": names of branches:" + show_tags(t) + ", must be" + show_tags(tags[n]));
    }
    void finish() {
        Sim::finish();
        for (size_t n = 0; n < nodes.size(); n++) check_tags(n, "at the end");
    }
};
