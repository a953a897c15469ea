#include "ronutil.hpp"
#include <algorithm>
#include <cinttypes>

namespace sim {

void utf8_push(string& s, uint32_t cp) {
    if (cp < 0x80) {
        s += char(cp);
    } else if (cp < 0x800) {
        s += char(0xc0 | (cp >> 6));
        s += char(0x80 | (cp & 63));
    } else if (cp < 0x10000) {
        s += char(0xe0 | (cp >> 12));
        s += char(0x80 | ((cp >> 6) & 63));
        s += char(0x80 | (cp & 63));
    } else {
        s += char(0xf0 | (cp >> 18));
        s += char(0x80 | ((cp >> 12) & 63));
        s += char(0x80 | ((cp >> 6) & 63));
        s += char(0x80 | (cp & 63));
    }
}
std::vector<uint32_t> utf8_cps(const string& s) {
    std::vector<uint32_t> r;
    for (size_t i = 0; i < s.size();) {
        unsigned char c = s[i];
        int n = c < 0x80 ? 1 : c < 0xe0 ? 2 : c < 0xf0 ? 3 : 4;
        uint32_t cp = n == 1 ? c : n == 2 ? c & 0x1f : n == 3 ? c & 0xf : c & 7;
        for (int k = 1; k < n && i + k < s.size(); k++) cp = (cp << 6) | (s[i + k] & 0x3f);
        r.push_back(cp);
        i += n;
    }
    return r;
}

static string esc_ron(const string& s) {
    string r;
    for (char c : s) {
        switch (c) {
            case '\'': r += "\\'"; break;
            case '"': r += "\\\""; break;
            case '\\': r += "\\\\"; break;
            case '\n': r += "\\n"; break;
            case '\r': r += "\\r"; break;
            case '\t': r += "\\t"; break;
            case '\b': r += "\\b"; break;
            default: r += c;
        }
    }
    return r;
}

string Val::str() const {
    char b[40];
    switch (t) {
        case ron::INT: return std::to_string(i);
        case ron::FLOAT:
            snprintf(b, sizeof b, "%.16e", f);
            return b;
        case ron::UUID: return ">" + ustr(u);
        default: return "'" + esc_ron(s) + "'";
    }
}
string MOp::str() const {
    string r = "@" + ustr(id) + " :" + ustr(ref);
    for (auto& v : vals) r += " " + v.str();
    return r;
}
string show(const Ops& ops, size_t max) {
    string r = "[";
    for (size_t i = 0; i < ops.size() && i < max; i++) r += (i ? ", " : "") + ops[i].str();
    if (ops.size() > max) r += ", ... " + std::to_string(ops.size()) + " ops";
    return esc(r) + "]";
}
string text_of(const Ops& ops, char term) {
    string r;
    for (size_t i = 0; i < ops.size(); i++) {
        r += ops[i].str();
        r += i + 1 == ops.size() ? term : ',';
        r += '\n';
    }
    return r;
}

MOp read_op(const RCursor& c) {
    MOp m;
    m.id = U_(c.id());
    m.ref = U_(c.ref());
    for (ron::fsize_t i = 2; i < c.op().size(); i++) {
        ron::Atom a = c.atom(i);
        Val v;
        v.t = a.type();
        switch (v.t) {
            case ron::INT: v.i = a.value.as_integer; break;
            case ron::FLOAT: v.f = a.value.as_float; break;
            case ron::UUID: v.u = U_(ron::Uuid{a}); break;
            default: ron::ReadString(v.s, c, a);
        }
        m.vals.push_back(v);
    }
    return m;
}
bool read_cursor(Ops& out, RCursor c, string* err) {
    ron::Status ok;
    size_t n = 0;
    while ((ok = c.Next())) {
        out.push_back(read_op(c));
        if (++n > 100000) {
            if (err) *err = "endless frame";
            return false;
        }
    }
    if (ok != ron::Status::ENDOFFRAME && ok != ron::Status::ENDOFINPUT) {
        if (err) *err = ok.str();
        return false;
    }
    return true;
}
bool read_frame(Ops& out, const string& text, string* err) {
    RCursor c{text};
    string e, e2;
    Ops ops, check;
    bool ok = read_cursor(ops, c, &e);
    bool ok2 = parse_ron(check, text, &e2);
    if (err) *err = e;
    if (e2 != "too many ops") {
        if (ok != ok2)
            fail("misread", string("the parser says ") + (ok ? "OK" : e) + ", but it is " + (ok2 ? "OK" : e2) + ": " + esc(text));
        if (ok && ops != check) fail("misread", "  read as " + show(ops) + "\n  must be " + show(check) + "\n  text " + esc(text));
    } else if (ok) {
        if (err) *err = e2;
        ok = false;
    }
    out.insert(out.end(), ops.begin(), ops.end());
    return ok;
}

//  R A N D O M  N O T A T I O N S

static string wild_ws(Rng& r, bool must) {
    static const char* ws[] = {" ", "  ", "\t", "\n", "\r\n", " \t ", "\n\n"};
    if (!must && r.chance(60)) return "";
    return r.chance(70) ? " " : ws[r.below(7)];
}
static string wild_word(u64 w, Rng& r) {
    string s = word64(w);
    if (r.chance(10)) s.append(r.below(11 - s.size()), '0');
    return s;
}
static string wild_uuid(U u, Rng& r) {
    string s;
    u64 variety = u.v >> 60, ver = (u.o >> 60) & 3;
    if (variety || r.chance(5)) s += string(1, "0123456789ABCDEF"[variety]) + "/";
    s += wild_word(u.v & PAYLOAD, r);
    if (ver || (u.o & PAYLOAD) || r.chance(5)) s += string(1, "$%+-"[ver]) + wild_word(u.o & PAYLOAD, r);
    return s;
}
static bool looks_like_a_number(const string& t) {
    char* e = nullptr;
    if (t.empty() || !strchr("+-0123456789", t[0])) return false;
    for (char c : t)
        if (!strchr("+-0123456789.eE", c)) return false;
    strtod(t.c_str(), &e);
    return !*e;
}
static string wild_cps(const string& s, Rng& r) {
    string t;
    char b[8];
    for (uint32_t cp : utf8_cps(s)) {
        bool must = cp == '\n' || cp == '\r' || cp == '\'' || cp == '\\';
        if (must || r.chance(8)) {
            static const char from[] = "\n\r\t\b\\'/\"", to[] = "nrtb\\'/\"";
            const char* f = cp < 128 ? strchr(from, int(cp)) : nullptr;
            if (f && r.chance(70)) {
                t += '\\';
                t += to[f - from];
                continue;
            }
            if (cp < 0x10000) {
                snprintf(b, sizeof b, r.chance(50) ? "\\u%04x" : "\\u%04X", cp);
                t += b;
                continue;
            }
        }
        utf8_push(t, cp);
    }
    return t;
}
/** a value, with its leading space if it needs one */
static string wild_val(const Val& v, Rng& r, bool first) {
    char b[40];
    string t;
    bool quote = r.chance(35);
    switch (v.t) {
        case ron::INT:
            t = std::to_string(v.i);
            if (v.i >= 0 && r.chance(10)) t = "+" + t;
            if (t.size() < 10 && r.chance(5)) t.insert(t[0] == '-' || t[0] == '+' ? 1 : 0, r.below(8), '0');
            if (quote) return wild_ws(r, false) + "=" + wild_ws(r, false) + t;
            break;
        case ron::FLOAT:
            snprintf(b, sizeof b, r.chance(50) ? "%.16e" : r.chance(50) ? "%.17g" : "%.17G", v.f);
            t = b;
            if (!strpbrk(b, ".eE")) t += ".0";
            if (t[0] != '-' && t.size() < 20 && r.chance(10)) t = "+" + t;
            if (quote) return wild_ws(r, false) + "^" + wild_ws(r, false) + t;
            break;
        case ron::UUID:
            t = wild_uuid(v.u, r);
            if (quote || looks_like_a_number(t)) return wild_ws(r, false) + ">" + wild_ws(r, false) + t;
            break;
        default: return wild_ws(r, false) + "'" + wild_cps(v.s, r) + "'";
    }
    return wild_ws(r, !first) + t;
}
string render_wild(const Ops& ops, Rng& r, U& prev) {
    string t;
    for (size_t i = 0; i < ops.size();) {
        const MOp& o = ops[i];
        bool seq_ref = o.ref == prev, seq_id = o.id == U{prev.v + 1, prev.o};
        bool spec = !(seq_ref && seq_id) || r.chance(30);
        t += wild_ws(r, false);
        if (spec) {
            t += "@" + wild_uuid(o.id, r);
            if (!seq_ref || r.chance(50)) t += wild_ws(r, false) + ":" + wild_uuid(o.ref, r);
        }
        // how long a span could it be?
        auto follows = [&](size_t k) { return ops[k].ref == ops[k - 1].id && ops[k].id == U{ops[k - 1].id.v + 1, ops[k - 1].id.o}; };
        auto one_char = [&](const MOp& m) { return !m.vals.empty() && m.vals.back().t == ron::STRING && utf8_cps(m.vals.back().s).size() == 1; };
        size_t same = 1, chars = one_char(o) ? 1 : 0;
        while (i + same < ops.size() && follows(i + same) && ops[i + same].vals == o.vals) ++same;
        if (chars)
            while (i + chars < ops.size() && follows(i + chars)) {
                const MOp& m = ops[i + chars];
                if (m.vals.size() != o.vals.size() || !one_char(m) ||
                    !std::equal(m.vals.begin(), m.vals.end() - 1, o.vals.begin()))
                    break;
                ++chars;
            }
        bool spread = chars && r.chance(60);
        size_t span = spread ? 1 + r.below(chars) : r.chance(70) ? 1 + r.below(same) : 1;
        if (r.chance(70)) span = spread ? chars : span;
        size_t nv = o.vals.size() - (spread ? 1 : 0);
        for (size_t k = 0; k < nv; k++) t += wild_val(o.vals[k], r, k == 0 && !spec);
        if (spread) {
            string s;
            for (size_t k = 0; k < span; k++) s += ops[i + k].vals.back().s;
            t += wild_ws(r, false) + "(" + wild_ws(r, false) + "'" + wild_cps(s, r) + "'" + wild_ws(r, false) + ")";
        } else if (span > 1 || r.chance(3)) {
            t += wild_ws(r, false) + "(" + wild_ws(r, false) + (r.chance(10) ? "0" : "") + std::to_string(span) + wild_ws(r, false) + ")";
        }
        i += span;
        prev = ops[i - 1].id;
        t += wild_ws(r, false);
        t += i == ops.size() || r.chance(25) ? ";" : ",";
    }
    return t;
}

string mutate(string t, Rng& r) {
    static const char* pieces[] = {"@",  ":",   ",",  ";",      "(3)", "('ab')", "'",      "\\", "=",  "^",         ">",     ".\n", "!", "?",
                                   "\0", "\xc0", " ", "@A+B :", "1E9", "\\u00", "(",      ")",  "-", "99999999999", "~", "$"};
    for (i64 k = 1 + r.small(3); k > 0; k--) {
        if (t.empty()) t = " ";
        size_t p = r.below(t.size()), n = 1 + r.below(r.chance(70) ? 3 : 30);
        switch (r.below(8)) {
            case 0: t = t.substr(0, p); break;
            case 1: t = t.substr(p); break;
            case 2: t[p] = char(t[p] ^ (1 << r.below(8))); break;
            case 3: t[p] = char(r.below(256)); break;
            case 4: t.erase(p, n); break;
            case 5: t.insert(p, t.substr(r.below(t.size()), n)); break;
            case 6: t.insert(p, 1, char(r.below(256))); break;
            default: t.insert(p, pieces[r.below(sizeof pieces / sizeof *pieces)]);
        }
    }
    return t;
}
string gen_wild(Rng& r) {
    static const char* pieces[] = {
        "@A+B", " :C+D5", " :lww", " 1", " -5", " +5", "=5", " = 7", "^1.5", "^ 2e3", " 1.5", " 1e+5", " 12e3", " 'abc'", "'x'",
        "'\\n\\u0041'", " 'a\\\\'", "(3)", "( 2 )", "('abc')", " ( 'q\\'z' ) ", ",", " ,", ";", "!", "?", ",\n", ";\n", " ", ">A+B",
        ">12", "> lww", " name", " A/LED", " F/1-2", "@12e3+4", ":5", " 9223372036854775807", " 9223372036854775808", " 1E400",
        " -1.5e-7", ".\n", "\xd0\xb9", "'\xd0\xb9'", "'\xc0\x80'", "'\\u0000'", " ABCDEFGHIJK", " 12345678901", "(0)", "('')", "''",
        "'", "@~ 'c'", " 5+6", " 5-6", " 1.5.2", "$", "%", "/", "\\", "\t", "\r", " +A", " -", "@1A+B :rga ('text')",
        " -9223372036854775808", " 1.7976931348623157e+308", "@name :0 >tag", "@sha3 :1+A 'KENb'", "(1073741825)"};
    string t;
    for (i64 j = r.in(1, 9); j > 0; j--) {
        t += pieces[r.below(sizeof pieces / sizeof *pieces)];
        if (r.chance(25)) t += r.chance(50) ? "," : ";";
    }
    if (r.chance(70)) t += r.chance(50) ? "," : ";\n";
    if (r.chance(25)) t = mutate(t, r);
    return t;
}

string gen_text(Rng& r, int max_len, bool unicode) {
    static const uint32_t pool[] = {0xe9,   0x416,  0x3b1,   0x2603, 0x4e2d, 0xfffd,
                                    0x1f600, 0x10ffff, 0x7ff, 0x800,  0xffff, 0x80};
    string s;
    int n = int(r.below(u64(max_len) + 1));
    for (int i = 0; i < n; i++) {
        if (unicode && r.chance(30))
            utf8_push(s, pool[r.below(sizeof pool / sizeof *pool)]);
        else if (r.chance(8))
            s += "'\"\\\n\t\r\b\f"[r.below(8)];
        else
            s += char(r.in(32, 126));
    }
    return s;
}
Val gen_val(Rng& r, int flavour) {
    switch (r.below(6)) {
        case 0: return Val::I(r.in(-1000, 1000));
        case 1: return Val::I(r.chance(50) ? INT64_MAX - i64(r.below(3)) : -i64(r.below(INT64_MAX)));
        case 2: {
            static const double odd[] = {1e20, -3e-9, 5e300, 1e-300, 0.1, 1.0 / 3, 1e15, 123456789012345678.0, 2e7, -1e5};
            if (r.chance(30)) return Val::F(odd[r.below(10)]);
            if (r.chance(30)) return Val::F(double(i64(r.next())) / double(1 + r.below(1 << 30)));
            return Val::F(double(r.in(-100000, 100000)) / 64.0);
        }
        case 3: {
            static const char* names[] = {"12e3", "123", "0", "1E5", "e5", "~", "_x", "A1234567890" + 1, "1e", "lww"};
            if (r.chance(25)) return Val::Id(name_id(names[r.below(10)]));
            if (r.chance(10)) return Val::Id(U{name64("12e") | (r.below(16) << 60), (F_TIME << 60) | name64("5")});
            if (r.chance(20)) return Val::Id(U{r.next() & PAYLOAD, (r.below(4) << 60) | (r.next() & PAYLOAD)});
            return Val::Id(time_id(r.next(), r.next()));
        }
        default: return Val::S(gen_text(r, flavour ? flavour : 8, true));
    }
}

Ops id_order(const Ops& ops) {
    std::map<U, MOp> m;
    for (auto& o : ops) m.emplace(o.id, o);
    Ops r;
    for (auto& p : m) r.push_back(p.second);
    return r;
}

Ops ct_order(const Ops& ops, Ops* orphans) {
    std::map<U, MOp> m;
    for (auto& o : ops) m.emplace(o.id, o);
    std::map<U, std::vector<U>> kids;  // asc
    std::vector<U> roots;
    for (auto& p : m) {
        if ((p.second.ref.o >> 60) == F_NAME)
            roots.push_back(p.first);
        else
            kids[p.second.ref].push_back(p.first);
    }
    Ops r;
    std::set<U> seen;
    for (auto root : roots) {
        std::vector<U> stack{root};
        while (!stack.empty()) {
            U u = stack.back();
            stack.pop_back();
            if (!seen.insert(u).second) continue;
            r.push_back(m[u]);
            for (auto& k : kids[u]) stack.push_back(k);  // newest on top
        }
    }
    if (orphans)
        for (auto& p : m)
            if (!seen.count(p.first)) orphans->push_back(p.second);
    return r;
}

int cmp_val(const Val& a, const Val& b) {
    if (a.t != b.t) return a.t < b.t ? -1 : 1;
    switch (a.t) {
        case ron::INT: return a.i < b.i ? -1 : a.i > b.i;
        case ron::FLOAT: return a.f < b.f ? -1 : a.f > b.f;
        case ron::UUID: return a.u < b.u ? -1 : b.u < a.u;
        default: {
            auto x = utf8_cps(a.s), y = utf8_cps(b.s);
            return x < y ? -1 : y < x;
        }
    }
}

//  the visibility rules, recursively over the tree
Vis kind_of(const MOp& o) {
    if (o.vals.size() == 1 && o.vals[0].t == ron::UUID) {
        if (o.vals[0].u == name_id("rm")) return V_RM;
        if (o.vals[0].u == name_id("un")) return V_UN;
    }
    return V_ENTRY;
}
/** ids of the visible entries */
std::set<U> visible(const Ops& tree) {
    std::map<U, size_t> at;
    // per op: its parent, depth, depth of the first removal, undo on its path
    struct N {
        size_t up = 0, depth = 0, rm = SIZE_MAX, un = SIZE_MAX;
    };
    std::vector<N> n(tree.size());
    std::vector<Vis> st(tree.size());
    for (size_t i = 0; i < tree.size(); i++) {
        at[tree[i].id] = i;
        if (i == 0) {
            st[i] = V_META;
            continue;
        }
        size_t p = at.at(tree[i].ref);
        Vis k = kind_of(tree[i]);
        st[i] = st[p] == V_TRASH ? V_TRASH : k == st[p] ? k : int(k) == int(st[p]) + 1 ? k : V_TRASH;
        n[i] = n[p];
        n[i].up = p;
        n[i].depth++;
        if (st[i] == V_RM && n[i].rm == SIZE_MAX) n[i].rm = n[i].depth;
        if (st[i] == V_UN && n[i].un == SIZE_MAX) n[i].un = n[i].depth;
    }
    auto climb = [&](size_t i, size_t depth) {
        while (n[i].depth > depth) i = n[i].up;
        return i;
    };
    std::set<size_t> undone, killed;
    for (size_t i = 0; i < tree.size(); i++)
        if (st[i] == V_UN) {  // the j-th undo in a row undoes the j-th removal up the path
            size_t f = n[i].un, j = n[i].depth + 1 - f;
            if (f >= j && f - j >= n[i].rm) undone.insert(climb(i, f - j));
        }
    for (size_t i = 0; i < tree.size(); i++)
        if (st[i] == V_RM && !undone.count(i)) {
            size_t f = n[i].rm, k = n[i].depth + 1 - f;
            if (f > k) killed.insert(climb(i, f - k));
        }
    std::set<U> r;
    for (size_t i = 0; i < tree.size(); i++)
        if (st[i] == V_ENTRY && !killed.count(i)) r.insert(tree[i].id);
    return r;
}


Ops max_order(const Ops& ops, U root) {
    Ops r;
    const MOp* best = nullptr;
    for (auto& o : ops) {
        if (o.id == root) {
            if (r.empty()) r.push_back(o);
            continue;
        }
        int c = best ? cmp_val(best->vals[0], o.vals[0]) : -1;
        if (c < 0 || (c == 0 && best->id < o.id)) best = &o;
    }
    if (best) r.push_back(*best);
    return r;
}

}  // namespace sim
