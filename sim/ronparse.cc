// The RON text notation read by the harness itself, straight from the format's
// definition; shares nothing with the generated parser it is compared to.
#include <cmath>
#include "ronutil.hpp"

namespace sim {
namespace {

struct Bad {
    string why;
};

struct Reader {
    const string& t;
    size_t p = 0;
    std::vector<char> terms;

    explicit Reader(const string& text) : t{text} {}
    bool eof() const { return p >= t.size(); }
    char at(size_t i) const { return i < t.size() ? t[i] : '\0'; }
    static bool ws(char c) { return c == ' ' || c == '\t' || c == '\r' || c == '\n'; }
    static bool dgt(char c) { return c && strchr(b64(), c) != nullptr; }
    static bool num(char c) { return c >= '0' && c <= '9'; }
    [[noreturn]] void bad(const string& why) const { throw Bad{why + " at offset " + std::to_string(p)}; }
    bool skip() {
        size_t b = p;
        while (!eof() && ws(t[p])) ++p;
        return p > b;
    }

    static u64 word(const string& w) {
        u64 r = 0;
        for (int i = 0; i < 10; i++) r = (r << 6) | u64(size_t(i) < w.size() ? strchr(b64(), w[size_t(i)]) - b64() : 0);
        return r;
    }
    /** the longest [0-9A-F/]? word ([$%+-] word)?, "" if none */
    U uuid() {
        u64 variety = 0;
        if (at(p + 1) == '/' && at(p) && strchr("0123456789ABCDEF", at(p))) {
            variety = u64(strchr("0123456789ABCDEF", t[p]) - "0123456789ABCDEF");
            p += 2;
        }
        string w = run();
        if (w.empty()) bad("an UUID expected");
        if (w.size() > 10) bad("a word is too long");
        U u{(variety << 60) | word(w), 0};
        if (at(p) && strchr("$%+-", t[p])) {
            u64 ver = u64(strchr("$%+-", t[p]) - "$%+-");
            ++p;
            w = run();
            if (w.empty()) bad("no origin");
            if (w.size() > 10) bad("a word is too long");
            u.o = (ver << 60) | word(w);
        }
        return u;
    }
    string run() {
        size_t b = p;
        while (!eof() && dgt(t[p])) ++p;
        return t.substr(b, p - b);
    }
    /** 1 int, 2 float, 0 neither; the token is [b,e) */
    int number(size_t b, size_t e) const {
        size_t i = b;
        if (i < e && (t[i] == '-' || t[i] == '+')) ++i;
        size_t d = i;
        while (i < e && num(t[i])) ++i;
        if (i == d) return 0;
        if (i == e) return 1;
        bool frac = false;
        if (t[i] == '.') {
            d = ++i;
            while (i < e && num(t[i])) ++i;
            if (i == d) return 0;
            frac = true;
        }
        if (i == e) return frac ? 2 : 0;
        if (t[i] != 'e' && t[i] != 'E') return 0;
        ++i;
        if (i < e && (t[i] == '-' || t[i] == '+')) ++i;
        d = i;
        while (i < e && num(t[i])) ++i;
        return i == e && i > d ? 2 : 0;
    }
    Val integer(size_t b, size_t e) const {
        bool neg = t[b] == '-';
        size_t i = b + (neg || t[b] == '+');
        if (e - i > 19) bad("an int is too big");
        u64 v = 0;
        for (; i < e; i++) v = v * 10 + u64(t[i] - '0');  // 19 digits fit
        if (v > u64(INT64_MAX)) bad("an int is too big");
        return Val::I(neg ? -i64(v) : i64(v));
    }
    Val real(size_t b, size_t e) const {
        if (e - b > 24) bad("a float is too long");
        double d = strtod(t.substr(b, e - b).c_str(), nullptr);
        if (std::isinf(d)) bad("a float is too big");
        return Val::F(d);
    }
    size_t token() const {
        size_t e = p;
        while (e < t.size() && (dgt(t[e]) || (t[e] && strchr("/$%+-.", t[e])))) ++e;
        return e;
    }
    Val number_of(int kind) {
        size_t e = token();
        if (number(p, e) != kind) bad("a number expected");
        Val v = kind == 1 ? integer(p, e) : real(p, e);
        p = e;
        return v;
    }
    Val bare() {
        size_t e = token();
        int k = number(p, e);
        if (k) return number_of(k);
        Val v = Val::Id(uuid());
        if (p != e) bad("strange chars");
        return v;
    }
    uint32_t cont() {
        if (eof() || (static_cast<unsigned char>(t[p]) & 0xc0) != 0x80) bad("not UTF-8");
        return t[p++] & 0x3f;
    }
    /** the code points, up to the closing quote */
    std::vector<uint32_t> quoted() {
        std::vector<uint32_t> r;
        while (true) {
            if (eof()) bad("an open quote");
            unsigned char c = static_cast<unsigned char>(t[p++]);
            uint32_t cp = c;
            if (c == '\'') return r;
            if (c == '\n' || c == '\r') bad("a line break in a string");
            if (c == '\\') {
                if (eof()) bad("an open quote");
                char e = t[p++];
                static const char from[] = "nrtb\\'/\"", to[] = "\n\r\t\b\\'/\"";
                if (e == 'u') {
                    cp = 0;
                    for (int i = 0; i < 4; i++) {
                        char h = at(p);
                        if (!h || !strchr("0123456789abcdefABCDEF", h)) bad("a bad escape");
                        cp = cp * 16 + uint32_t(h <= '9' ? h - '0' : (h | 32) - 'a' + 10);
                        ++p;
                    }
                } else if (e && strchr(from, e))
                    cp = uint32_t(to[strchr(from, e) - from]);
                else
                    bad("a bad escape");
            } else if (c >= 0xf8 || (c >= 0x80 && c < 0xc0))
                bad("not UTF-8");
            else if (c >= 0xf0) {
                cp = c & 7;
                for (int i = 0; i < 3; i++) cp = (cp << 6) | cont();
            } else if (c >= 0xe0) {
                cp = c & 15;
                for (int i = 0; i < 2; i++) cp = (cp << 6) | cont();
            } else if (c >= 0xc0)
                cp = (c & 31u) << 6 | cont();
            if (!cp) bad("a NUL");
            r.push_back(cp);
        }
    }
    static string utf8(const std::vector<uint32_t>& cps) {
        string s;
        for (auto c : cps) utf8_push(s, c);
        return s;
    }

    void frame(Ops& out) {
        U prev;
        while (true) {
            skip();
            if (eof()) return;
            if (t[p] == '.') {
                if (at(p + 1) != '\n') bad("a strange dot");
                if (p + 2 != t.size()) bad("chars after the end of the frame");
                return;
            }
            op(out, prev);
            prev = out.back().id;
        }
    }
    void op(Ops& out, U prev) {
        MOp o;
        o.id = U{prev.v + 1, prev.o};
        o.ref = prev;
        bool may_bare = true;  // a bare value is either the first thing or has a space before it
        if (t[p] == '@') {
            ++p;
            o.id = uuid();
            size_t was = p;
            skip();
            if (at(p) == ':') {
                ++p;
                o.ref = uuid();
            } else
                p = was;
            may_bare = false;
        }
        u64 span = 1;
        bool spread = false;
        std::vector<uint32_t> chars;
        while (true) {
            bool space = skip();
            if (eof()) bad("an open op");
            char c = t[p];
            if (strchr(",;!?", c)) {
                if (!c) bad("a NUL");
                terms.push_back(c);
                ++p;
                break;
            }
            if (c == '(') {
                ++p;
                skip();
                if (at(p) == '\'') {
                    ++p;
                    chars = quoted();
                    spread = true;
                    span = chars.size();
                } else {
                    size_t b = p;
                    span = 0;
                    while (num(at(p))) {
                        if (span > (1u << 30) / 10) bad("a span is too long");
                        span = span * 10 + u64(t[p++] - '0');
                    }
                    if (b == p) bad("a span has no size");
                }
                if (!span) bad("an empty span");
                skip();
                if (at(p) != ')') bad("an open span");
                ++p;
                skip();
                if (eof() || !strchr(",;!?", t[p]) || !t[p]) bad("an op has no term");
                continue;
            }
            switch (c) {
                case '\'':
                    ++p;
                    o.vals.push_back(Val::S(utf8(quoted())));
                    break;
                case '=':
                    ++p;
                    skip();
                    o.vals.push_back(number_of(1));
                    break;
                case '^':
                    ++p;
                    skip();
                    o.vals.push_back(number_of(2));
                    break;
                case '>':
                    ++p;
                    skip();
                    o.vals.push_back(Val::Id(uuid()));
                    break;
                default:
                    if (!space && !may_bare) bad("no space before a value");
                    o.vals.push_back(bare());
            }
            may_bare = false;
        }
        if (out.size() + span > MAX_PARSED_OPS) throw Bad{"too many ops"};
        for (u64 i = 0; i < span; i++) {
            MOp n = o;
            n.id.v += i;
            if (i) n.ref = U{o.id.v + i - 1, o.id.o};
            if (spread) n.vals.push_back(Val::S(utf8({chars[i]})));
            out.push_back(n);
        }
    }
};

}  // namespace

bool parse_ron(Ops& out, const string& text, string* err, string* terms) {
    Reader r{text};
    try {
        r.frame(out);
    } catch (const Bad& b) {
        if (err) *err = b.why;
        return false;
    }
    if (terms) terms->assign(r.terms.begin(), r.terms.end());
    return true;
}

}  // namespace sim
