// Bridging the harness's own op model and the code under test.
#ifndef RONSIM_RONUTIL_HPP
#define RONSIM_RONUTIL_HPP
#include "core.hpp"
#include "ron/ron.hpp"
#include "rdt/rdt.hpp"

namespace sim {

using RFrame = ron::TextFrame;
using RCursor = RFrame::Cursor;
using RBuilder = RFrame::Builder;
using RCursors = RFrame::Cursors;

/** the harness's own UUID: two 64 bit words, value and origin (with flags) */
struct U {
    u64 v = 0, o = 0;
    bool operator<(const U& b) const { return v < b.v || (v == b.v && o < b.o); }
    bool operator==(const U& b) const { return v == b.v && o == b.o; }
    bool operator!=(const U& b) const { return !(*this == b); }
    bool zero() const { return v == 0 && o == 0; }
};
constexpr u64 PAYLOAD = (1ULL << 60) - 1;
constexpr u64 F_NAME = 0, F_HASH = 1, F_TIME = 2, F_DERIVED = 3;
inline U time_id(u64 v, u64 o) { return U{v & PAYLOAD, (o & PAYLOAD) | (F_TIME << 60)}; }

inline const char* b64() {
    return "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ_abcdefghijklmnopqrstuvwxyz~";
}
/** Base64x64 of a 60 bit word, trailing zeroes trimmed */
inline string word64(u64 w) {
    string s;
    for (int i = 9; i >= 0; i--) s += b64()[(w >> (6 * i)) & 63];
    while (s.size() > 1 && s.back() == '0') s.pop_back();
    return s;
}
inline u64 name64(const char* n) {
    u64 r = 0;
    int i = 0;
    for (; n[i] && i < 10; i++) r = (r << 6) | u64(strchr(b64(), n[i]) - b64());
    for (; i < 10; i++) r <<= 6;
    return r;
}
inline U name_id(const char* n) { return U{name64(n), 0}; }
/** the RON text notation, written by the harness, not by the code under test */
inline string ustr(U u) {
    string s;
    u64 variety = u.v >> 60, flags = u.o >> 60;
    if (variety) {
        s += "0123456789ABCDEF"[variety];
        s += '/';
    }
    s += word64(u.v & PAYLOAD);
    if (flags == F_NAME && (u.o & PAYLOAD) == 0) return s;
    s += "$%+-"[flags & 3];
    s += word64(u.o & PAYLOAD);
    return s;
}
inline ron::Uuid R_(U u) { return ron::Uuid{ron::Word{u.v}, ron::Word{u.o}}; }
inline U U_(const ron::Uuid& u) { return U{u.value.as_u64, u.origin.as_u64}; }

/** a value of an op */
struct Val {
    int t = 0;  // ron::ATOM
    i64 i = 0;
    double f = 0;
    U u;
    string s;  // UTF-8
    bool operator==(const Val& b) const {
        if (t != b.t) return false;
        switch (t) {
            case ron::INT: return i == b.i;
            case ron::FLOAT: return memcmp(&f, &b.f, sizeof f) == 0;
            case ron::UUID: return u == b.u;
            default: return s == b.s;
        }
    }
    static Val I(i64 v) { Val r; r.t = ron::INT; r.i = v; return r; }
    static Val F(double v) { Val r; r.t = ron::FLOAT; r.f = v; return r; }
    static Val Id(U v) { Val r; r.t = ron::UUID; r.u = v; return r; }
    static Val S(string v) { Val r; r.t = ron::STRING; r.s = std::move(v); return r; }
    string str() const;  // RON text
};
struct MOp {
    U id, ref;
    std::vector<Val> vals;
    bool operator==(const MOp& b) const { return id == b.id && ref == b.ref && vals == b.vals; }
    bool operator!=(const MOp& b) const { return !(*this == b); }
    bool operator<(const MOp& b) const { return id < b.id; }
    string str() const;
};
using Ops = std::vector<MOp>;

string show(const Ops& ops, size_t max = 40);
/** plain RON text of the ops (explicit specs, no compression) */
string text_of(const Ops& ops, char term = ';');
inline RFrame frame_of(const Ops& ops) { return RFrame{text_of(ops)}; }

/** Read a frame with the code under test.
 *  @return false if it does not parse to its end */
bool read_frame(Ops& out, const string& text, string* err = nullptr);
bool read_cursor(Ops& out, RCursor c, string* err = nullptr);

/** Read a frame by the harness's own parser: the oracle for the other one.
 *  @param terms  op terminators, one per explicit op */
constexpr size_t MAX_PARSED_OPS = 90000;
bool parse_ron(Ops& out, const string& text, string* err = nullptr, string* terms = nullptr);

/** the same ops in a random notation: spans, implicit ids, escapes, spaces...
 *  @param prev  the id of the last op written (input, output) */
string render_wild(const Ops& ops, Rng& r, U& prev);
/** a random damage */
string mutate(string t, Rng& r);
/** text that looks somewhat like RON */
string gen_wild(Rng& r);

/** Harness-side value decoding, straight from the cursor's atoms. */
MOp read_op(const RCursor& c);

void utf8_push(string& s, uint32_t cp);
std::vector<uint32_t> utf8_cps(const string& s);

/** a seeded value/text generator */
string gen_text(Rng& r, int max_len, bool unicode);
Val gen_val(Rng& r, int flavour);

/** causal tree order: parents first, siblings newest first; the ops need not be
 *  sorted.  Dedup by id. Orphans are returned in `orphans`. */
Ops ct_order(const Ops& ops, Ops* orphans = nullptr);
/** orders values: by type, then by value */
int cmp_val(const Val& a, const Val& b);
enum Vis { V_META, V_ENTRY, V_RM, V_UN, V_TRASH };
Vis kind_of(const MOp& o);
/** ids of the visible entries of an array (ops in the causal tree order) */
std::set<U> visible(const Ops& tree);
/** the state of a max register: the root and the greatest op */
Ops max_order(const Ops& ops, U root);
/** sorted by id, dedup */
Ops id_order(const Ops& ops);

}  // namespace sim
#endif
