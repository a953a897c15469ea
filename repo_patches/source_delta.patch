From a94e39e213d500079450d566d8a4b2e9dc2a2d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:17 +0000
Subject: [PATCH 01/55] fix: a frame builder must not write a ref without an id

An op which is next to the previous one by id but refers elsewhere got
written as ':ref', which the grammar does not have. The resulting frame
was not parseable past that point.
---
 ron/text.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ron/text.hpp b/ron/text.hpp
index 4d7118c..ad39cdb 100644
--- a/ron/text.hpp
+++ b/ron/text.hpp
@@ -172,7 +172,8 @@ class TextFrame {
         void WriteSpec(Uuid id, Uuid ref) {
             WriteTerm();
             span_size_ = 1;
-            bool seq_id = id == prev_id_.inc();
+            // the grammar has no ref without an id, hence no " :ref" alone
+            bool seq_id = id == prev_id_.inc() && ref == prev_id_;
             if (!seq_id) {
                 Write(SPEC_PUNCT[EVENT]);
                 WriteUuid(id);
-- 
2.43.0


From ad3cfa554fb206c979ba3d91df1e64bcacdbf1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:17 +0000
Subject: [PATCH 02/55] fix: text spans garble the first char if it is
 multibyte or escaped

---
 ron/text.hpp | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/ron/text.hpp b/ron/text.hpp
index ad39cdb..096edc4 100644
--- a/ron/text.hpp
+++ b/ron/text.hpp
@@ -256,19 +256,11 @@ class TextFrame {
             if (prev_2_.type() == STRING) {
                 Atom a = cur.op()[2];
                 if (span_size_ == 1) {
-                    char ret[8];
-                    fsize_t retc{0};
+                    // 'a' becomes ('a; the char itself may be a quote (\')
                     data_.pop_back();
-                    while (data_.back() != ATOM_PUNCT[STRING]) {
-                        ret[retc++] = data_.back();
-                        data_.pop_back();
-                    }
-                    data_.pop_back();
-                    Write('(');
-                    Write(ATOM_PUNCT[STRING]);
-                    for (fsize_t i = 0; i < retc; ++i) {
-                        data_.push_back(ret[i]);
-                    }
+                    size_t at = data_.rfind(ATOM_PUNCT[STRING]);
+                    if (data_[at - 1] == ESC) at -= 2;
+                    data_.insert(at, 1, '(');
                 }
                 if (!a.value.cp) {
                     cur.NextCodepoint(a);
-- 
2.43.0


From 99d8d60b559f1edd2309d3a6e1f820147a836b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:17 +0000
Subject: [PATCH 03/55] fix: do not emit the \f escape, the parser rejects it

---
 ron/encdec.hpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/ron/encdec.hpp b/ron/encdec.hpp
index 986b18f..40ebc94 100644
--- a/ron/encdec.hpp
+++ b/ron/encdec.hpp
@@ -114,10 +114,6 @@ inline void utf8esc_append(String& to, Codepoint cp) {
                 to.push_back(ESC);
                 to.push_back('b');
                 break;
-            case '\f':
-                to.push_back(ESC);
-                to.push_back('f');
-                break;
             case '\n':
                 to.push_back(ESC);
                 to.push_back('n');
-- 
2.43.0


From 5a53b3a7ec1ce95cc7666cc8384bf4f930ab9505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:17 +0000
Subject: [PATCH 04/55] fix: signed 18 digit ints are not too big

---
 ron/text.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ron/text.cc b/ron/text.cc
index 7ff30d0..b6e2f70 100644
--- a/ron/text.cc
+++ b/ron/text.cc
@@ -78,8 +78,8 @@ bool TextFrame::Cursor::int_too_big(const Slice& data) {
         ++mem;
         --sz;
     }
-    if (sz > 19) {
-        return true;
+    if (sz != 19) {
+        return sz > 19;
     }
     int res = memcmp(mem, MAXINTSTR, sz);
     return res > 0;
-- 
2.43.0


From 9fa4fa26d78462d2cb1e519eb1d985435dcb89bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:17 +0000
Subject: [PATCH 05/55] fix: merge RGA objects of more than three pieces

---
 rdt/rga.hpp | 40 +++++++++++++++++++++++++---------------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/rdt/rga.hpp b/rdt/rga.hpp
index 5fc9140..1ceb51c 100644
--- a/rdt/rga.hpp
+++ b/rdt/rga.hpp
@@ -33,23 +33,33 @@ class RGArrayRDT {
 
    public:
     Status MergeBig(Builder &output, Cursors &inputs) const {
-        /*
-        typedef unordered_multimap<Uuid, Cursor *> insmap_t;
-        insmap_t inserts;
-        using insmap_t::value_type insmapval_t;
-        insmapval_t least{FATAL, nullptr};
-        for (int i = 0; i < inputs.size(); i++) {
-            const Cursor &c = inputs[i];
-            insmapval_t entry{c.id(), &c};
-            if (c.id() < least.first) least = entry;
-            inserts.insert(entry);
+        auto root = std::min_element(inputs.begin(), inputs.end(), id_cmp);
+        // the pieces not attached yet, by the op they attach to
+        unordered_multimap<Uuid, PCursor> pieces;
+        MCursor m{};
+        for (auto i = inputs.begin(); i != inputs.end(); ++i) {
+            if (i->id() == root->id()) {
+                m.Add(i);
+            } else {
+                pieces.emplace(i->ref(), i);
+            }
         }
 
-        MCursor m{};
-        m.Add(*least.second);
-        inserts.erase(least);  //?
-        */
-        return Status::NOT_IMPLEMENTED;
+        while (!m.empty()) {
+            const Uuid id = m.current().id();
+            output.AppendOp(m.current());
+            m.Next();
+            auto range = pieces.equal_range(id);
+            for (auto i = range.first; i != range.second; ++i) {
+                m.Add(i->second);
+            }
+            pieces.erase(range.first, range.second);
+        }
+        output.EndChunk(RAW);
+
+        return pieces.empty()
+                   ? Status::OK
+                   : Status::CAUSEBREAK.comment("unattacheable pieces");
     }
 
     Status Merge(Builder &output, Cursors &inputs) const {
-- 
2.43.0


From 2bca13698cb31acc6ca3ae9dfee279e8ce53da15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:17 +0000
Subject: [PATCH 06/55] fix: merging overlapping RGA pieces duplicates ops

---
 rdt/merge.hpp | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/rdt/merge.hpp b/rdt/merge.hpp
index 9935218..fad6c98 100644
--- a/rdt/merge.hpp
+++ b/rdt/merge.hpp
@@ -14,6 +14,7 @@ class MergeCursor {
     using PCursor = typename Cursors::iterator;
 
     std::vector<PCursor> cursors_;
+    std::vector<PCursor> same_;
 
    public:
     MergeCursor() = default;
@@ -91,22 +92,22 @@ class MergeCursor {
         push(0);
     }
 
-    bool step() {
-        if (cursors_[0]->Next()) {
-            push(0);
-        } else {
-            eject();
-        }
-        return size() > 0;
-    }
-
    public:
     // advances to the next op
     // @return non-empty
     bool Next() {
-        Uuid id{op()[OP_ID_IDX]};
-        while (step() && Uuid{op()[OP_ID_IDX]} == id)
-            ;  // idempotency
+        const Uuid id{op()[OP_ID_IDX]};
+        // idempotency: whoever has the op, steps over it
+        same_.clear();
+        while (!empty() && Uuid{op()[OP_ID_IDX]} == id) {
+            same_.push_back(cursors_.front());
+            eject();
+        }
+        for (auto c : same_) {
+            while (c->Next() && c->id() == id)
+                ;
+            Add(c);
+        }
         return size() > 0;
     }
     // returns the data buffer for the current cursor/op
-- 
2.43.0


From c5ac24d0a6c5cc77abd2d3e775227e863aa07652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:51 +0000
Subject: [PATCH 07/55] fix: free the column family handle if Create fails
 halfway

---
 db/rocks_store.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/db/rocks_store.cc b/db/rocks_store.cc
index 3533ece..e5ff1a5 100644
--- a/db/rocks_store.cc
+++ b/db/rocks_store.cc
@@ -140,11 +140,13 @@ Status RocksDBStore<Frame>::Create(Uuid id) {
         db_ = SharedPtr{db};
     }
 
-    ColumnFamilyHandle* cfh;
+    ColumnFamilyHandle* cfh{nullptr};
     auto db = static_pointer_cast<rocksdb::DB>(db_);
     if (id != Uuid::NIL) {
-        IFROK(db->CreateColumnFamily(options, id.str(), &cfh));
-        cf_.reset(cfh);
+        auto ok = db->CreateColumnFamily(options, id.str(), &cfh);
+        // might return a handle *and* an error (to be freed before the db is)
+        if (cfh) cf_.reset(cfh);
+        IFROK(ok);
     } else {
         cf_ = SharedPtr{db->DefaultColumnFamily(), [](void*) {}};
     }
-- 
2.43.0


From eb67f03e2cbea5fc19dacce1c02078eb394221cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:16 +0000
Subject: [PATCH 08/55] fix: do not extend a span that ended with a chunk

---
 ron/text.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ron/text.hpp b/ron/text.hpp
index 096edc4..702031e 100644
--- a/ron/text.hpp
+++ b/ron/text.hpp
@@ -242,7 +242,7 @@ class TextFrame {
 
         template <class Cursor2>
         inline bool is_same_span(const Cursor2& cur) const {
-            if (cur.ref() != prev_id_) {
+            if (!span_size_ || cur.ref() != prev_id_) {
                 return false;
             }
             if (cur.id() != prev_id_.inc()) {
-- 
2.43.0


From add5ea93323eb0d90bc2ee6c6982489eac53ae1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:14 +0000
Subject: [PATCH 09/55] fix: numbers and absent strings of a LWW object

A number was read as the bits of an integer; reading an absent string
failed an assertion.
---
 rdt/lww_obj.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rdt/lww_obj.hpp b/rdt/lww_obj.hpp
index 5d07b31..f5bb8b9 100644
--- a/rdt/lww_obj.hpp
+++ b/rdt/lww_obj.hpp
@@ -61,12 +61,13 @@ class LWWObject {
 
     inline double number(Uuid key) {
         Atom a = atom(key, FLOAT);
-        return Uuid::NIL == Uuid{a} ? std::nan("") : a.value.as_integer;
+        return Uuid::NIL == Uuid{a} ? std::nan("") : a.value.as_float;
     }
 
     inline String string(Uuid key) {
         Atom a = atom(key, STRING);
         String ret;
+        if (a.type() != STRING) return ret;
         ReadString(ret, cur_, a);  // TODO error checking, tests :)
         return ret;
     }
-- 
2.43.0


From 09212122ac9dc32ce1d06f20be22be2d05885581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:14 +0000
Subject: [PATCH 10/55] fix: undo of a single removal, out-of-bounds write on
 long removals

'rm' then 'un' did not undo. A run of removals or undos longer than the
path to the root wrote outside of the stack of marks.
---
 rdt/rga.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/rdt/rga.hpp b/rdt/rga.hpp
index 1ceb51c..ea655f2 100644
--- a/rdt/rga.hpp
+++ b/rdt/rga.hpp
@@ -195,14 +195,15 @@ Status ScanRGA(Booleans &tombstones, const Frame &frame) {
                     break;
                 case REMOVE:
                     if (kills.back()) break;
-                    at = ceiling[REMOVE] - (depth - ceiling[REMOVE]);
-                    if (at > 0) {  // aka ceiling[META_ENTRY]
+                    // the root (0, aka ceiling[META_ENTRY]) stays
+                    if (depth - ceiling[REMOVE] < ceiling[REMOVE]) {
+                        at = ceiling[REMOVE] - (depth - ceiling[REMOVE]);
                         kills[at] = true;
                     }
                     break;
                 case UNDO:
-                    at = ceiling[UNDO] - (depth - ceiling[UNDO]);
-                    if (at > ceiling[REMOVE]) {
+                    if (depth - ceiling[UNDO] <= ceiling[UNDO] - ceiling[REMOVE]) {
+                        at = ceiling[UNDO] - (depth - ceiling[UNDO]);
                         kills[at] = true;
                     }
                     break;
-- 
2.43.0


From ef86cd03ac66e5c17d61a301f52b9bbc08e03781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:14 +0000
Subject: [PATCH 11/55] fix: max registers converge, compare values by type

The outcome depended on the order of inputs: ties were broken by text
offsets, a header was looked up in the first input only, an empty
register produced an invalid op. Negative integers won over positive.
---
 rdt/max.hpp | 49 +++++++++++++++++++++++++++++++++++--------------
 1 file changed, 35 insertions(+), 14 deletions(-)

diff --git a/rdt/max.hpp b/rdt/max.hpp
index 45cd5a8..bfd88db 100644
--- a/rdt/max.hpp
+++ b/rdt/max.hpp
@@ -19,28 +19,49 @@ class MaxRDT {
             return b.id() > a.id();
         }
         if (b.op().size() == 2) return false;
-        return static_cast<Uuid>(a.atom(2)) < static_cast<Uuid>(b.atom(2));
+        int cmp = Compare(a, b);
+        return cmp ? cmp < 0 : a.id() < b.id();
+    }
+
+    template <typename Value>
+    static int Compare(const Value &a, const Value &b) {
+        return a < b ? -1 : b < a;
+    }
+
+    /** Compares the values: by the type, then by the magnitude. */
+    static int Compare(const Cursor &a, const Cursor &b) {
+        Atom x = a.atom(2), y = b.atom(2);
+        if (x.type() != y.type()) return Compare<int>(x.type(), y.type());
+        switch (x.type()) {
+            case INT:
+                return Compare(x.value.as_integer, y.value.as_integer);
+            case FLOAT:
+                return Compare(x.value.as_float, y.value.as_float);
+            case UUID:
+                return Compare(Uuid{x}, Uuid{y});
+            case STRING: {  // UTF-8 keeps the codepoint order
+                return Compare(GetString(a), GetString(b));
+            }
+        }
+        return 0;
     }
 
    public:
     Status Merge(typename Frame::Builder &output, Cursors &inputs) const {
-        if (inputs.empty()) return Status::OK;
-        if (inputs[0].valid() && inputs[0].ref() == MAX_FORM_UUID) {
-            output.AppendOp(inputs[0]);
-            inputs[0].Next();
-        }
+        const Cursor none{Frame{}};
+        Cursor root{none}, max{none};
         // TODO  sanity: all ops ref the root
-        Cursor max = inputs.back();
-        inputs.back().Next();
-        for (int i = inputs.size() - 1; i >= 0; --i) {
-            while (inputs[i].valid()) {
-                if (Less(max, inputs[i])) {
-                    max = inputs[i];
+        for (auto &i : inputs) {
+            for (; i.valid(); i.Next()) {
+                if (i.ref() == MAX_FORM_UUID) {
+                    root = i;
+                } else if (!max.valid() || Less(max, i)) {
+                    max = i;
                 }
-                inputs[i].Next();
             }
         }
-        output.AppendOp(max);
+        if (root.valid()) output.AppendOp(root);
+        if (max.valid()) output.AppendOp(max);
         output.EndChunk();
         return Status::OK;
     }
-- 
2.43.0


From 36abbe45a77ea11c52b9d0261d7f9ab0d7ac2004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:14 +0000
Subject: [PATCH 12/55] fix: cut object versions in the middle of a span

---
 db/replica.hpp |  5 +++--
 rdt/rdt.hpp    | 19 ++++++++++++++++++-
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/db/replica.hpp b/db/replica.hpp
index 118ed48..9f51dd7 100644
--- a/db/replica.hpp
+++ b/db/replica.hpp
@@ -252,8 +252,9 @@ class Replica {
         Status GetFrame(Frame &object, Uuid id, Uuid rdt);
 
         inline Status GetObjectVersion(Frame &into, Uuid id, Uuid version) {
-            Frame log;
-            IFOK(FindObjectLog(log, id));
+            Frame whole, log;
+            IFOK(FindObjectLog(whole, id));
+            IFOK(CutLog(log, whole, version));
             Cursors chains;
             IFOK(SplitLogIntoChains(chains, log, version));
             return MergeCursors(into, chains);
diff --git a/rdt/rdt.hpp b/rdt/rdt.hpp
index 3d22447..85a1276 100644
--- a/rdt/rdt.hpp
+++ b/rdt/rdt.hpp
@@ -194,12 +194,29 @@ Status SplitLogIntoChains(typename Frame::Cursors &chains, const Frame &input,
     return ok == Status::ENDOFFRAME ? Status::OK : ok;
 }
 
+/** Cuts a log at the op (incl). A span can not be trimmed in place. */
+template <typename Frame>
+Status CutLog(Frame &ret, const Frame &log, Uuid cutoff) {
+    typename Frame::Builder b;
+    typename Frame::Cursor cur = log.cursor();
+    Status ok;
+    while ((ok = cur.Next())) {
+        b.AppendOp(cur);
+        if (cur.id() == cutoff) break;
+    }
+    b.Release(ret);
+    return ok || ok == Status::ENDOFFRAME ? Status::OK : ok;
+}
+
 template <typename Frame>
 Status ObjectLogIntoState(typename Frame::Builder &into, const Frame input,
                           Uuid cutoff = Uuid::FATAL) {
     using Cursors = typename Frame::Cursors;
     Cursors chains;
-    Status ok = SplitLogIntoChains<Frame>(chains, input, cutoff);
+    Frame log;
+    Status ok = CutLog(log, input, cutoff);
+    if (!ok) return ok;
+    ok = SplitLogIntoChains<Frame>(chains, log, cutoff);
     if (!ok) return ok;
     if (chains.empty()) return Status::OK;
     Uuid rdt_id = chains[0].ref();
-- 
2.43.0


From d5175de27692573b3928cdafe35444dfa6e63983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:10 +0000
Subject: [PATCH 13/55] fix: parse hashes, load the hash of a saved op meta

---
 ron/hash.hpp   | 15 +++++++++++----
 ron/opmeta.hpp |  9 ++++++++-
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/ron/hash.hpp b/ron/hash.hpp
index 52b87e4..6bbe2a3 100644
--- a/ron/hash.hpp
+++ b/ron/hash.hpp
@@ -65,8 +65,12 @@ struct SHA2 {
         assert(hash.size() <= HEX_SIZE);
         uint32_t b = uint32_t(hash.size()) << 2;
         if (b > BIT_SIZE) b = BIT_SIZE;
-        if (decode<4, ABC16>(ret.bits_, hash, ret.known_bits_))
+        String bits;
+        if (decode<4, ABC16>(bits, hash, b)) {
+            bits.resize(SIZE, 0);
+            ret.bits_ = bits;
             ret.known_bits_ = b;
+        }
         return ret;
     }
 
@@ -74,9 +78,12 @@ struct SHA2 {
         SHA2 ret;
         assert(hash.size() <= BASE64_SIZE);
         uint32_t b = uint32_t(hash.size()) * 6;
-        if (b > BIT_SIZE) b = BIT_SIZE;
-        if (decode<6, ABC64>(ret.bits_, hash, ret.known_bits_))
-            ret.known_bits_ = b;
+        String bits;
+        if (decode<6, ABC64>(bits, hash, b)) {
+            bits.resize(SIZE, 0);  // the last char has padding bits
+            ret.bits_ = bits;
+            ret.known_bits_ = std::min(b, uint32_t(BIT_SIZE));
+        }
         return ret;
     }
 
diff --git a/ron/opmeta.hpp b/ron/opmeta.hpp
index 14e8159..8d4fe77 100644
--- a/ron/opmeta.hpp
+++ b/ron/opmeta.hpp
@@ -126,7 +126,14 @@ struct OpMeta {
             return Status::BADSYNTAX.comment("no rdt id");
         }
         rdt = Uuid{load.atom(3)};
-        // hash;
+        if (!HasValue(load, STRING, 4)) {
+            return Status::BADSYNTAX.comment("no hash");
+        }
+        String base64 = GetString(load, 4);
+        if (!SHA2::valid(base64)) {
+            return Status::BADSYNTAX.comment("not a valid hash");
+        }
+        hash = SHA2::ParseBase64(base64);
         return Status::OK;
     }
 
-- 
2.43.0


From 7252bf43ad19d494b2e566c9f9db9a947be60c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:36 +0000
Subject: [PATCH 14/55] fix: the hash of a string must not depend on its
 notation

---
 ron/encdec.hpp | 9 +++++++++
 ron/hash.hpp   | 5 ++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/ron/encdec.hpp b/ron/encdec.hpp
index 40ebc94..5b5ab2c 100644
--- a/ron/encdec.hpp
+++ b/ron/encdec.hpp
@@ -93,6 +93,15 @@ inline void utf8append(String& to, Codepoint cp) {
     }
 }
 
+/** The number of codepoints in a valid UTF-8 string. */
+inline fsize_t utf8size(const String& str) {
+    fsize_t ret = 0;
+    for (char c : str) {
+        ret += (c & 0xc0) != 0x80;
+    }
+    return ret;
+}
+
 inline void utf8esc_append(String& to, Codepoint cp) {
     if (cp < 128) {
         Char i = static_cast<Char>(cp);
diff --git a/ron/hash.hpp b/ron/hash.hpp
index 6bbe2a3..ea3e88e 100644
--- a/ron/hash.hpp
+++ b/ron/hash.hpp
@@ -154,10 +154,13 @@ void WriteOpHashable(const Cursor& cursor, SomeStream& stream,
                 stream.WriteAtomRangeless(atom);
                 break;
             case STRING:
-                stream.WriteAtomRangeless(atom);
                 // TODO: slice_t, no alloc
                 String str;
                 ReadString(str, cursor, atom);
+                // the hash must not depend on the notation (quotes or spans,
+                // escapes), so mention the size in codepoints, always
+                stream.WriteAtomRangeless(
+                    Atom::String(0, Range{}, utf8size(str)));
                 stream.Write(str);
                 break;
         }
-- 
2.43.0


From 5c636ead84e4de910cf83ec49b6779f7d87574ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:03 +0000
Subject: [PATCH 15/55] fix: merge joined records by the type in the key

---
 db/joined_store.hpp | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/db/joined_store.hpp b/db/joined_store.hpp
index a991470..6bc95d6 100644
--- a/db/joined_store.hpp
+++ b/db/joined_store.hpp
@@ -13,11 +13,18 @@ class JoinedStore {
     using Frame = typename StoreA::Frame;
     using Record = typename StoreA::Record;
     using Records = typename StoreA::Records;
-    using Frames = std::vector<Frame>;
     using Cursor = typename Frame::Cursor;
     using Cursors = typename Frame::Cursors;
     using Builder = typename Frame::Builder;
 
+   private:
+    static inline void AddInput(Cursors& inputs, Cursor input) {
+        if (input.Next()) {
+            inputs.push_back(input);
+        }
+    }
+
+   public:
     JoinedStore(StoreA& a, StoreB& b) : a_{a}, b_{b} {}
 
     Word id() const { return a_.id(); }
@@ -36,7 +43,11 @@ class JoinedStore {
         } else if (b.empty()) {
             std::swap(a, into);
         } else {
-            IFOK(MergeFrames(into, Frames{a, b}));
+            // the record's type is in the key; the ops might not mention it
+            Cursors inputs;
+            AddInput(inputs, Cursor{a});
+            AddInput(inputs, Cursor{b});
+            IFOK(MergeCursors(into, key.form(), inputs));
         }
         LOG('R', key, into.data());
         return Status::OK;
@@ -101,15 +112,9 @@ class JoinedStore {
             }
             // have to merge then
             Cursors inputs;
-            inputs.emplace_back(ai_.value());
-            if (!inputs.back().Next()) {
-                inputs.pop_back();
-            }
-            inputs.emplace_back(bi_.value());
-            if (!inputs.back().Next()) {
-                inputs.pop_back();
-            }
-            Status ok = MergeCursors<Frame>(merged_, inputs);
+            AddInput(inputs, ai_.value());
+            AddInput(inputs, bi_.value());
+            Status ok = MergeCursors<Frame>(merged_, at_.form(), inputs);
             LOG('_', at_, merged_.data());
             return ok ? Cursor{merged_}
                       : OneOp<Frame>(ok.code(), Uuid::FATAL).cursor();
-- 
2.43.0


From 1092de9df5464f20e93e7f3eb9a3101b5da41368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:26 +0000
Subject: [PATCH 16/55] fix: a commit must update the tip of its branch

---
 db/replica.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/db/replica.cc b/db/replica.cc
index 04d8478..0e6070b 100644
--- a/db/replica.cc
+++ b/db/replica.cc
@@ -678,8 +678,10 @@ Status Replica<Store>::Commit::Save() {
     mem_.Release(save);
     // Frames are applied transactionally, all or nothing.
     // We saw no errors => we may save the changes.
+    IFOK(main_.Write(save));
+    main_.tip = tip_;
     base_ = tip_ = Uuid::NIL;
-    return main_.Write(save);
+    return Status::OK;
 }
 
 template <class Cursor>
-- 
2.43.0


From bd30e89df214a23b91777562b3fd3a248c77bf2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:26 +0000
Subject: [PATCH 17/55] fix: names must be written with their frame, all or
 nothing

---
 db/main.cc    |  5 +++++
 db/replica.cc | 13 ++++++++++---
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/db/main.cc b/db/main.cc
index 8d03759..971cd03 100644
--- a/db/main.cc
+++ b/db/main.cc
@@ -179,6 +179,7 @@ Status CommandCreate(RonReplica& replica, Args& args) {
     if (tag != Uuid::NIL) {
         Commit c{replica, Uuid::NIL};
         IFOK(c.WriteName(tag, branch_id));
+        IFOK(c.Save());
     }
     return Status{branch_id, "You started a yarn"};
 }
@@ -212,6 +213,7 @@ Status CommandFork(RonReplica& replica, Args& args) {
     if (tag != Uuid::NIL) {
         Commit c{replica, Uuid::NIL};
         IFOK(c.WriteName(tag, new_branch_id));
+        IFOK(c.Save());
     }
     return Status{new_branch_id, "You forked a yarn"};
 }
@@ -590,6 +592,9 @@ Status CommandName(RonReplica& replica, Args& args) {
 
     Commit commit{replica, branch_id};
     Status ok = commit.WriteName(name, id);
+    if (ok) {
+        ok = commit.Save();
+    }
     if (ok) {
         ok = ok.comment("assigned name " + name.str() + " to " + id.str());
     }
diff --git a/db/replica.cc b/db/replica.cc
index 0e6070b..55b79d0 100644
--- a/db/replica.cc
+++ b/db/replica.cc
@@ -58,6 +58,12 @@ Status Replica<Store>::Open() {
         }
         store.tip = tip;
         See(tip);
+        Frame names;  // have timestamps of their own
+        IFOK(store.Read(Key{Uuid::NIL, LWW_RDT_FORM}, names));
+        Cursor nc{names};
+        while (nc.Next()) {
+            See(nc.id());
+        }
     }
 
     Frame active;
@@ -148,7 +154,7 @@ Status Replica<Store>::Commit::WriteName(Uuid key, Uuid value) {
     Uuid id = host_.Now(yarn_id());
     Key names_key{Uuid::NIL, LWW_RDT_FORM};
     Frame valop = OneOp<Frame>(id, Uuid::NIL, key, value);
-    IFOK(main_.Write(names_key, valop));
+    IFOK(join_.Write(names_key, valop));
     //???!!!last_name_id_ = id;
     return id;
 }
@@ -660,8 +666,9 @@ Status Replica<Store>::Commit::WriteName(Cursor& cmd) {
 
 template <typename Store>
 Status Replica<Store>::Commit::Save() {
-    if (tip_ == base_) {
-        return Status::OK;
+    if (tip_ == base_) {  // no new events, could be some names though
+        Records names;
+        return mem_.Release(names) ? main_.Write(names) : Status::OK;
     }
     if (base_ != Uuid::NIL && tip_.origin != base_.origin) {
         return Status::BAD_STATE.comment("tip changes origin? " + base_.str() +
-- 
2.43.0


From 7974a843ee05446af8c1e3d2cb830f9c2628dc61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:54 +0000
Subject: [PATCH 18/55] fix: remember the active branch

---
 db/replica.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/db/replica.cc b/db/replica.cc
index 55b79d0..fcd8682 100644
--- a/db/replica.cc
+++ b/db/replica.cc
@@ -69,7 +69,7 @@ Status Replica<Store>::Open() {
     Frame active;
     if (GetMetaStore().Read(Key{ACTIVE_STORE_UUID, ZERO_RAW_FORM}, active)) {
         Cursor c{active};
-        if (c.valid() && HasStore(c.ref())) {
+        if (c.Next() && HasStore(c.ref())) {
             active_ = c.ref();
         }
     }
-- 
2.43.0


From 7c2f7c9890a0e39d05f1bddba6f00884d98a8661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:29 +0000
Subject: [PATCH 19/55] fix: unfinished branches must not break the replica

---
 db/replica.cc | 38 ++++++++++++++++++++++++++++++--------
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/db/replica.cc b/db/replica.cc
index fcd8682..4a7940e 100644
--- a/db/replica.cc
+++ b/db/replica.cc
@@ -41,13 +41,21 @@ Status Replica<Store>::Open() {
 
     IFOK(Store::OpenAll(stores_));
 
+    Uuids unfinished;
     for (auto& i : stores_) {
         Uuid id = i.first;
         Store& store = i.second;
         Frame meta_rec;
         IFOK(store.Read(Key{}, meta_rec));
         Cursor mc{meta_rec};
-        if (!mc.Next()) {
+        bool has_tip = mc.Next();
+        if (id != Uuid::NIL &&
+            (meta_rec.empty() || (has_tip && mc.id() == Uuid::NIL))) {
+            // no events; died in the middle of CreateBranch()
+            unfinished.push_back(id);
+            continue;
+        }
+        if (!has_tip) {
             return Status::BADFRAME.comment("tip record is corrupted");
         }
         Uuid tip = mc.id();
@@ -66,6 +74,10 @@ Status Replica<Store>::Open() {
         }
     }
 
+    for (auto& id : unfinished) {
+        IFOK(DropStore(id));
+    }
+
     Frame active;
     if (GetMetaStore().Read(Key{ACTIVE_STORE_UUID, ZERO_RAW_FORM}, active)) {
         Cursor c{active};
@@ -100,19 +112,29 @@ Status Replica<Store>::CreateBranch(Word yarn_id, bool transcendent) {
     IFOK(new_branch_tmp.Create(branch_id));
     stores_.emplace(branch_id, new_branch_tmp);
 
-    Commit commit{*this, branch_id};
-    Frame yarn_init = OneOp<Frame>(event_id, YARN_FORM_UUID);
-    Cursor c{yarn_init};
-    c.Next();
-    Builder b;
-    commit.SaveChain(b, c);
+    Status ok;
+    {
+        Commit commit{*this, branch_id};
+        Frame yarn_init = OneOp<Frame>(event_id, YARN_FORM_UUID);
+        Cursor c{yarn_init};
+        c.Next();
+        Builder b;
+        ok = commit.SaveChain(b, c);
+        if (ok) {
+            ok = commit.Save();
+        }
+    }
+    if (!ok) {  // in case it can't be dropped now, Open() will drop it
+        DropStore(branch_id);
+        stores_.erase(branch_id);
+    }
 
     /*
     Frame names = OneOp<Frame>(Uuid::NIL, LWW_FORM_UUID);
     IFOK(new_branch.Write(Key{Uuid::NIL, LWW_FORM_UUID}, names));
     */
 
-    return commit.Save();
+    return ok;
 }
 
 template <typename Store>
-- 
2.43.0


From d533a4e1fccbe85c71205a98b74bae5a5f724fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:42 +0000
Subject: [PATCH 20/55] fix: fork a branch atomically, check for scan errors

---
 db/replica.cc  | 29 ++++++++++++++++++++---------
 db/replica.hpp |  3 +++
 2 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/db/replica.cc b/db/replica.cc
index 4a7940e..0c01c0d 100644
--- a/db/replica.cc
+++ b/db/replica.cc
@@ -102,9 +102,14 @@ inline Status Replica<Store>::SetActiveStore(Uuid store) {
 
 template <typename Store>
 Status Replica<Store>::CreateBranch(Word yarn_id, bool transcendent) {
-    Uuid branch_id = yarn2branch(yarn_id);
-    Uuid event_id = transcendent ? Uuid::Time(0, yarn_id) : Now(yarn_id);
-    if (HasBranch(yarn_id)) {
+    return NewBranch(transcendent ? Uuid::Time(0, yarn_id) : Now(yarn_id),
+                     Records{});
+}
+
+template <typename Store>
+Status Replica<Store>::NewBranch(Uuid event_id, const Records& content) {
+    Uuid branch_id = yarn2branch(event_id.origin);
+    if (HasStore(branch_id)) {
         return Status::BADARGS.comment("branch already exists");
     }
     const Store& meta = GetMetaStore();
@@ -119,7 +124,10 @@ Status Replica<Store>::CreateBranch(Word yarn_id, bool transcendent) {
         Cursor c{yarn_init};
         c.Next();
         Builder b;
-        ok = commit.SaveChain(b, c);
+        ok = commit.mem_.Write(content);
+        if (ok) {
+            ok = commit.SaveChain(b, c);
+        }
         if (ok) {
             ok = commit.Save();
         }
@@ -143,19 +151,22 @@ Status Replica<Store>::ForkBranch(Word new_yarn_id, Word orig_yarn_id) {
         return Status::NOT_FOUND.comment("no such branch: " +
                                          orig_yarn_id.str());
     }
-    IFOK(CreateBranch(new_yarn_id));
     Store& orig = GetBranch(orig_yarn_id);
-    Store& created = GetBranch(new_yarn_id);
     StoreIterator i{orig};
     IFOK(i.SeekTo(Key{}));
 
-    while (i.Next()) {
+    Records content;
+    Status ok;
+    while ((ok = i.Next())) {  // skips the tip record
         Frame f;
         IFOK(orig.Read(i.key(), f));
-        IFOK(created.Write(i.key(), f));
+        content.emplace_back(i.key(), f);
+    }
+    if (ok != Status::ENDOFINPUT) {
+        return ok;
     }
 
-    return Status::OK;
+    return NewBranch(Now(new_yarn_id), content);
 }
 
 template <typename Store>
diff --git a/db/replica.hpp b/db/replica.hpp
index 9f51dd7..986ba3f 100644
--- a/db/replica.hpp
+++ b/db/replica.hpp
@@ -75,6 +75,9 @@ class Replica {
 
     const static MemStore EMPTY;
 
+    /** Creates a branch with the given content, all or nothing. */
+    Status NewBranch(Uuid yarn_init_id, const Records &content);
+
    public:
     Replica() = default;
 
-- 
2.43.0


From b23f1410c8eccb0e5062c9232944361f5fdad5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:43 +0000
Subject: [PATCH 21/55] fix: only accept objects of known data types

---
 db/replica.cc | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/db/replica.cc b/db/replica.cc
index 0c01c0d..d4dd191 100644
--- a/db/replica.cc
+++ b/db/replica.cc
@@ -444,13 +444,18 @@ Status Replica<Store>::Commit::SaveChain(Builder&, Cursor& chain) {
     if (ref_id == tip_id) {  // the op refs the tip, we have the meta already
         tip_meta.Next(chain, tip_meta);
     } else if (ref_id.version() == NAME) {  // tree root, references nothing
-        FORM form = uuid2form(ref_id);
-        if (form == ERROR_NO_FORM) {
-            return Status::NOT_IMPLEMENTED.comment("form unknown: " +
-                                                   ref_id.str());
+        switch (uuid2form(ref_id)) {
+            case YARN_RAW_FORM:
+            case LWW_RDT_FORM:
+            case RGA_RDT_FORM:
+            case MX_RDT_FORM:
+            case MAX_RDT_FORM:
+                break;
+            default:  // can't be stored, can't be merged
+                return Status::NOT_IMPLEMENTED.comment("not an RDT: " +
+                                                       ref_id.str());
         }
         tip_meta = OpMeta{chain, tip_meta};
-        // TODO check it is an RDT or yarn
     } else {  // ok, let's check the db
         // we enforce referential integrity but we
         // can't run datatype-specific checks here
-- 
2.43.0


From c2ef85740c6976797f076e7a82359aefe11d53ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:34 +0000
Subject: [PATCH 22/55] fix: floats must be written as floats

---
 ron/text-builder.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ron/text-builder.cc b/ron/text-builder.cc
index 9a9c9ac..85f6a3e 100644
--- a/ron/text-builder.cc
+++ b/ron/text-builder.cc
@@ -1,4 +1,5 @@
 #include <cinttypes>
+#include <cstring>
 #include "text.hpp"
 
 namespace ron {
@@ -55,6 +56,9 @@ void TextFrame::Builder::WriteFloat(double value) {
     // 17 is DBL_DECIMAL_DIG, enough to express 64 bit ISO floats
     int len = sprintf(tmp, "%.17G", value);
     data_.append(tmp, static_cast<size_t>(len));
+    if (strspn(tmp, "-0123456789") == static_cast<size_t>(len)) {
+        data_.append(".0");  // not an INT
+    }
 }
 
 void TextFrame::Builder::WriteString(const String& value) {
-- 
2.43.0


From ddfbe785bc5d5a44ca9ba6146cca179a43d7a4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:34 +0000
Subject: [PATCH 23/55] fix: amended ops must keep their values

---
 ron/op.hpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/ron/op.hpp b/ron/op.hpp
index 101fc7e..e284b4d 100644
--- a/ron/op.hpp
+++ b/ron/op.hpp
@@ -82,20 +82,26 @@ struct Op {
     Result WriteValues(const Cursor& cur) {
         const Atoms& op = cur.op();
         for (fsize_t i = 2; i < op.size(); ++i) {
-            Atom a = op[i];
+            Atom a = cur.atom(i);  // parsed
             if (a.type() != STRING) {
                 atoms_.push_back(a);
                 continue;
             }
             fsize_t b = strings_.size();
-            fsize_t cp_size{0};
-            while (a.value.cp_size) {  // Oopsie!!! FIXME
+            if (IsStringBtB(a)) {
+                cur.NextCodepoint(a);
+            }
+            while (a.value.cp) {
                 strings_.push_back(a.value.cp);
                 cur.NextCodepoint(a);
-                ++cp_size;
             }
-            Range range{b, FSIZE(strings_.size())};
-            atoms_.push_back(Atom::String(strings_[b], range, cp_size));
+            fsize_t cp_size = strings_.size() - b;
+            if (cp_size) {
+                Range range{b + 1, FSIZE(strings_.size())};
+                atoms_.push_back(Atom::String(strings_[b], range, cp_size - 1));
+            } else {
+                atoms_.push_back(Atom::String(0, Range{b, b}, cp_size));
+            }
         }
         return OK;
     }
-- 
2.43.0


From 4d419462f76d5d66fa23edcfeb96d822213d5fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:40 +0000
Subject: [PATCH 24/55] fix: stamp new events, relative ids and refs

---
 db/replica.cc  | 35 ++++++++++++++++++++++-------------
 db/replica.hpp |  1 +
 2 files changed, 23 insertions(+), 13 deletions(-)

diff --git a/db/replica.cc b/db/replica.cc
index d4dd191..59bf8a5 100644
--- a/db/replica.cc
+++ b/db/replica.cc
@@ -592,24 +592,33 @@ inline bool is_query(const Cursor& c) {
 template <typename Store>
 Status Replica<Store>::Commit::WriteNewEvents(Builder& resp, Cursor& uc) {
     Builder stamp;
-    Uuid now = host_.Now(yarn_id());
+    const Uuid now = host_.Now(yarn_id());
     constexpr uint64_t MAXSEQ = 1 << 30;
-    while (uc.valid() && uc.id().origin.payload() == 0) {
-        if (uc.id().origin.payload() != 0) {
-            return Status::BAD_STATE.comment("stamped already");
-        }
-        Uuid id{now.value.as_u64, now.origin};
+    // unstamped ids and references are relative to the present moment
+    auto is_unstamped = [](const Uuid& id) {
+        return id.version() == TIME && id.origin.payload() == 0;
+    };
+    Status ok;
+    while (uc.valid() && is_unstamped(uc.id())) {
+        Uuid id{uc.id()};
         Uuid ref{uc.ref()};
-        if (ref.origin == 0 && ref.value < MAXSEQ) {
-            ref = Uuid{now.value.as_u64 + uc.ref().value.as_u64, now.origin};
+        if (id.value >= MAXSEQ) {
+            return Status::BADARGS.comment("not a sequence number: " +
+                                           id.str());
+        }
+        id = now.inc(id.value.as_u64);
+        if (is_unstamped(ref) && ref.value < MAXSEQ) {
+            ref = now.inc(ref.value.as_u64);
         }
         stamp.AppendOp(Op::Amend(id, ref, uc));
-        uc.Next();
-        now.inc();
+        ok = uc.Next();
     }
-    stamp.EndChunk(RAW);
-    Cursor stamped{stamp.data()};
-    Status ok;
+    if (!ok && ok != Status::ENDOFFRAME) {
+        return ok;
+    }
+    Frame stamped_frame = stamp.Release();
+    Cursor stamped{stamped_frame};
+    ok = stamped.Next();
     while (stamped.valid() && ok) {
         ok = SaveChain(resp, stamped);
     }
diff --git a/db/replica.hpp b/db/replica.hpp
index 986ba3f..ff0bc68 100644
--- a/db/replica.hpp
+++ b/db/replica.hpp
@@ -347,6 +347,7 @@ class Replica {
         inline Status NewObject(Uuid rdt) {
             Frame creation = OneOp<Frame>(Uuid::Time(0, 0), rdt);
             Cursor c{creation};
+            c.Next();
             Builder re;
             return WriteNewEvents(re, c);
         }
-- 
2.43.0


From c1a3549040ad78467ceb82e6f8668ee1bd6484cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:57 +0000
Subject: [PATCH 25/55] fix: txt: ops may have no value, chars may be quoted

---
 db/map/txt.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/db/map/txt.hpp b/db/map/txt.hpp
index ea8d977..eb9846e 100644
--- a/db/map/txt.hpp
+++ b/db/map/txt.hpp
@@ -20,9 +20,9 @@ Status TxtMapper<Commit>::Read(Builder& response, Cursor& query, Commit& branch)
     Cursor c{state};
     fsize_t pos = 0;
     while (c.Next()) {
-        if (!tombs[pos]) {
+        if (!tombs[pos] && HasValue(c, STRING)) {
             // FIXME may send directly to the Builder?
-            utf8append(text, c.atom(2).value.cp);
+            ReadString(text, c, 2);
         }
         ++pos;
     }
-- 
2.43.0


From b0d549bbc92a1e3cffc32503c40142ebd2b5a2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:42 +0000
Subject: [PATCH 26/55] fix: report syntax errors, accept trailing comments

---
 db/map/txt.hpp |  3 +--
 db/replica.cc  | 14 ++++++--------
 db/replica.hpp |  5 +++--
 ron/frames.hpp |  7 +++++++
 4 files changed, 17 insertions(+), 12 deletions(-)

diff --git a/db/map/txt.hpp b/db/map/txt.hpp
index eb9846e..f1d2850 100644
--- a/db/map/txt.hpp
+++ b/db/map/txt.hpp
@@ -27,8 +27,7 @@ Status TxtMapper<Commit>::Read(Builder& response, Cursor& query, Commit& branch)
         ++pos;
     }
     response.AppendOp(Op{id.derived(), TXT_MAP_ID, text});
-    query.Next(); // consume the query
-    return Status::OK;
+    return ConsumeOp(query);
 }
 
 template <typename Commit>
diff --git a/db/replica.cc b/db/replica.cc
index 59bf8a5..5cfcd93 100644
--- a/db/replica.cc
+++ b/db/replica.cc
@@ -520,15 +520,13 @@ Status Replica<Store>::Commit::QueryObject(Builder& response, Cursor& query) {
         Frame f;
         IFOK(join_.Read(key, f));
         AppendFrame<Frame>(response, f);
-        query.Next();
-        return Status::OK;
+        return ConsumeOp(query);
     } else if (host_.mode_ & KEEP_OBJECT_LOGS) {
         Key logkey{query.id(), LOG_FORM_UUID};
         Frame log;
         join_.Read(logkey, log);
-        Status ok = ObjectLogIntoState(response, log);
-        query.Next();
-        return ok;
+        IFOK(ObjectLogIntoState(response, log));
+        return ConsumeOp(query);
     } else {
         return Status::NOT_FOUND.comment("unsupported form");
     }
@@ -548,7 +546,7 @@ template <typename Store>
 Status Replica<Store>::Commit::QueryObjectLog(Builder& response,
                                               Cursor& query) {
     Uuid id = query.id();
-    query.Next();
+    IFOK(ConsumeOp(query));
     OpMeta meta;
     IFOK(FindOpMeta(meta, id));
     Key logkey{meta.object, meta.rdt};
@@ -707,7 +705,7 @@ Status Replica<Store>::Commit::WriteName(Cursor& cmd) {
         return Status::BADARGS.comment("a name must be a NAME UUID");
     }
     // TODO global/scoped names
-    cmd.Next();
+    IFOK(ConsumeOp(cmd));
     return WriteName(tag, tip_);
 }
 
@@ -782,7 +780,7 @@ Status Replica<Store>::Receive(Builder& resp, Cursor& c, Word yarn_id) {
                 break;
             case NAME:
                 if (c.id() == Uuid::COMMENT) {
-                    ok = c.Next();
+                    ok = ConsumeOp(c);
                 } else if (c.id() == NAME_UUID) {
                     ok = commit.WriteName(c);
                 } else {
diff --git a/db/replica.hpp b/db/replica.hpp
index ff0bc68..846e00e 100644
--- a/db/replica.hpp
+++ b/db/replica.hpp
@@ -402,8 +402,9 @@ class Replica {
     inline Status ReceiveFrame(Builder &response, Frame frame,
                                Word branch = ZERO) {
         Cursor c{frame};
-        if (!c.Next()) {
-            return Status::OK;
+        Status ok = ConsumeOp(c);
+        if (!ok || !c.valid()) {
+            return ok;
         }
         return Receive(response, c, branch);
     }
diff --git a/ron/frames.hpp b/ron/frames.hpp
index e8d941a..18d9f62 100644
--- a/ron/frames.hpp
+++ b/ron/frames.hpp
@@ -170,6 +170,13 @@ inline bool HasValue(const Cursor& cur, ATOM atype, fsize_t idx = 2) {
     return op.size() > idx && op[idx].type() == atype;
 }
 
+/** Moves to the next op, if any. */
+template <class Cursor>
+inline Status ConsumeOp(Cursor& cur) {
+    Status ok = cur.Next();
+    return ok == Status::ENDOFFRAME ? Status::OK : ok;
+}
+
 template <class Cursor>
 Status SkipChain(Cursor& cur) {
     Uuid i;
-- 
2.43.0


From 3fbd74711a69f2b46810bbec27a1ad9fde58611d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:42 +0000
Subject: [PATCH 27/55] fix: object log queries must read the log

---
 db/replica.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/db/replica.cc b/db/replica.cc
index 5cfcd93..b7c8d3b 100644
--- a/db/replica.cc
+++ b/db/replica.cc
@@ -524,7 +524,7 @@ Status Replica<Store>::Commit::QueryObject(Builder& response, Cursor& query) {
     } else if (host_.mode_ & KEEP_OBJECT_LOGS) {
         Key logkey{query.id(), LOG_FORM_UUID};
         Frame log;
-        join_.Read(logkey, log);
+        IFOK(join_.Read(logkey, log));
         IFOK(ObjectLogIntoState(response, log));
         return ConsumeOp(query);
     } else {
@@ -549,7 +549,7 @@ Status Replica<Store>::Commit::QueryObjectLog(Builder& response,
     IFOK(ConsumeOp(query));
     OpMeta meta;
     IFOK(FindOpMeta(meta, id));
-    Key logkey{meta.object, meta.rdt};
+    Key logkey{meta.object, LOG_FORM_UUID};
     if (id == meta.object) {
         Frame obj;
         IFOK(join_.Read(logkey, obj));
-- 
2.43.0


From af88032b4624dbf1fd870099ef4e00771d536772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:24 +0000
Subject: [PATCH 28/55] fix: swarmdb get, query, new must parse their ops

---
 db/main.cc | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/db/main.cc b/db/main.cc
index 971cd03..144826e 100644
--- a/db/main.cc
+++ b/db/main.cc
@@ -340,7 +340,7 @@ Status CommandQuery(RonReplica& replica, const string& name) {
     string termd{name};
     if (termd.find('?') == -1) termd.push_back('?');
     TextFrame::Cursor cur{termd};
-    if (!cur.valid()) return Status::BADARGS.comment("need a query op");
+    if (!cur.Next()) return Status::BADARGS.comment("need a query op");
     id = cur.id();
     rdt = cur.ref();
     if (id == Uuid::FATAL || rdt == Uuid::FATAL) {
@@ -374,7 +374,7 @@ Status CommandGetFrame(RonReplica& replica, Args& args) {
         IFOK(commit.ReadName(id, id));
     }
     CHECKARG(id.version() != UUID::TIME,
-             "frame id must be an EVENT UUID, not " + args.back());
+             "frame id must be an EVENT UUID, not " + id.str());
     bool clean = !args.empty() && args.back() == "clean";
     size_t dot;
     /*if (name[0] == '@') {
@@ -392,13 +392,13 @@ Status CommandGetFrame(RonReplica& replica, Args& args) {
     }*/
     Builder result;
     Frame query = Query<Frame>(id, rdt);
-    Cursor qc{query};
-    IFOK(replica.Receive(result, qc));  // FIXME
+    IFOK(replica.ReceiveFrame(result, query,
+                              replica.active_store().origin));  // FIXME
     if (!clean) {
         cout << result.data() << '\n';
     } else {
         Cursor c{result.data()};
-        if (c.valid() && HasValue(c, STRING)) {
+        if (c.Next() && HasValue(c, STRING)) {
             cout << GetString(c, 2);
         } else {
             return Status::BADVALUE.comment("no string in the first value pos");
@@ -474,6 +474,7 @@ Status CommandNew(RonReplica& replica, Args& args) {
     Frame new_obj = OneOp<Frame>(replica.Now(branch_id.origin), rdt);
     Builder re;
     Cursor cu{new_obj};
+    cu.Next();
 
     Commit commit{replica, branch_id};
     IFOK(commit.SaveChain(re, cu));
-- 
2.43.0


From 5b1dd28d098a55e38ecc3dd46d0d5bb41c2567b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:24 +0000
Subject: [PATCH 29/55] fix: swarmdb write works with the active or the given
 branch, or stdin

---
 db/main.cc | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/db/main.cc b/db/main.cc
index 144826e..d0c9965 100644
--- a/db/main.cc
+++ b/db/main.cc
@@ -432,16 +432,21 @@ constexpr const char* WRITE_USAGE{
     "   write an unstamped frame to the db\n"};
 
 Status CommandWrite(RonReplica& replica, Args& args) {
-    String filename = "-";
-    if (!args.empty()) {
+    String filename{};  // stdin
+    if (!args.empty() && args.back() != "on") {
         filename = args.back();
         args.pop_back();
     }
-    Uuid now = replica.Now();
+    Uuid branch_id;
+    IFOK(ScanOnBranchArg(branch_id, replica, args));
+    CHECKARG(!args.empty(), WRITE_USAGE);
+    if (filename == "-") {
+        filename.clear();
+    }
     Frame unstamped;
     IFOK(LoadFrame(unstamped, filename));
     Builder res;
-    return replica.ReceiveFrame(res, unstamped);
+    return replica.ReceiveFrame(res, unstamped, branch_id.origin);
 }
 
 #define RETIFBAD(commit)                              \
-- 
2.43.0


From 6400b814e24aad246ce66751eaeefbb28e74770e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:24 +0000
Subject: [PATCH 30/55] fix: swarmdb init must not touch an existing replica

---
 db/main.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/db/main.cc b/db/main.cc
index d0c9965..b50ce2a 100644
--- a/db/main.cc
+++ b/db/main.cc
@@ -144,8 +144,10 @@ constexpr const char* INIT_USAGE{
     "init\n"
     "   create a replica\n"};
 
+Status OpenReplica(RonReplica& replica);
+
 Status CommandInit(RonReplica& replica, Args& args) {
-    if (replica.open()) {
+    if (OpenReplica(replica)) {
         return Status::BADARGS.comment("replica already exists");
     }
     return replica.CreateReplica();
-- 
2.43.0


From 39854b8282e06b82deaee75341816c4827ad8f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:25 +0000
Subject: [PATCH 31/55] fix: a dropped store can not be active

---
 db/replica.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/db/replica.cc b/db/replica.cc
index b7c8d3b..2dcc451 100644
--- a/db/replica.cc
+++ b/db/replica.cc
@@ -177,6 +177,9 @@ inline Status Replica<Store>::DropStore(Uuid store) {
     Store& kill = GetStore(store);
     IFOK(kill.Drop());
     stores_.erase(store);
+    if (store == active_) {
+        active_ = Uuid::NIL;
+    }
     // TODO consistency checks
     return Status::OK;
 }
-- 
2.43.0


From f4991c713d12ebe6590baffb3a38e2f29314a2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:14 +0000
Subject: [PATCH 32/55] fix: the first op of a yarn has no previous op

---
 db/replica.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/db/replica.cc b/db/replica.cc
index 2dcc451..e37415f 100644
--- a/db/replica.cc
+++ b/db/replica.cc
@@ -422,7 +422,7 @@ Status Replica<Store>::Commit::SaveChain(Builder&, Cursor& chain) {
     if (chain.ref() == YARN_FORM_UUID) {
         // actually, it is the first op on the yarn
         if (ok == Status::NOT_FOUND) {
-            tip_meta = OpMeta{chain, OpMeta{}};
+            tip_meta = OpMeta{};  // no previous op
             ok = Status::OK;
         } else if (!ok) {
             return ok;
-- 
2.43.0


From 4f5b865420547650c84d3476ed99984088fd0d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:43 +0000
Subject: [PATCH 33/55] fix: room for the longest ints

---
 ron/text-builder.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ron/text-builder.cc b/ron/text-builder.cc
index 85f6a3e..8205d9a 100644
--- a/ron/text-builder.cc
+++ b/ron/text-builder.cc
@@ -38,7 +38,7 @@ Result TextFrame::Builder::WriteValues(const Cursor& cur) {
 }
 
 void TextFrame::Builder::WriteInt(int64_t value) {
-    char tmp[20];
+    char tmp[32];
     int len = sprintf(tmp, "%" PRId64, value);
     data_.append(tmp, static_cast<size_t>(len));
 }
-- 
2.43.0


From f49499667feb1f4143952aaf97e706dc1b8082a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:18 +0000
Subject: [PATCH 34/55] fix: too long words, empty spans are syntax errors

---
 ragel/text-grammar.rl |  13 +-
 ron/text-parser.cc    | 932 ++++++++++++++++++------------------------
 ron/text.hpp          |   1 +
 3 files changed, 408 insertions(+), 538 deletions(-)

diff --git a/ragel/text-grammar.rl b/ragel/text-grammar.rl
index ef32bff..502391a 100644
--- a/ragel/text-grammar.rl
+++ b/ragel/text-grammar.rl
@@ -7,15 +7,17 @@
     include UTF8 "./utf8-grammar.rl";
 
     action end_id {
+        if (word_too_big(value) || word_too_big(origin)) { cs = RON_error; goto _out; }
         op_[0] = Uuid{variety, value, version, origin};
     }
     action end_ref {
+        if (word_too_big(value) || word_too_big(origin)) { cs = RON_error; goto _out; }
         op_[1] = Uuid{variety, value, version, origin};
     }
     action begin_int { intb = p; }
     action end_int {
         Range range{buffer, intb, p};
-        if (range.size()>=19 && int_too_big(Slice{intb,p})) { cs = 0; fbreak; }
+        if (range.size()>=19 && int_too_big(Slice{intb,p})) { cs = RON_error; goto _out; }
         op_.emplace_back(INT, range);
         uuidb = nullptr; // sabotage uuid
     }
@@ -27,16 +29,16 @@
     action begin_float { floatb = p; }
     action end_float { 
         Range range{buffer, floatb, p};
-        if (range.size() > 24) { cs = 0; fbreak; }
+        if (range.size() > 24) { cs = RON_error; goto _out; }
         op_.emplace_back(FLOAT, range);
     }
     action end_quoted_uuid {
-        if (word_too_big(value) || word_too_big(origin)) { cs = 0; fbreak; }
+        if (word_too_big(value) || word_too_big(origin)) { cs = RON_error; goto _out; }
         op_.push_back(Uuid{variety, value, version, origin}); 
     }
     action end_bare_uuid { 
         if (uuidb!=nullptr) { // " 123 " is an int, not an UUID
-            if (word_too_big(value) || word_too_big(origin)) { cs = 0; fbreak; }
+            if (word_too_big(value) || word_too_big(origin)) { cs = RON_error; goto _out; }
             op_.push_back(Uuid{variety, value, version, origin}); 
         }
     }
@@ -59,13 +61,16 @@
     action string_uesc { cp = decode_hex_cp(Slice{p-4,4}); }
 
     action span_size_digit {
+        if (span_size_ > MAX_SPAN_SIZE / 10) { cs = RON_error; goto _out; }
         span_size_ *= 10;
         span_size_ += fc - '0';
     }
     action end_span_size {
+        if (!span_size_) { cs = RON_error; goto _out; }
         --span_size_;
     }
     action end_spread {
+        if (!cp_size) { cs = RON_error; goto _out; }
         if (op_.back().value.cp_size) { NextCodepoint(op_.back()); }
         span_size_ = cp_size-1;
     }
diff --git a/ron/text-parser.cc b/ron/text-parser.cc
index 4ca2a7c..687c27b 100644
--- a/ron/text-parser.cc
+++ b/ron/text-parser.cc
@@ -109,12 +109,8 @@ Status TextFrame::Cursor::Next() {
         {
             Range range{buffer, intb, p};
             if (range.size() >= 19 && int_too_big(Slice{intb, p})) {
-                cs = 0;
-                {
-                    p++;
-                    cs = 74;
-                    goto _out;
-                }
+                cs = RON_error;
+                goto _out;
             }
             op_.emplace_back(INT, range);
             uuidb = nullptr;  // sabotage uuid
@@ -134,12 +130,8 @@ Status TextFrame::Cursor::Next() {
         {
             Range range{buffer, floatb, p};
             if (range.size() > 24) {
-                cs = 0;
-                {
-                    p++;
-                    cs = 74;
-                    goto _out;
-                }
+                cs = RON_error;
+                goto _out;
             }
             op_.emplace_back(FLOAT, range);
         }
@@ -163,12 +155,8 @@ Status TextFrame::Cursor::Next() {
 #line 33 "ragel/./text-grammar.rl"
             {
                 if (word_too_big(value) || word_too_big(origin)) {
-                    cs = 0;
-                    {
-                        p++;
-                        cs = 74;
-                        goto _out;
-                    }
+                    cs = RON_error;
+                    goto _out;
                 }
                 op_.push_back(Uuid{variety, value, version, origin});
             }
@@ -192,12 +180,8 @@ Status TextFrame::Cursor::Next() {
 #line 33 "ragel/./text-grammar.rl"
             {
                 if (word_too_big(value) || word_too_big(origin)) {
-                    cs = 0;
-                    {
-                        p++;
-                        cs = 74;
-                        goto _out;
-                    }
+                    cs = RON_error;
+                    goto _out;
                 }
                 op_.push_back(Uuid{variety, value, version, origin});
             }
@@ -216,12 +200,8 @@ Status TextFrame::Cursor::Next() {
         {
             Range range{buffer, intb, p};
             if (range.size() >= 19 && int_too_big(Slice{intb, p})) {
-                cs = 0;
-                {
-                    p++;
-                    cs = 74;
-                    goto _out;
-                }
+                cs = RON_error;
+                goto _out;
             }
             op_.emplace_back(INT, range);
             uuidb = nullptr;  // sabotage uuid
@@ -234,12 +214,8 @@ Status TextFrame::Cursor::Next() {
             {
                 if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                     if (word_too_big(value) || word_too_big(origin)) {
-                        cs = 0;
-                        {
-                            p++;
-                            cs = 74;
-                            goto _out;
-                        }
+                        cs = RON_error;
+                        goto _out;
                     }
                     op_.push_back(Uuid{variety, value, version, origin});
                 }
@@ -265,12 +241,8 @@ Status TextFrame::Cursor::Next() {
             {
                 if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                     if (word_too_big(value) || word_too_big(origin)) {
-                        cs = 0;
-                        {
-                            p++;
-                            cs = 74;
-                            goto _out;
-                        }
+                        cs = RON_error;
+                        goto _out;
                     }
                     op_.push_back(Uuid{variety, value, version, origin});
                 }
@@ -296,12 +268,8 @@ Status TextFrame::Cursor::Next() {
             {
                 if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                     if (word_too_big(value) || word_too_big(origin)) {
-                        cs = 0;
-                        {
-                            p++;
-                            cs = 74;
-                            goto _out;
-                        }
+                        cs = RON_error;
+                        goto _out;
                     }
                     op_.push_back(Uuid{variety, value, version, origin});
                 }
@@ -321,12 +289,8 @@ Status TextFrame::Cursor::Next() {
         {
             Range range{buffer, floatb, p};
             if (range.size() > 24) {
-                cs = 0;
-                {
-                    p++;
-                    cs = 74;
-                    goto _out;
-                }
+                cs = RON_error;
+                goto _out;
             }
             op_.emplace_back(FLOAT, range);
         }
@@ -338,12 +302,8 @@ Status TextFrame::Cursor::Next() {
             {
                 if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                     if (word_too_big(value) || word_too_big(origin)) {
-                        cs = 0;
-                        {
-                            p++;
-                            cs = 74;
-                            goto _out;
-                        }
+                        cs = RON_error;
+                        goto _out;
                     }
                     op_.push_back(Uuid{variety, value, version, origin});
                 }
@@ -363,12 +323,8 @@ Status TextFrame::Cursor::Next() {
         {
             Range range{buffer, floatb, p};
             if (range.size() > 24) {
-                cs = 0;
-                {
-                    p++;
-                    cs = 74;
-                    goto _out;
-                }
+                cs = RON_error;
+                goto _out;
             }
             op_.emplace_back(FLOAT, range);
         }
@@ -380,12 +336,8 @@ Status TextFrame::Cursor::Next() {
             {
                 if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                     if (word_too_big(value) || word_too_big(origin)) {
-                        cs = 0;
-                        {
-                            p++;
-                            cs = 74;
-                            goto _out;
-                        }
+                        cs = RON_error;
+                        goto _out;
                     }
                     op_.push_back(Uuid{variety, value, version, origin});
                 }
@@ -408,7 +360,13 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
             {}
 #line 9 "ragel/./text-grammar.rl"
-            { op_[0] = Uuid{variety, value, version, origin}; }
+            {
+                if (word_too_big(value) || word_too_big(origin)) {
+                    cs = RON_error;
+                    goto _out;
+                }
+                op_[0] = Uuid{variety, value, version, origin};
+            }
 #line 48 "ragel/./text-grammar.rl"
             {
                 term = (*p);
@@ -427,7 +385,13 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
             {}
 #line 12 "ragel/./text-grammar.rl"
-            { op_[1] = Uuid{variety, value, version, origin}; }
+            {
+                if (word_too_big(value) || word_too_big(origin)) {
+                    cs = RON_error;
+                    goto _out;
+                }
+                op_[1] = Uuid{variety, value, version, origin};
+            }
 #line 48 "ragel/./text-grammar.rl"
             {
                 term = (*p);
@@ -446,7 +410,13 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
             {}
 #line 12 "ragel/./text-grammar.rl"
-            { op_[1] = Uuid{variety, value, version, origin}; }
+            {
+                if (word_too_big(value) || word_too_big(origin)) {
+                    cs = RON_error;
+                    goto _out;
+                }
+                op_[1] = Uuid{variety, value, version, origin};
+            }
 #line 48 "ragel/./text-grammar.rl"
             {
                 term = (*p);
@@ -465,7 +435,13 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
             {}
 #line 9 "ragel/./text-grammar.rl"
-            { op_[0] = Uuid{variety, value, version, origin}; }
+            {
+                if (word_too_big(value) || word_too_big(origin)) {
+                    cs = RON_error;
+                    goto _out;
+                }
+                op_[0] = Uuid{variety, value, version, origin};
+            }
 #line 48 "ragel/./text-grammar.rl"
             {
                 term = (*p);
@@ -535,12 +511,8 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, intb, p};
                 if (range.size() >= 19 && int_too_big(Slice{intb, p})) {
-                    cs = 0;
-                    {
-                        p++;
-                        cs = 1;
-                        goto _out;
-                    }
+                    cs = RON_error;
+                    goto _out;
                 }
                 op_.emplace_back(INT, range);
                 uuidb = nullptr;  // sabotage uuid
@@ -551,12 +523,8 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, floatb, p};
                 if (range.size() > 24) {
-                    cs = 0;
-                    {
-                        p++;
-                        cs = 1;
-                        goto _out;
-                    }
+                    cs = RON_error;
+                    goto _out;
                 }
                 op_.emplace_back(FLOAT, range);
             }
@@ -571,12 +539,8 @@ Status TextFrame::Cursor::Next() {
 #line 33 "ragel/./text-grammar.rl"
                 {
                     if (word_too_big(value) || word_too_big(origin)) {
-                        cs = 0;
-                        {
-                            p++;
-                            cs = 1;
-                            goto _out;
-                        }
+                        cs = RON_error;
+                        goto _out;
                     }
                     op_.push_back(Uuid{variety, value, version, origin});
                 }
@@ -591,12 +555,8 @@ Status TextFrame::Cursor::Next() {
 #line 33 "ragel/./text-grammar.rl"
                 {
                     if (word_too_big(value) || word_too_big(origin)) {
-                        cs = 0;
-                        {
-                            p++;
-                            cs = 1;
-                            goto _out;
-                        }
+                        cs = RON_error;
+                        goto _out;
                     }
                     op_.push_back(Uuid{variety, value, version, origin});
                 }
@@ -606,12 +566,8 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, intb, p};
                 if (range.size() >= 19 && int_too_big(Slice{intb, p})) {
-                    cs = 0;
-                    {
-                        p++;
-                        cs = 1;
-                        goto _out;
-                    }
+                    cs = RON_error;
+                    goto _out;
                 }
                 op_.emplace_back(INT, range);
                 uuidb = nullptr;  // sabotage uuid
@@ -624,12 +580,8 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
-                            {
-                                p++;
-                                cs = 1;
-                                goto _out;
-                            }
+                            cs = RON_error;
+                            goto _out;
                         }
                         op_.push_back(Uuid{variety, value, version, origin});
                     }
@@ -646,12 +598,8 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
-                            {
-                                p++;
-                                cs = 1;
-                                goto _out;
-                            }
+                            cs = RON_error;
+                            goto _out;
                         }
                         op_.push_back(Uuid{variety, value, version, origin});
                     }
@@ -668,12 +616,8 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
-                            {
-                                p++;
-                                cs = 1;
-                                goto _out;
-                            }
+                            cs = RON_error;
+                            goto _out;
                         }
                         op_.push_back(Uuid{variety, value, version, origin});
                     }
@@ -684,12 +628,8 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, floatb, p};
                 if (range.size() > 24) {
-                    cs = 0;
-                    {
-                        p++;
-                        cs = 1;
-                        goto _out;
-                    }
+                    cs = RON_error;
+                    goto _out;
                 }
                 op_.emplace_back(FLOAT, range);
             }
@@ -701,12 +641,8 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
-                            {
-                                p++;
-                                cs = 1;
-                                goto _out;
-                            }
+                            cs = RON_error;
+                            goto _out;
                         }
                         op_.push_back(Uuid{variety, value, version, origin});
                     }
@@ -717,12 +653,8 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, floatb, p};
                 if (range.size() > 24) {
-                    cs = 0;
-                    {
-                        p++;
-                        cs = 1;
-                        goto _out;
-                    }
+                    cs = RON_error;
+                    goto _out;
                 }
                 op_.emplace_back(FLOAT, range);
             }
@@ -734,12 +666,8 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
-                            {
-                                p++;
-                                cs = 1;
-                                goto _out;
-                            }
+                            cs = RON_error;
+                            goto _out;
                         }
                         op_.push_back(Uuid{variety, value, version, origin});
                     }
@@ -753,7 +681,13 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 9 "ragel/./text-grammar.rl"
-                { op_[0] = Uuid{variety, value, version, origin}; }
+                {
+                    if (word_too_big(value) || word_too_big(origin)) {
+                        cs = RON_error;
+                        goto _out;
+                    }
+                    op_[0] = Uuid{variety, value, version, origin};
+                }
                 goto st1;
             tr195 :
 #line 14 "ragel/././uuid-grammar.rl"
@@ -763,7 +697,13 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 12 "ragel/./text-grammar.rl"
-                { op_[1] = Uuid{variety, value, version, origin}; }
+                {
+                    if (word_too_big(value) || word_too_big(origin)) {
+                        cs = RON_error;
+                        goto _out;
+                    }
+                    op_[1] = Uuid{variety, value, version, origin};
+                }
                 goto st1;
             tr205 :
 #line 17 "ragel/././uuid-grammar.rl"
@@ -773,7 +713,13 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 12 "ragel/./text-grammar.rl"
-                { op_[1] = Uuid{variety, value, version, origin}; }
+                {
+                    if (word_too_big(value) || word_too_big(origin)) {
+                        cs = RON_error;
+                        goto _out;
+                    }
+                    op_[1] = Uuid{variety, value, version, origin};
+                }
                 goto st1;
             tr215 :
 #line 17 "ragel/././uuid-grammar.rl"
@@ -783,7 +729,13 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 9 "ragel/./text-grammar.rl"
-                { op_[0] = Uuid{variety, value, version, origin}; }
+                {
+                    if (word_too_big(value) || word_too_big(origin)) {
+                        cs = RON_error;
+                        goto _out;
+                    }
+                    op_[0] = Uuid{variety, value, version, origin};
+                }
                 goto st1;
             st1:
                 if (++p == pe) goto _test_eof1;
@@ -962,12 +914,8 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, intb, p};
                 if (range.size() >= 19 && int_too_big(Slice{intb, p})) {
-                    cs = 0;
-                    {
-                        p++;
-                        cs = 4;
-                        goto _out;
-                    }
+                    cs = RON_error;
+                    goto _out;
                 }
                 op_.emplace_back(INT, range);
                 uuidb = nullptr;  // sabotage uuid
@@ -985,12 +933,8 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, floatb, p};
                 if (range.size() > 24) {
-                    cs = 0;
-                    {
-                        p++;
-                        cs = 4;
-                        goto _out;
-                    }
+                    cs = RON_error;
+                    goto _out;
                 }
                 op_.emplace_back(FLOAT, range);
             }
@@ -1012,12 +956,8 @@ Status TextFrame::Cursor::Next() {
 #line 33 "ragel/./text-grammar.rl"
                 {
                     if (word_too_big(value) || word_too_big(origin)) {
-                        cs = 0;
-                        {
-                            p++;
-                            cs = 4;
-                            goto _out;
-                        }
+                        cs = RON_error;
+                        goto _out;
                     }
                     op_.push_back(Uuid{variety, value, version, origin});
                 }
@@ -1039,12 +979,8 @@ Status TextFrame::Cursor::Next() {
 #line 33 "ragel/./text-grammar.rl"
                 {
                     if (word_too_big(value) || word_too_big(origin)) {
-                        cs = 0;
-                        {
-                            p++;
-                            cs = 4;
-                            goto _out;
-                        }
+                        cs = RON_error;
+                        goto _out;
                     }
                     op_.push_back(Uuid{variety, value, version, origin});
                 }
@@ -1061,12 +997,8 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, intb, p};
                 if (range.size() >= 19 && int_too_big(Slice{intb, p})) {
-                    cs = 0;
-                    {
-                        p++;
-                        cs = 4;
-                        goto _out;
-                    }
+                    cs = RON_error;
+                    goto _out;
                 }
                 op_.emplace_back(INT, range);
                 uuidb = nullptr;  // sabotage uuid
@@ -1079,12 +1011,8 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
-                            {
-                                p++;
-                                cs = 4;
-                                goto _out;
-                            }
+                            cs = RON_error;
+                            goto _out;
                         }
                         op_.push_back(Uuid{variety, value, version, origin});
                     }
@@ -1108,12 +1036,8 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
-                            {
-                                p++;
-                                cs = 4;
-                                goto _out;
-                            }
+                            cs = RON_error;
+                            goto _out;
                         }
                         op_.push_back(Uuid{variety, value, version, origin});
                     }
@@ -1137,12 +1061,8 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
-                            {
-                                p++;
-                                cs = 4;
-                                goto _out;
-                            }
+                            cs = RON_error;
+                            goto _out;
                         }
                         op_.push_back(Uuid{variety, value, version, origin});
                     }
@@ -1160,12 +1080,8 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, floatb, p};
                 if (range.size() > 24) {
-                    cs = 0;
-                    {
-                        p++;
-                        cs = 4;
-                        goto _out;
-                    }
+                    cs = RON_error;
+                    goto _out;
                 }
                 op_.emplace_back(FLOAT, range);
             }
@@ -1177,12 +1093,8 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
-                            {
-                                p++;
-                                cs = 4;
-                                goto _out;
-                            }
+                            cs = RON_error;
+                            goto _out;
                         }
                         op_.push_back(Uuid{variety, value, version, origin});
                     }
@@ -1200,12 +1112,8 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, floatb, p};
                 if (range.size() > 24) {
-                    cs = 0;
-                    {
-                        p++;
-                        cs = 4;
-                        goto _out;
-                    }
+                    cs = RON_error;
+                    goto _out;
                 }
                 op_.emplace_back(FLOAT, range);
             }
@@ -1217,12 +1125,8 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
-                            {
-                                p++;
-                                cs = 4;
-                                goto _out;
-                            }
+                            cs = RON_error;
+                            goto _out;
                         }
                         op_.push_back(Uuid{variety, value, version, origin});
                     }
@@ -1243,7 +1147,13 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 12 "ragel/./text-grammar.rl"
-                { op_[1] = Uuid{variety, value, version, origin}; }
+                {
+                    if (word_too_big(value) || word_too_big(origin)) {
+                        cs = RON_error;
+                        goto _out;
+                    }
+                    op_[1] = Uuid{variety, value, version, origin};
+                }
 #line 52 "ragel/./text-grammar.rl"
                 {
                     if ((*p) == '\n') {
@@ -1260,7 +1170,13 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 12 "ragel/./text-grammar.rl"
-                { op_[1] = Uuid{variety, value, version, origin}; }
+                {
+                    if (word_too_big(value) || word_too_big(origin)) {
+                        cs = RON_error;
+                        goto _out;
+                    }
+                    op_[1] = Uuid{variety, value, version, origin};
+                }
 #line 52 "ragel/./text-grammar.rl"
                 {
                     if ((*p) == '\n') {
@@ -1330,12 +1246,8 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, intb, p};
                 if (range.size() >= 19 && int_too_big(Slice{intb, p})) {
-                    cs = 0;
-                    {
-                        p++;
-                        cs = 5;
-                        goto _out;
-                    }
+                    cs = RON_error;
+                    goto _out;
                 }
                 op_.emplace_back(INT, range);
                 uuidb = nullptr;  // sabotage uuid
@@ -1346,12 +1258,8 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, floatb, p};
                 if (range.size() > 24) {
-                    cs = 0;
-                    {
-                        p++;
-                        cs = 5;
-                        goto _out;
-                    }
+                    cs = RON_error;
+                    goto _out;
                 }
                 op_.emplace_back(FLOAT, range);
             }
@@ -1366,12 +1274,8 @@ Status TextFrame::Cursor::Next() {
 #line 33 "ragel/./text-grammar.rl"
                 {
                     if (word_too_big(value) || word_too_big(origin)) {
-                        cs = 0;
-                        {
-                            p++;
-                            cs = 5;
-                            goto _out;
-                        }
+                        cs = RON_error;
+                        goto _out;
                     }
                     op_.push_back(Uuid{variety, value, version, origin});
                 }
@@ -1386,12 +1290,8 @@ Status TextFrame::Cursor::Next() {
 #line 33 "ragel/./text-grammar.rl"
                 {
                     if (word_too_big(value) || word_too_big(origin)) {
-                        cs = 0;
-                        {
-                            p++;
-                            cs = 5;
-                            goto _out;
-                        }
+                        cs = RON_error;
+                        goto _out;
                     }
                     op_.push_back(Uuid{variety, value, version, origin});
                 }
@@ -1401,12 +1301,8 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, intb, p};
                 if (range.size() >= 19 && int_too_big(Slice{intb, p})) {
-                    cs = 0;
-                    {
-                        p++;
-                        cs = 5;
-                        goto _out;
-                    }
+                    cs = RON_error;
+                    goto _out;
                 }
                 op_.emplace_back(INT, range);
                 uuidb = nullptr;  // sabotage uuid
@@ -1419,12 +1315,8 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
-                            {
-                                p++;
-                                cs = 5;
-                                goto _out;
-                            }
+                            cs = RON_error;
+                            goto _out;
                         }
                         op_.push_back(Uuid{variety, value, version, origin});
                     }
@@ -1441,12 +1333,8 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
-                            {
-                                p++;
-                                cs = 5;
-                                goto _out;
-                            }
+                            cs = RON_error;
+                            goto _out;
                         }
                         op_.push_back(Uuid{variety, value, version, origin});
                     }
@@ -1463,12 +1351,8 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
-                            {
-                                p++;
-                                cs = 5;
-                                goto _out;
-                            }
+                            cs = RON_error;
+                            goto _out;
                         }
                         op_.push_back(Uuid{variety, value, version, origin});
                     }
@@ -1479,12 +1363,8 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, floatb, p};
                 if (range.size() > 24) {
-                    cs = 0;
-                    {
-                        p++;
-                        cs = 5;
-                        goto _out;
-                    }
+                    cs = RON_error;
+                    goto _out;
                 }
                 op_.emplace_back(FLOAT, range);
             }
@@ -1496,12 +1376,8 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
-                            {
-                                p++;
-                                cs = 5;
-                                goto _out;
-                            }
+                            cs = RON_error;
+                            goto _out;
                         }
                         op_.push_back(Uuid{variety, value, version, origin});
                     }
@@ -1512,12 +1388,8 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, floatb, p};
                 if (range.size() > 24) {
-                    cs = 0;
-                    {
-                        p++;
-                        cs = 5;
-                        goto _out;
-                    }
+                    cs = RON_error;
+                    goto _out;
                 }
                 op_.emplace_back(FLOAT, range);
             }
@@ -1529,12 +1401,8 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
-                            {
-                                p++;
-                                cs = 5;
-                                goto _out;
-                            }
+                            cs = RON_error;
+                            goto _out;
                         }
                         op_.push_back(Uuid{variety, value, version, origin});
                     }
@@ -1548,7 +1416,13 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 9 "ragel/./text-grammar.rl"
-                { op_[0] = Uuid{variety, value, version, origin}; }
+                {
+                    if (word_too_big(value) || word_too_big(origin)) {
+                        cs = RON_error;
+                        goto _out;
+                    }
+                    op_[0] = Uuid{variety, value, version, origin};
+                }
                 goto st5;
             tr196 :
 #line 14 "ragel/././uuid-grammar.rl"
@@ -1558,7 +1432,13 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 12 "ragel/./text-grammar.rl"
-                { op_[1] = Uuid{variety, value, version, origin}; }
+                {
+                    if (word_too_big(value) || word_too_big(origin)) {
+                        cs = RON_error;
+                        goto _out;
+                    }
+                    op_[1] = Uuid{variety, value, version, origin};
+                }
                 goto st5;
             tr206 :
 #line 17 "ragel/././uuid-grammar.rl"
@@ -1568,7 +1448,13 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 12 "ragel/./text-grammar.rl"
-                { op_[1] = Uuid{variety, value, version, origin}; }
+                {
+                    if (word_too_big(value) || word_too_big(origin)) {
+                        cs = RON_error;
+                        goto _out;
+                    }
+                    op_[1] = Uuid{variety, value, version, origin};
+                }
                 goto st5;
             tr216 :
 #line 17 "ragel/././uuid-grammar.rl"
@@ -1578,7 +1464,13 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 9 "ragel/./text-grammar.rl"
-                { op_[0] = Uuid{variety, value, version, origin}; }
+                {
+                    if (word_too_big(value) || word_too_big(origin)) {
+                        cs = RON_error;
+                        goto _out;
+                    }
+                    op_[0] = Uuid{variety, value, version, origin};
+                }
                 goto st5;
             st5:
                 if (++p == pe) goto _test_eof5;
@@ -1755,6 +1647,10 @@ Status TextFrame::Cursor::Next() {
             tr39 :
 #line 68 "ragel/./text-grammar.rl"
             {
+                if (!cp_size) {
+                    cs = RON_error;
+                    goto _out;
+                }
                 if (op_.back().value.cp_size) {
                     NextCodepoint(op_.back());
                 }
@@ -1771,6 +1667,10 @@ Status TextFrame::Cursor::Next() {
             tr59 :
 #line 65 "ragel/./text-grammar.rl"
             {
+                if (!span_size_) {
+                    cs = RON_error;
+                    goto _out;
+                }
                 --span_size_;
             }
 #line 52 "ragel/./text-grammar.rl"
@@ -1807,6 +1707,10 @@ Status TextFrame::Cursor::Next() {
             tr40 :
 #line 68 "ragel/./text-grammar.rl"
             {
+                if (!cp_size) {
+                    cs = RON_error;
+                    goto _out;
+                }
                 if (op_.back().value.cp_size) {
                     NextCodepoint(op_.back());
                 }
@@ -1816,6 +1720,10 @@ Status TextFrame::Cursor::Next() {
             tr60 :
 #line 65 "ragel/./text-grammar.rl"
             {
+                if (!span_size_) {
+                    cs = RON_error;
+                    goto _out;
+                }
                 --span_size_;
             }
                 goto st10;
@@ -2067,6 +1975,10 @@ Status TextFrame::Cursor::Next() {
             tr26 :
 #line 61 "ragel/./text-grammar.rl"
             {
+                if (span_size_ > MAX_SPAN_SIZE / 10) {
+                    cs = RON_error;
+                    goto _out;
+                }
                 span_size_ *= 10;
                 span_size_ += (*p) - '0';
             }
@@ -2195,12 +2107,8 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, intb, p};
                 if (range.size() >= 19 && int_too_big(Slice{intb, p})) {
-                    cs = 0;
-                    {
-                        p++;
-                        cs = 25;
-                        goto _out;
-                    }
+                    cs = RON_error;
+                    goto _out;
                 }
                 op_.emplace_back(INT, range);
                 uuidb = nullptr;  // sabotage uuid
@@ -2211,12 +2119,8 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, floatb, p};
                 if (range.size() > 24) {
-                    cs = 0;
-                    {
-                        p++;
-                        cs = 25;
-                        goto _out;
-                    }
+                    cs = RON_error;
+                    goto _out;
                 }
                 op_.emplace_back(FLOAT, range);
             }
@@ -2231,12 +2135,8 @@ Status TextFrame::Cursor::Next() {
 #line 33 "ragel/./text-grammar.rl"
                 {
                     if (word_too_big(value) || word_too_big(origin)) {
-                        cs = 0;
-                        {
-                            p++;
-                            cs = 25;
-                            goto _out;
-                        }
+                        cs = RON_error;
+                        goto _out;
                     }
                     op_.push_back(Uuid{variety, value, version, origin});
                 }
@@ -2251,12 +2151,8 @@ Status TextFrame::Cursor::Next() {
 #line 33 "ragel/./text-grammar.rl"
                 {
                     if (word_too_big(value) || word_too_big(origin)) {
-                        cs = 0;
-                        {
-                            p++;
-                            cs = 25;
-                            goto _out;
-                        }
+                        cs = RON_error;
+                        goto _out;
                     }
                     op_.push_back(Uuid{variety, value, version, origin});
                 }
@@ -2266,12 +2162,8 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, intb, p};
                 if (range.size() >= 19 && int_too_big(Slice{intb, p})) {
-                    cs = 0;
-                    {
-                        p++;
-                        cs = 25;
-                        goto _out;
-                    }
+                    cs = RON_error;
+                    goto _out;
                 }
                 op_.emplace_back(INT, range);
                 uuidb = nullptr;  // sabotage uuid
@@ -2284,12 +2176,8 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
-                            {
-                                p++;
-                                cs = 25;
-                                goto _out;
-                            }
+                            cs = RON_error;
+                            goto _out;
                         }
                         op_.push_back(Uuid{variety, value, version, origin});
                     }
@@ -2306,12 +2194,8 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
-                            {
-                                p++;
-                                cs = 25;
-                                goto _out;
-                            }
+                            cs = RON_error;
+                            goto _out;
                         }
                         op_.push_back(Uuid{variety, value, version, origin});
                     }
@@ -2328,12 +2212,8 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
-                            {
-                                p++;
-                                cs = 25;
-                                goto _out;
-                            }
+                            cs = RON_error;
+                            goto _out;
                         }
                         op_.push_back(Uuid{variety, value, version, origin});
                     }
@@ -2344,12 +2224,8 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, floatb, p};
                 if (range.size() > 24) {
-                    cs = 0;
-                    {
-                        p++;
-                        cs = 25;
-                        goto _out;
-                    }
+                    cs = RON_error;
+                    goto _out;
                 }
                 op_.emplace_back(FLOAT, range);
             }
@@ -2361,12 +2237,8 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
-                            {
-                                p++;
-                                cs = 25;
-                                goto _out;
-                            }
+                            cs = RON_error;
+                            goto _out;
                         }
                         op_.push_back(Uuid{variety, value, version, origin});
                     }
@@ -2377,12 +2249,8 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, floatb, p};
                 if (range.size() > 24) {
-                    cs = 0;
-                    {
-                        p++;
-                        cs = 25;
-                        goto _out;
-                    }
+                    cs = RON_error;
+                    goto _out;
                 }
                 op_.emplace_back(FLOAT, range);
             }
@@ -2394,12 +2262,8 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
-                            {
-                                p++;
-                                cs = 25;
-                                goto _out;
-                            }
+                            cs = RON_error;
+                            goto _out;
                         }
                         op_.push_back(Uuid{variety, value, version, origin});
                     }
@@ -2413,7 +2277,13 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 9 "ragel/./text-grammar.rl"
-                { op_[0] = Uuid{variety, value, version, origin}; }
+                {
+                    if (word_too_big(value) || word_too_big(origin)) {
+                        cs = RON_error;
+                        goto _out;
+                    }
+                    op_[0] = Uuid{variety, value, version, origin};
+                }
                 goto st25;
             tr199 :
 #line 14 "ragel/././uuid-grammar.rl"
@@ -2423,7 +2293,13 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 12 "ragel/./text-grammar.rl"
-                { op_[1] = Uuid{variety, value, version, origin}; }
+                {
+                    if (word_too_big(value) || word_too_big(origin)) {
+                        cs = RON_error;
+                        goto _out;
+                    }
+                    op_[1] = Uuid{variety, value, version, origin};
+                }
                 goto st25;
             tr208 :
 #line 17 "ragel/././uuid-grammar.rl"
@@ -2433,7 +2309,13 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 12 "ragel/./text-grammar.rl"
-                { op_[1] = Uuid{variety, value, version, origin}; }
+                {
+                    if (word_too_big(value) || word_too_big(origin)) {
+                        cs = RON_error;
+                        goto _out;
+                    }
+                    op_[1] = Uuid{variety, value, version, origin};
+                }
                 goto st25;
             tr219 :
 #line 17 "ragel/././uuid-grammar.rl"
@@ -2443,7 +2325,13 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 9 "ragel/./text-grammar.rl"
-                { op_[0] = Uuid{variety, value, version, origin}; }
+                {
+                    if (word_too_big(value) || word_too_big(origin)) {
+                        cs = RON_error;
+                        goto _out;
+                    }
+                    op_[0] = Uuid{variety, value, version, origin};
+                }
                 goto st25;
             st25:
                 if (++p == pe) goto _test_eof25;
@@ -2529,12 +2417,8 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, intb, p};
                 if (range.size() >= 19 && int_too_big(Slice{intb, p})) {
-                    cs = 0;
-                    {
-                        p++;
-                        cs = 28;
-                        goto _out;
-                    }
+                    cs = RON_error;
+                    goto _out;
                 }
                 op_.emplace_back(INT, range);
                 uuidb = nullptr;  // sabotage uuid
@@ -2545,12 +2429,8 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, floatb, p};
                 if (range.size() > 24) {
-                    cs = 0;
-                    {
-                        p++;
-                        cs = 28;
-                        goto _out;
-                    }
+                    cs = RON_error;
+                    goto _out;
                 }
                 op_.emplace_back(FLOAT, range);
             }
@@ -2565,12 +2445,8 @@ Status TextFrame::Cursor::Next() {
 #line 33 "ragel/./text-grammar.rl"
                 {
                     if (word_too_big(value) || word_too_big(origin)) {
-                        cs = 0;
-                        {
-                            p++;
-                            cs = 28;
-                            goto _out;
-                        }
+                        cs = RON_error;
+                        goto _out;
                     }
                     op_.push_back(Uuid{variety, value, version, origin});
                 }
@@ -2585,12 +2461,8 @@ Status TextFrame::Cursor::Next() {
 #line 33 "ragel/./text-grammar.rl"
                 {
                     if (word_too_big(value) || word_too_big(origin)) {
-                        cs = 0;
-                        {
-                            p++;
-                            cs = 28;
-                            goto _out;
-                        }
+                        cs = RON_error;
+                        goto _out;
                     }
                     op_.push_back(Uuid{variety, value, version, origin});
                 }
@@ -2600,12 +2472,8 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, intb, p};
                 if (range.size() >= 19 && int_too_big(Slice{intb, p})) {
-                    cs = 0;
-                    {
-                        p++;
-                        cs = 28;
-                        goto _out;
-                    }
+                    cs = RON_error;
+                    goto _out;
                 }
                 op_.emplace_back(INT, range);
                 uuidb = nullptr;  // sabotage uuid
@@ -2618,12 +2486,8 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
-                            {
-                                p++;
-                                cs = 28;
-                                goto _out;
-                            }
+                            cs = RON_error;
+                            goto _out;
                         }
                         op_.push_back(Uuid{variety, value, version, origin});
                     }
@@ -2640,12 +2504,8 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
-                            {
-                                p++;
-                                cs = 28;
-                                goto _out;
-                            }
+                            cs = RON_error;
+                            goto _out;
                         }
                         op_.push_back(Uuid{variety, value, version, origin});
                     }
@@ -2662,12 +2522,8 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
-                            {
-                                p++;
-                                cs = 28;
-                                goto _out;
-                            }
+                            cs = RON_error;
+                            goto _out;
                         }
                         op_.push_back(Uuid{variety, value, version, origin});
                     }
@@ -2678,12 +2534,8 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, floatb, p};
                 if (range.size() > 24) {
-                    cs = 0;
-                    {
-                        p++;
-                        cs = 28;
-                        goto _out;
-                    }
+                    cs = RON_error;
+                    goto _out;
                 }
                 op_.emplace_back(FLOAT, range);
             }
@@ -2695,12 +2547,8 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
-                            {
-                                p++;
-                                cs = 28;
-                                goto _out;
-                            }
+                            cs = RON_error;
+                            goto _out;
                         }
                         op_.push_back(Uuid{variety, value, version, origin});
                     }
@@ -2711,12 +2559,8 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, floatb, p};
                 if (range.size() > 24) {
-                    cs = 0;
-                    {
-                        p++;
-                        cs = 28;
-                        goto _out;
-                    }
+                    cs = RON_error;
+                    goto _out;
                 }
                 op_.emplace_back(FLOAT, range);
             }
@@ -2728,12 +2572,8 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
-                            {
-                                p++;
-                                cs = 28;
-                                goto _out;
-                            }
+                            cs = RON_error;
+                            goto _out;
                         }
                         op_.push_back(Uuid{variety, value, version, origin});
                     }
@@ -2747,7 +2587,13 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 9 "ragel/./text-grammar.rl"
-                { op_[0] = Uuid{variety, value, version, origin}; }
+                {
+                    if (word_too_big(value) || word_too_big(origin)) {
+                        cs = RON_error;
+                        goto _out;
+                    }
+                    op_[0] = Uuid{variety, value, version, origin};
+                }
                 goto st28;
             tr200 :
 #line 14 "ragel/././uuid-grammar.rl"
@@ -2757,7 +2603,13 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 12 "ragel/./text-grammar.rl"
-                { op_[1] = Uuid{variety, value, version, origin}; }
+                {
+                    if (word_too_big(value) || word_too_big(origin)) {
+                        cs = RON_error;
+                        goto _out;
+                    }
+                    op_[1] = Uuid{variety, value, version, origin};
+                }
                 goto st28;
             tr209 :
 #line 17 "ragel/././uuid-grammar.rl"
@@ -2767,7 +2619,13 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 12 "ragel/./text-grammar.rl"
-                { op_[1] = Uuid{variety, value, version, origin}; }
+                {
+                    if (word_too_big(value) || word_too_big(origin)) {
+                        cs = RON_error;
+                        goto _out;
+                    }
+                    op_[1] = Uuid{variety, value, version, origin};
+                }
                 goto st28;
             tr220 :
 #line 17 "ragel/././uuid-grammar.rl"
@@ -2777,7 +2635,13 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 9 "ragel/./text-grammar.rl"
-                { op_[0] = Uuid{variety, value, version, origin}; }
+                {
+                    if (word_too_big(value) || word_too_big(origin)) {
+                        cs = RON_error;
+                        goto _out;
+                    }
+                    op_[0] = Uuid{variety, value, version, origin};
+                }
                 goto st28;
             st28:
                 if (++p == pe) goto _test_eof28;
@@ -2953,12 +2817,8 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, intb, p};
                 if (range.size() >= 19 && int_too_big(Slice{intb, p})) {
-                    cs = 0;
-                    {
-                        p++;
-                        cs = 32;
-                        goto _out;
-                    }
+                    cs = RON_error;
+                    goto _out;
                 }
                 op_.emplace_back(INT, range);
                 uuidb = nullptr;  // sabotage uuid
@@ -2969,12 +2829,8 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, floatb, p};
                 if (range.size() > 24) {
-                    cs = 0;
-                    {
-                        p++;
-                        cs = 32;
-                        goto _out;
-                    }
+                    cs = RON_error;
+                    goto _out;
                 }
                 op_.emplace_back(FLOAT, range);
             }
@@ -2989,12 +2845,8 @@ Status TextFrame::Cursor::Next() {
 #line 33 "ragel/./text-grammar.rl"
                 {
                     if (word_too_big(value) || word_too_big(origin)) {
-                        cs = 0;
-                        {
-                            p++;
-                            cs = 32;
-                            goto _out;
-                        }
+                        cs = RON_error;
+                        goto _out;
                     }
                     op_.push_back(Uuid{variety, value, version, origin});
                 }
@@ -3009,12 +2861,8 @@ Status TextFrame::Cursor::Next() {
 #line 33 "ragel/./text-grammar.rl"
                 {
                     if (word_too_big(value) || word_too_big(origin)) {
-                        cs = 0;
-                        {
-                            p++;
-                            cs = 32;
-                            goto _out;
-                        }
+                        cs = RON_error;
+                        goto _out;
                     }
                     op_.push_back(Uuid{variety, value, version, origin});
                 }
@@ -3024,12 +2872,8 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, intb, p};
                 if (range.size() >= 19 && int_too_big(Slice{intb, p})) {
-                    cs = 0;
-                    {
-                        p++;
-                        cs = 32;
-                        goto _out;
-                    }
+                    cs = RON_error;
+                    goto _out;
                 }
                 op_.emplace_back(INT, range);
                 uuidb = nullptr;  // sabotage uuid
@@ -3042,12 +2886,8 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
-                            {
-                                p++;
-                                cs = 32;
-                                goto _out;
-                            }
+                            cs = RON_error;
+                            goto _out;
                         }
                         op_.push_back(Uuid{variety, value, version, origin});
                     }
@@ -3064,12 +2904,8 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
-                            {
-                                p++;
-                                cs = 32;
-                                goto _out;
-                            }
+                            cs = RON_error;
+                            goto _out;
                         }
                         op_.push_back(Uuid{variety, value, version, origin});
                     }
@@ -3086,12 +2922,8 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
-                            {
-                                p++;
-                                cs = 32;
-                                goto _out;
-                            }
+                            cs = RON_error;
+                            goto _out;
                         }
                         op_.push_back(Uuid{variety, value, version, origin});
                     }
@@ -3102,12 +2934,8 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, floatb, p};
                 if (range.size() > 24) {
-                    cs = 0;
-                    {
-                        p++;
-                        cs = 32;
-                        goto _out;
-                    }
+                    cs = RON_error;
+                    goto _out;
                 }
                 op_.emplace_back(FLOAT, range);
             }
@@ -3119,12 +2947,8 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
-                            {
-                                p++;
-                                cs = 32;
-                                goto _out;
-                            }
+                            cs = RON_error;
+                            goto _out;
                         }
                         op_.push_back(Uuid{variety, value, version, origin});
                     }
@@ -3135,12 +2959,8 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, floatb, p};
                 if (range.size() > 24) {
-                    cs = 0;
-                    {
-                        p++;
-                        cs = 32;
-                        goto _out;
-                    }
+                    cs = RON_error;
+                    goto _out;
                 }
                 op_.emplace_back(FLOAT, range);
             }
@@ -3152,12 +2972,8 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
-                            {
-                                p++;
-                                cs = 32;
-                                goto _out;
-                            }
+                            cs = RON_error;
+                            goto _out;
                         }
                         op_.push_back(Uuid{variety, value, version, origin});
                     }
@@ -3171,7 +2987,13 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 9 "ragel/./text-grammar.rl"
-                { op_[0] = Uuid{variety, value, version, origin}; }
+                {
+                    if (word_too_big(value) || word_too_big(origin)) {
+                        cs = RON_error;
+                        goto _out;
+                    }
+                    op_[0] = Uuid{variety, value, version, origin};
+                }
                 goto st32;
             tr201 :
 #line 14 "ragel/././uuid-grammar.rl"
@@ -3181,7 +3003,13 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 12 "ragel/./text-grammar.rl"
-                { op_[1] = Uuid{variety, value, version, origin}; }
+                {
+                    if (word_too_big(value) || word_too_big(origin)) {
+                        cs = RON_error;
+                        goto _out;
+                    }
+                    op_[1] = Uuid{variety, value, version, origin};
+                }
                 goto st32;
             tr210 :
 #line 17 "ragel/././uuid-grammar.rl"
@@ -3191,7 +3019,13 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 12 "ragel/./text-grammar.rl"
-                { op_[1] = Uuid{variety, value, version, origin}; }
+                {
+                    if (word_too_big(value) || word_too_big(origin)) {
+                        cs = RON_error;
+                        goto _out;
+                    }
+                    op_[1] = Uuid{variety, value, version, origin};
+                }
                 goto st32;
             tr221 :
 #line 17 "ragel/././uuid-grammar.rl"
@@ -3201,7 +3035,13 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 9 "ragel/./text-grammar.rl"
-                { op_[0] = Uuid{variety, value, version, origin}; }
+                {
+                    if (word_too_big(value) || word_too_big(origin)) {
+                        cs = RON_error;
+                        goto _out;
+                    }
+                    op_[0] = Uuid{variety, value, version, origin};
+                }
                 goto st32;
             st32:
                 if (++p == pe) goto _test_eof32;
@@ -4230,7 +4070,13 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 9 "ragel/./text-grammar.rl"
-                { op_[0] = Uuid{variety, value, version, origin}; }
+                {
+                    if (word_too_big(value) || word_too_big(origin)) {
+                        cs = RON_error;
+                        goto _out;
+                    }
+                    op_[0] = Uuid{variety, value, version, origin};
+                }
 #line 52 "ragel/./text-grammar.rl"
                 {
                     if ((*p) == '\n') {
@@ -4247,7 +4093,13 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 9 "ragel/./text-grammar.rl"
-                { op_[0] = Uuid{variety, value, version, origin}; }
+                {
+                    if (word_too_big(value) || word_too_big(origin)) {
+                        cs = RON_error;
+                        goto _out;
+                    }
+                    op_[0] = Uuid{variety, value, version, origin};
+                }
 #line 52 "ragel/./text-grammar.rl"
                 {
                     if ((*p) == '\n') {
@@ -4313,7 +4165,13 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 9 "ragel/./text-grammar.rl"
-                { op_[0] = Uuid{variety, value, version, origin}; }
+                {
+                    if (word_too_big(value) || word_too_big(origin)) {
+                        cs = RON_error;
+                        goto _out;
+                    }
+                    op_[0] = Uuid{variety, value, version, origin};
+                }
                 goto st64;
             tr218 :
 #line 17 "ragel/././uuid-grammar.rl"
@@ -4323,7 +4181,13 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 9 "ragel/./text-grammar.rl"
-                { op_[0] = Uuid{variety, value, version, origin}; }
+                {
+                    if (word_too_big(value) || word_too_big(origin)) {
+                        cs = RON_error;
+                        goto _out;
+                    }
+                    op_[0] = Uuid{variety, value, version, origin};
+                }
                 goto st64;
             st64:
                 if (++p == pe) goto _test_eof64;
diff --git a/ron/text.hpp b/ron/text.hpp
index 702031e..9b80223 100644
--- a/ron/text.hpp
+++ b/ron/text.hpp
@@ -42,6 +42,7 @@ class TextFrame {
 
         static constexpr int RON_FULL_STOP = 255;
         static constexpr int SPEC_SIZE = 2;  // open RON
+        static constexpr fsize_t MAX_SPAN_SIZE = 1U << 30U;
 
         Result ParseFloat(Atom& atom) const;
         Result ParseInteger(Atom& atom) const;
-- 
2.43.0


From 4c0e71f80be811a320a95ba4fda565db988b6083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:25 +0000
Subject: [PATCH 35/55] fix: a number with an exponent is not an id as well

---
 ragel/text-grammar.rl |  1 +
 ron/text-parser.cc    | 21 +++++++++++++++++++++
 2 files changed, 22 insertions(+)

diff --git a/ragel/text-grammar.rl b/ragel/text-grammar.rl
index 502391a..ce0c65f 100644
--- a/ragel/text-grammar.rl
+++ b/ragel/text-grammar.rl
@@ -31,6 +31,7 @@
         Range range{buffer, floatb, p};
         if (range.size() > 24) { cs = RON_error; goto _out; }
         op_.emplace_back(FLOAT, range);
+        uuidb = nullptr; // not an UUID either
     }
     action end_quoted_uuid {
         if (word_too_big(value) || word_too_big(origin)) { cs = RON_error; goto _out; }
diff --git a/ron/text-parser.cc b/ron/text-parser.cc
index 687c27b..d3ec258 100644
--- a/ron/text-parser.cc
+++ b/ron/text-parser.cc
@@ -134,6 +134,7 @@ Status TextFrame::Cursor::Next() {
                 goto _out;
             }
             op_.emplace_back(FLOAT, range);
+            uuidb = nullptr;  // not an UUID either
         }
 #line 48 "ragel/./text-grammar.rl"
             {
@@ -293,6 +294,7 @@ Status TextFrame::Cursor::Next() {
                 goto _out;
             }
             op_.emplace_back(FLOAT, range);
+            uuidb = nullptr;  // not an UUID either
         }
 #line 17 "ragel/././uuid-grammar.rl"
             { origin = Slice{wordb, p}; }
@@ -327,6 +329,7 @@ Status TextFrame::Cursor::Next() {
                 goto _out;
             }
             op_.emplace_back(FLOAT, range);
+            uuidb = nullptr;  // not an UUID either
         }
 #line 14 "ragel/././uuid-grammar.rl"
             { value = Slice{wordb, p}; }
@@ -527,6 +530,7 @@ Status TextFrame::Cursor::Next() {
                     goto _out;
                 }
                 op_.emplace_back(FLOAT, range);
+                uuidb = nullptr;  // not an UUID either
             }
                 goto st1;
             tr89 :
@@ -632,6 +636,7 @@ Status TextFrame::Cursor::Next() {
                     goto _out;
                 }
                 op_.emplace_back(FLOAT, range);
+                uuidb = nullptr;  // not an UUID either
             }
 #line 17 "ragel/././uuid-grammar.rl"
                 { origin = Slice{wordb, p}; }
@@ -657,6 +662,7 @@ Status TextFrame::Cursor::Next() {
                     goto _out;
                 }
                 op_.emplace_back(FLOAT, range);
+                uuidb = nullptr;  // not an UUID either
             }
 #line 14 "ragel/././uuid-grammar.rl"
                 { value = Slice{wordb, p}; }
@@ -937,6 +943,7 @@ Status TextFrame::Cursor::Next() {
                     goto _out;
                 }
                 op_.emplace_back(FLOAT, range);
+                uuidb = nullptr;  // not an UUID either
             }
 #line 52 "ragel/./text-grammar.rl"
                 {
@@ -1084,6 +1091,7 @@ Status TextFrame::Cursor::Next() {
                     goto _out;
                 }
                 op_.emplace_back(FLOAT, range);
+                uuidb = nullptr;  // not an UUID either
             }
 #line 17 "ragel/././uuid-grammar.rl"
                 { origin = Slice{wordb, p}; }
@@ -1116,6 +1124,7 @@ Status TextFrame::Cursor::Next() {
                     goto _out;
                 }
                 op_.emplace_back(FLOAT, range);
+                uuidb = nullptr;  // not an UUID either
             }
 #line 14 "ragel/././uuid-grammar.rl"
                 { value = Slice{wordb, p}; }
@@ -1262,6 +1271,7 @@ Status TextFrame::Cursor::Next() {
                     goto _out;
                 }
                 op_.emplace_back(FLOAT, range);
+                uuidb = nullptr;  // not an UUID either
             }
                 goto st5;
             tr90 :
@@ -1367,6 +1377,7 @@ Status TextFrame::Cursor::Next() {
                     goto _out;
                 }
                 op_.emplace_back(FLOAT, range);
+                uuidb = nullptr;  // not an UUID either
             }
 #line 17 "ragel/././uuid-grammar.rl"
                 { origin = Slice{wordb, p}; }
@@ -1392,6 +1403,7 @@ Status TextFrame::Cursor::Next() {
                     goto _out;
                 }
                 op_.emplace_back(FLOAT, range);
+                uuidb = nullptr;  // not an UUID either
             }
 #line 14 "ragel/././uuid-grammar.rl"
                 { value = Slice{wordb, p}; }
@@ -2123,6 +2135,7 @@ Status TextFrame::Cursor::Next() {
                     goto _out;
                 }
                 op_.emplace_back(FLOAT, range);
+                uuidb = nullptr;  // not an UUID either
             }
                 goto st25;
             tr93 :
@@ -2228,6 +2241,7 @@ Status TextFrame::Cursor::Next() {
                     goto _out;
                 }
                 op_.emplace_back(FLOAT, range);
+                uuidb = nullptr;  // not an UUID either
             }
 #line 17 "ragel/././uuid-grammar.rl"
                 { origin = Slice{wordb, p}; }
@@ -2253,6 +2267,7 @@ Status TextFrame::Cursor::Next() {
                     goto _out;
                 }
                 op_.emplace_back(FLOAT, range);
+                uuidb = nullptr;  // not an UUID either
             }
 #line 14 "ragel/././uuid-grammar.rl"
                 { value = Slice{wordb, p}; }
@@ -2433,6 +2448,7 @@ Status TextFrame::Cursor::Next() {
                     goto _out;
                 }
                 op_.emplace_back(FLOAT, range);
+                uuidb = nullptr;  // not an UUID either
             }
                 goto st28;
             tr94 :
@@ -2538,6 +2554,7 @@ Status TextFrame::Cursor::Next() {
                     goto _out;
                 }
                 op_.emplace_back(FLOAT, range);
+                uuidb = nullptr;  // not an UUID either
             }
 #line 17 "ragel/././uuid-grammar.rl"
                 { origin = Slice{wordb, p}; }
@@ -2563,6 +2580,7 @@ Status TextFrame::Cursor::Next() {
                     goto _out;
                 }
                 op_.emplace_back(FLOAT, range);
+                uuidb = nullptr;  // not an UUID either
             }
 #line 14 "ragel/././uuid-grammar.rl"
                 { value = Slice{wordb, p}; }
@@ -2833,6 +2851,7 @@ Status TextFrame::Cursor::Next() {
                     goto _out;
                 }
                 op_.emplace_back(FLOAT, range);
+                uuidb = nullptr;  // not an UUID either
             }
                 goto st32;
             tr95 :
@@ -2938,6 +2957,7 @@ Status TextFrame::Cursor::Next() {
                     goto _out;
                 }
                 op_.emplace_back(FLOAT, range);
+                uuidb = nullptr;  // not an UUID either
             }
 #line 17 "ragel/././uuid-grammar.rl"
                 { origin = Slice{wordb, p}; }
@@ -2963,6 +2983,7 @@ Status TextFrame::Cursor::Next() {
                     goto _out;
                 }
                 op_.emplace_back(FLOAT, range);
+                uuidb = nullptr;  // not an UUID either
             }
 #line 14 "ragel/././uuid-grammar.rl"
                 { value = Slice{wordb, p}; }
-- 
2.43.0


From aa364317ba9d35be158c807829075018701d4bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:33 +0000
Subject: [PATCH 36/55] fix: ids that look like floats must be quoted

---
 ron/uuid.cc  | 16 ++++++++++++++++
 ron/uuid.hpp |  5 ++---
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/ron/uuid.cc b/ron/uuid.cc
index 57f0dbe..aa9bb4f 100644
--- a/ron/uuid.cc
+++ b/ron/uuid.cc
@@ -66,6 +66,22 @@ String Uuid::str() const {
     return ret;
 }
 
+bool Uuid::is_ambiguous() const {
+    ron::String text = str();
+    size_t at = 0;
+    auto digits = [&] {
+        size_t from = at;
+        while (at < text.size() && isdigit(text[at])) ++at;
+        return at > from;
+    };
+    if (!digits()) return false;
+    if (at == text.size()) return true;
+    if (text[at] != 'e' && text[at] != 'E') return false;
+    ++at;
+    if (at < text.size() && (text[at] == '+' || text[at] == '-')) ++at;
+    return digits() && at == text.size();
+}
+
 Word Uuid::HybridTime(time_t seconds, long int nanos) {
     tm* t = gmtime(&seconds);
     uint64_t ret = 1900U + t->tm_year - 2010U;
diff --git a/ron/uuid.hpp b/ron/uuid.hpp
index b6b0c23..7b68bda 100644
--- a/ron/uuid.hpp
+++ b/ron/uuid.hpp
@@ -210,9 +210,8 @@ struct Uuid : public Atom {
     void write_base64(ron::String& to) const;
     ron::String str() const;
     inline bool zero() const { return value == ZERO; }
-    inline bool is_ambiguous() const {
-        return origin.is_zero() && value.is_all_digits();
-    }
+    /** Could be mistaken for a number in the text form, e.g. 123 or 12E+3 */
+    bool is_ambiguous() const;
     inline bool is_error() const { return origin == Word::MAX_VALUE; }
     static Uuid Time(Word value, Word origin) {
         return Uuid{value, (uint64_t(origin) & Word::PAYLOAD_BITS) |
-- 
2.43.0


From a89044fabab5d86935e145fd06470a3ceb046a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:15 +0000
Subject: [PATCH 37/55] fix: a float out of range is a syntax error

---
 ragel/text-grammar.rl |  2 +-
 ron/text-parser.cc    | 42 +++++++++++++++++++++---------------------
 ron/text.cc           |  5 +++++
 ron/text.hpp          |  1 +
 4 files changed, 28 insertions(+), 22 deletions(-)

diff --git a/ragel/text-grammar.rl b/ragel/text-grammar.rl
index ce0c65f..e863aca 100644
--- a/ragel/text-grammar.rl
+++ b/ragel/text-grammar.rl
@@ -29,7 +29,7 @@
     action begin_float { floatb = p; }
     action end_float { 
         Range range{buffer, floatb, p};
-        if (range.size() > 24) { cs = RON_error; goto _out; }
+        if (range.size() > 24 || float_too_big(Slice{floatb,p})) { cs = RON_error; goto _out; }
         op_.emplace_back(FLOAT, range);
         uuidb = nullptr; // not an UUID either
     }
diff --git a/ron/text-parser.cc b/ron/text-parser.cc
index d3ec258..a91b05a 100644
--- a/ron/text-parser.cc
+++ b/ron/text-parser.cc
@@ -129,7 +129,7 @@ Status TextFrame::Cursor::Next() {
 #line 28 "ragel/./text-grammar.rl"
         {
             Range range{buffer, floatb, p};
-            if (range.size() > 24) {
+            if (range.size() > 24 || float_too_big(Slice{floatb, p})) {
                 cs = RON_error;
                 goto _out;
             }
@@ -289,7 +289,7 @@ Status TextFrame::Cursor::Next() {
 #line 28 "ragel/./text-grammar.rl"
         {
             Range range{buffer, floatb, p};
-            if (range.size() > 24) {
+            if (range.size() > 24 || float_too_big(Slice{floatb, p})) {
                 cs = RON_error;
                 goto _out;
             }
@@ -324,7 +324,7 @@ Status TextFrame::Cursor::Next() {
 #line 28 "ragel/./text-grammar.rl"
         {
             Range range{buffer, floatb, p};
-            if (range.size() > 24) {
+            if (range.size() > 24 || float_too_big(Slice{floatb, p})) {
                 cs = RON_error;
                 goto _out;
             }
@@ -525,7 +525,7 @@ Status TextFrame::Cursor::Next() {
 #line 28 "ragel/./text-grammar.rl"
             {
                 Range range{buffer, floatb, p};
-                if (range.size() > 24) {
+                if (range.size() > 24 || float_too_big(Slice{floatb, p})) {
                     cs = RON_error;
                     goto _out;
                 }
@@ -631,7 +631,7 @@ Status TextFrame::Cursor::Next() {
 #line 28 "ragel/./text-grammar.rl"
             {
                 Range range{buffer, floatb, p};
-                if (range.size() > 24) {
+                if (range.size() > 24 || float_too_big(Slice{floatb, p})) {
                     cs = RON_error;
                     goto _out;
                 }
@@ -657,7 +657,7 @@ Status TextFrame::Cursor::Next() {
 #line 28 "ragel/./text-grammar.rl"
             {
                 Range range{buffer, floatb, p};
-                if (range.size() > 24) {
+                if (range.size() > 24 || float_too_big(Slice{floatb, p})) {
                     cs = RON_error;
                     goto _out;
                 }
@@ -938,7 +938,7 @@ Status TextFrame::Cursor::Next() {
 #line 28 "ragel/./text-grammar.rl"
             {
                 Range range{buffer, floatb, p};
-                if (range.size() > 24) {
+                if (range.size() > 24 || float_too_big(Slice{floatb, p})) {
                     cs = RON_error;
                     goto _out;
                 }
@@ -1086,7 +1086,7 @@ Status TextFrame::Cursor::Next() {
 #line 28 "ragel/./text-grammar.rl"
             {
                 Range range{buffer, floatb, p};
-                if (range.size() > 24) {
+                if (range.size() > 24 || float_too_big(Slice{floatb, p})) {
                     cs = RON_error;
                     goto _out;
                 }
@@ -1119,7 +1119,7 @@ Status TextFrame::Cursor::Next() {
 #line 28 "ragel/./text-grammar.rl"
             {
                 Range range{buffer, floatb, p};
-                if (range.size() > 24) {
+                if (range.size() > 24 || float_too_big(Slice{floatb, p})) {
                     cs = RON_error;
                     goto _out;
                 }
@@ -1266,7 +1266,7 @@ Status TextFrame::Cursor::Next() {
 #line 28 "ragel/./text-grammar.rl"
             {
                 Range range{buffer, floatb, p};
-                if (range.size() > 24) {
+                if (range.size() > 24 || float_too_big(Slice{floatb, p})) {
                     cs = RON_error;
                     goto _out;
                 }
@@ -1372,7 +1372,7 @@ Status TextFrame::Cursor::Next() {
 #line 28 "ragel/./text-grammar.rl"
             {
                 Range range{buffer, floatb, p};
-                if (range.size() > 24) {
+                if (range.size() > 24 || float_too_big(Slice{floatb, p})) {
                     cs = RON_error;
                     goto _out;
                 }
@@ -1398,7 +1398,7 @@ Status TextFrame::Cursor::Next() {
 #line 28 "ragel/./text-grammar.rl"
             {
                 Range range{buffer, floatb, p};
-                if (range.size() > 24) {
+                if (range.size() > 24 || float_too_big(Slice{floatb, p})) {
                     cs = RON_error;
                     goto _out;
                 }
@@ -2130,7 +2130,7 @@ Status TextFrame::Cursor::Next() {
 #line 28 "ragel/./text-grammar.rl"
             {
                 Range range{buffer, floatb, p};
-                if (range.size() > 24) {
+                if (range.size() > 24 || float_too_big(Slice{floatb, p})) {
                     cs = RON_error;
                     goto _out;
                 }
@@ -2236,7 +2236,7 @@ Status TextFrame::Cursor::Next() {
 #line 28 "ragel/./text-grammar.rl"
             {
                 Range range{buffer, floatb, p};
-                if (range.size() > 24) {
+                if (range.size() > 24 || float_too_big(Slice{floatb, p})) {
                     cs = RON_error;
                     goto _out;
                 }
@@ -2262,7 +2262,7 @@ Status TextFrame::Cursor::Next() {
 #line 28 "ragel/./text-grammar.rl"
             {
                 Range range{buffer, floatb, p};
-                if (range.size() > 24) {
+                if (range.size() > 24 || float_too_big(Slice{floatb, p})) {
                     cs = RON_error;
                     goto _out;
                 }
@@ -2443,7 +2443,7 @@ Status TextFrame::Cursor::Next() {
 #line 28 "ragel/./text-grammar.rl"
             {
                 Range range{buffer, floatb, p};
-                if (range.size() > 24) {
+                if (range.size() > 24 || float_too_big(Slice{floatb, p})) {
                     cs = RON_error;
                     goto _out;
                 }
@@ -2549,7 +2549,7 @@ Status TextFrame::Cursor::Next() {
 #line 28 "ragel/./text-grammar.rl"
             {
                 Range range{buffer, floatb, p};
-                if (range.size() > 24) {
+                if (range.size() > 24 || float_too_big(Slice{floatb, p})) {
                     cs = RON_error;
                     goto _out;
                 }
@@ -2575,7 +2575,7 @@ Status TextFrame::Cursor::Next() {
 #line 28 "ragel/./text-grammar.rl"
             {
                 Range range{buffer, floatb, p};
-                if (range.size() > 24) {
+                if (range.size() > 24 || float_too_big(Slice{floatb, p})) {
                     cs = RON_error;
                     goto _out;
                 }
@@ -2846,7 +2846,7 @@ Status TextFrame::Cursor::Next() {
 #line 28 "ragel/./text-grammar.rl"
             {
                 Range range{buffer, floatb, p};
-                if (range.size() > 24) {
+                if (range.size() > 24 || float_too_big(Slice{floatb, p})) {
                     cs = RON_error;
                     goto _out;
                 }
@@ -2952,7 +2952,7 @@ Status TextFrame::Cursor::Next() {
 #line 28 "ragel/./text-grammar.rl"
             {
                 Range range{buffer, floatb, p};
-                if (range.size() > 24) {
+                if (range.size() > 24 || float_too_big(Slice{floatb, p})) {
                     cs = RON_error;
                     goto _out;
                 }
@@ -2978,7 +2978,7 @@ Status TextFrame::Cursor::Next() {
 #line 28 "ragel/./text-grammar.rl"
             {
                 Range range{buffer, floatb, p};
-                if (range.size() > 24) {
+                if (range.size() > 24 || float_too_big(Slice{floatb, p})) {
                     cs = RON_error;
                     goto _out;
                 }
diff --git a/ron/text.cc b/ron/text.cc
index b6e2f70..c9b4f7e 100644
--- a/ron/text.cc
+++ b/ron/text.cc
@@ -1,4 +1,5 @@
 #include "text.hpp"
+#include <cmath>
 
 using namespace std;
 
@@ -85,6 +86,10 @@ bool TextFrame::Cursor::int_too_big(const Slice& data) {
     return res > 0;
 }
 
+bool TextFrame::Cursor::float_too_big(const Slice& data) {
+    return std::isinf(strtod(std::string{data.begin(), data.end()}.c_str(), nullptr));
+}
+
 Codepoint TextFrame::decode_hex_cp(Slice data) {
     Codepoint ret = 0;
     while (!data.empty()) {
diff --git a/ron/text.hpp b/ron/text.hpp
index 9b80223..ce37366 100644
--- a/ron/text.hpp
+++ b/ron/text.hpp
@@ -62,6 +62,7 @@ class TextFrame {
             }
         }
         static bool int_too_big(const Slice& data);
+        static bool float_too_big(const Slice& data);
         static inline bool word_too_big(const Slice data) {
             return data.size() > Word::MAX_BASE64_SIZE;
         }
-- 
2.43.0


From 0134fe9aa2b9e5b2a10a31fc52f0fa2e46820bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:45 +0000
Subject: [PATCH 38/55] fix: read the escaped code point at the end of a string

---
 ragel/cp-parser.rl | 3 +++
 ron/cp-parser.cc   | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/ragel/cp-parser.rl b/ragel/cp-parser.rl
index 4e96057..ac26393 100644
--- a/ragel/cp-parser.rl
+++ b/ragel/cp-parser.rl
@@ -30,6 +30,9 @@ Result TextFrame::Cursor::NextCodepoint (Atom& a) const {
         main := CP1*;
         write exec;
     }%%
+    if (p == pe && pe - pb == 6 && pb[0] == '\\' && pb[1] == 'u') {
+        cp = decode_hex_cp(Slice{pb + 2, 4});  // the last one
+    }
     if (cs!=CP_error) {
         a.value.cp = cp;
         --a.value.cp_size;
diff --git a/ron/cp-parser.cc b/ron/cp-parser.cc
index 65fa874..5dc07f2 100644
--- a/ron/cp-parser.cc
+++ b/ron/cp-parser.cc
@@ -510,6 +510,9 @@ Result TextFrame::Cursor::NextCodepoint(Atom& a) const {
 
 #line 32 "ragel/cp-parser.rl"
 
+    if (p == pe && pe - pb == 6 && pb[0] == '\\' && pb[1] == 'u') {
+        cp = decode_hex_cp(Slice{pb + 2, 4});  // the last one
+    }
     if (cs != CP_error) {
         a.value.cp = cp;
         --a.value.cp_size;
-- 
2.43.0


From 88a430bc5ee41cdbefb4588863cfd9a6bff22ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:14 +0000
Subject: [PATCH 39/55] fix: an escaped NUL char is as bad as a plain one

---
 ragel/text-grammar.rl |  5 ++++-
 ron/cp-parser.cc      | 24 ++++++++++++++++++++++
 ron/text-parser.cc    | 48 +++++++++++++++++++++++++++++++++++++++++++
 3 files changed, 76 insertions(+), 1 deletion(-)

diff --git a/ragel/text-grammar.rl b/ragel/text-grammar.rl
index e863aca..e3c1dfd 100644
--- a/ragel/text-grammar.rl
+++ b/ragel/text-grammar.rl
@@ -59,7 +59,10 @@
         }
     }
     action string_esc { cp = decode_esc(fc); }
-    action string_uesc { cp = decode_hex_cp(Slice{p-4,4}); }
+    action string_uesc {
+        cp = decode_hex_cp(Slice{p-4,4});
+        if (!cp) { cs = 0; goto _out; } // no NULs, like in CHAR
+    }
 
     action span_size_digit {
         if (span_size_ > MAX_SPAN_SIZE / 10) { cs = RON_error; goto _out; }
diff --git a/ron/cp-parser.cc b/ron/cp-parser.cc
index 5dc07f2..ef64462 100644
--- a/ron/cp-parser.cc
+++ b/ron/cp-parser.cc
@@ -109,6 +109,10 @@ Result TextFrame::Cursor::NextCodepoint(Atom& a) const {
 #line 59 "ragel/./text-grammar.rl"
             {
                 cp = decode_hex_cp(Slice{p - 4, 4});
+                if (!cp) {
+                    cs = CP_error;
+                    goto _out;
+                }
             }
 #line 43 "ragel/./text-grammar.rl"
                 { cp_size++; }
@@ -172,6 +176,10 @@ Result TextFrame::Cursor::NextCodepoint(Atom& a) const {
 #line 59 "ragel/./text-grammar.rl"
             {
                 cp = decode_hex_cp(Slice{p - 4, 4});
+                if (!cp) {
+                    cs = CP_error;
+                    goto _out;
+                }
             }
 #line 43 "ragel/./text-grammar.rl"
                 { cp_size++; }
@@ -311,6 +319,10 @@ Result TextFrame::Cursor::NextCodepoint(Atom& a) const {
 #line 59 "ragel/./text-grammar.rl"
             {
                 cp = decode_hex_cp(Slice{p - 4, 4});
+                if (!cp) {
+                    cs = CP_error;
+                    goto _out;
+                }
             }
 #line 43 "ragel/./text-grammar.rl"
                 { cp_size++; }
@@ -365,6 +377,10 @@ Result TextFrame::Cursor::NextCodepoint(Atom& a) const {
 #line 59 "ragel/./text-grammar.rl"
             {
                 cp = decode_hex_cp(Slice{p - 4, 4});
+                if (!cp) {
+                    cs = CP_error;
+                    goto _out;
+                }
             }
 #line 43 "ragel/./text-grammar.rl"
                 { cp_size++; }
@@ -413,6 +429,10 @@ Result TextFrame::Cursor::NextCodepoint(Atom& a) const {
 #line 59 "ragel/./text-grammar.rl"
             {
                 cp = decode_hex_cp(Slice{p - 4, 4});
+                if (!cp) {
+                    cs = CP_error;
+                    goto _out;
+                }
             }
 #line 43 "ragel/./text-grammar.rl"
                 { cp_size++; }
@@ -488,6 +508,10 @@ Result TextFrame::Cursor::NextCodepoint(Atom& a) const {
 #line 59 "ragel/./text-grammar.rl"
                 {
                     cp = decode_hex_cp(Slice{p - 4, 4});
+                    if (!cp) {
+                        cs = CP_error;
+                        goto _out;
+                    }
                 }
 #line 43 "ragel/./text-grammar.rl"
                     { cp_size++; }
diff --git a/ron/text-parser.cc b/ron/text-parser.cc
index a91b05a..68c507a 100644
--- a/ron/text-parser.cc
+++ b/ron/text-parser.cc
@@ -799,6 +799,10 @@ Status TextFrame::Cursor::Next() {
 #line 59 "ragel/./text-grammar.rl"
             {
                 cp = decode_hex_cp(Slice{p - 4, 4});
+                if (!cp) {
+                    cs = RON_error;
+                    goto _out;
+                }
             }
 #line 43 "ragel/./text-grammar.rl"
                 { cp_size++; }
@@ -867,6 +871,10 @@ Status TextFrame::Cursor::Next() {
 #line 59 "ragel/./text-grammar.rl"
             {
                 cp = decode_hex_cp(Slice{p - 4, 4});
+                if (!cp) {
+                    cs = RON_error;
+                    goto _out;
+                }
             }
 #line 43 "ragel/./text-grammar.rl"
                 { cp_size++; }
@@ -1556,6 +1564,10 @@ Status TextFrame::Cursor::Next() {
 #line 59 "ragel/./text-grammar.rl"
             {
                 cp = decode_hex_cp(Slice{p - 4, 4});
+                if (!cp) {
+                    cs = RON_error;
+                    goto _out;
+                }
             }
 #line 43 "ragel/./text-grammar.rl"
                 { cp_size++; }
@@ -1624,6 +1636,10 @@ Status TextFrame::Cursor::Next() {
 #line 59 "ragel/./text-grammar.rl"
             {
                 cp = decode_hex_cp(Slice{p - 4, 4});
+                if (!cp) {
+                    cs = RON_error;
+                    goto _out;
+                }
             }
 #line 43 "ragel/./text-grammar.rl"
                 { cp_size++; }
@@ -1776,6 +1792,10 @@ Status TextFrame::Cursor::Next() {
 #line 59 "ragel/./text-grammar.rl"
             {
                 cp = decode_hex_cp(Slice{p - 4, 4});
+                if (!cp) {
+                    cs = RON_error;
+                    goto _out;
+                }
             }
 #line 43 "ragel/./text-grammar.rl"
                 { cp_size++; }
@@ -1894,6 +1914,10 @@ Status TextFrame::Cursor::Next() {
 #line 59 "ragel/./text-grammar.rl"
             {
                 cp = decode_hex_cp(Slice{p - 4, 4});
+                if (!cp) {
+                    cs = RON_error;
+                    goto _out;
+                }
             }
 #line 43 "ragel/./text-grammar.rl"
                 { cp_size++; }
@@ -1933,6 +1957,10 @@ Status TextFrame::Cursor::Next() {
 #line 59 "ragel/./text-grammar.rl"
             {
                 cp = decode_hex_cp(Slice{p - 4, 4});
+                if (!cp) {
+                    cs = RON_error;
+                    goto _out;
+                }
             }
 #line 43 "ragel/./text-grammar.rl"
                 { cp_size++; }
@@ -1972,6 +2000,10 @@ Status TextFrame::Cursor::Next() {
 #line 59 "ragel/./text-grammar.rl"
             {
                 cp = decode_hex_cp(Slice{p - 4, 4});
+                if (!cp) {
+                    cs = RON_error;
+                    goto _out;
+                }
             }
 #line 43 "ragel/./text-grammar.rl"
                 { cp_size++; }
@@ -3776,6 +3808,10 @@ Status TextFrame::Cursor::Next() {
 #line 59 "ragel/./text-grammar.rl"
             {
                 cp = decode_hex_cp(Slice{p - 4, 4});
+                if (!cp) {
+                    cs = RON_error;
+                    goto _out;
+                }
             }
 #line 43 "ragel/./text-grammar.rl"
                 { cp_size++; }
@@ -3894,6 +3930,10 @@ Status TextFrame::Cursor::Next() {
 #line 59 "ragel/./text-grammar.rl"
             {
                 cp = decode_hex_cp(Slice{p - 4, 4});
+                if (!cp) {
+                    cs = RON_error;
+                    goto _out;
+                }
             }
 #line 43 "ragel/./text-grammar.rl"
                 { cp_size++; }
@@ -3933,6 +3973,10 @@ Status TextFrame::Cursor::Next() {
 #line 59 "ragel/./text-grammar.rl"
             {
                 cp = decode_hex_cp(Slice{p - 4, 4});
+                if (!cp) {
+                    cs = RON_error;
+                    goto _out;
+                }
             }
 #line 43 "ragel/./text-grammar.rl"
                 { cp_size++; }
@@ -3972,6 +4016,10 @@ Status TextFrame::Cursor::Next() {
 #line 59 "ragel/./text-grammar.rl"
             {
                 cp = decode_hex_cp(Slice{p - 4, 4});
+                if (!cp) {
+                    cs = RON_error;
+                    goto _out;
+                }
             }
 #line 43 "ragel/./text-grammar.rl"
                 { cp_size++; }
-- 
2.43.0


From ecf650c33b131d62997579a98d69e1ef75acc483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:36 +0000
Subject: [PATCH 40/55] fix: no NULs in strings, no matter how encoded

---
 ragel/text-grammar.rl |   2 +-
 ron/cp-parser.cc      |  96 ++++++++++++++-------
 ron/text-parser.cc    | 192 +++++++++++++++++++++++++++++-------------
 3 files changed, 199 insertions(+), 91 deletions(-)

diff --git a/ragel/text-grammar.rl b/ragel/text-grammar.rl
index e3c1dfd..3f314e4 100644
--- a/ragel/text-grammar.rl
+++ b/ragel/text-grammar.rl
@@ -44,6 +44,7 @@
         }
     }
     action end_cp {
+        if (!cp) { cs = 0; goto _out; } // no NULs, no matter how encoded
         cp_size++;
     }
     action begin_span {}
@@ -61,7 +62,6 @@
     action string_esc { cp = decode_esc(fc); }
     action string_uesc {
         cp = decode_hex_cp(Slice{p-4,4});
-        if (!cp) { cs = 0; goto _out; } // no NULs, like in CHAR
     }
 
     action span_size_digit {
diff --git a/ron/cp-parser.cc b/ron/cp-parser.cc
index ef64462..6230a1b 100644
--- a/ron/cp-parser.cc
+++ b/ron/cp-parser.cc
@@ -91,6 +91,10 @@ Result TextFrame::Cursor::NextCodepoint(Atom& a) const {
             tr15 :
 #line 43 "ragel/./text-grammar.rl"
             {
+                if (!cp) {
+                    cs = 0;
+                    goto _out;
+                }
                 cp_size++;
             }
 #line 28 "ragel/cp-parser.rl"
@@ -109,13 +113,15 @@ Result TextFrame::Cursor::NextCodepoint(Atom& a) const {
 #line 59 "ragel/./text-grammar.rl"
             {
                 cp = decode_hex_cp(Slice{p - 4, 4});
-                if (!cp) {
-                    cs = CP_error;
-                    goto _out;
-                }
             }
 #line 43 "ragel/./text-grammar.rl"
-                { cp_size++; }
+                {
+                    if (!cp) {
+                        cs = 0;
+                        goto _out;
+                    }
+                    cp_size++;
+                }
 #line 28 "ragel/cp-parser.rl"
                 {
                     --p;
@@ -160,6 +166,10 @@ Result TextFrame::Cursor::NextCodepoint(Atom& a) const {
             tr16 :
 #line 43 "ragel/./text-grammar.rl"
             {
+                if (!cp) {
+                    cs = 0;
+                    goto _out;
+                }
                 cp_size++;
             }
 #line 28 "ragel/cp-parser.rl"
@@ -176,13 +186,15 @@ Result TextFrame::Cursor::NextCodepoint(Atom& a) const {
 #line 59 "ragel/./text-grammar.rl"
             {
                 cp = decode_hex_cp(Slice{p - 4, 4});
-                if (!cp) {
-                    cs = CP_error;
-                    goto _out;
-                }
             }
 #line 43 "ragel/./text-grammar.rl"
-                { cp_size++; }
+                {
+                    if (!cp) {
+                        cs = 0;
+                        goto _out;
+                    }
+                    cp_size++;
+                }
 #line 28 "ragel/cp-parser.rl"
                 {
                     --p;
@@ -301,6 +313,10 @@ Result TextFrame::Cursor::NextCodepoint(Atom& a) const {
             tr17 :
 #line 43 "ragel/./text-grammar.rl"
             {
+                if (!cp) {
+                    cs = 0;
+                    goto _out;
+                }
                 cp_size++;
             }
 #line 28 "ragel/cp-parser.rl"
@@ -319,13 +335,15 @@ Result TextFrame::Cursor::NextCodepoint(Atom& a) const {
 #line 59 "ragel/./text-grammar.rl"
             {
                 cp = decode_hex_cp(Slice{p - 4, 4});
-                if (!cp) {
-                    cs = CP_error;
-                    goto _out;
-                }
             }
 #line 43 "ragel/./text-grammar.rl"
-                { cp_size++; }
+                {
+                    if (!cp) {
+                        cs = 0;
+                        goto _out;
+                    }
+                    cp_size++;
+                }
 #line 28 "ragel/cp-parser.rl"
                 {
                     --p;
@@ -359,6 +377,10 @@ Result TextFrame::Cursor::NextCodepoint(Atom& a) const {
             tr18 :
 #line 43 "ragel/./text-grammar.rl"
             {
+                if (!cp) {
+                    cs = 0;
+                    goto _out;
+                }
                 cp_size++;
             }
 #line 28 "ragel/cp-parser.rl"
@@ -377,13 +399,15 @@ Result TextFrame::Cursor::NextCodepoint(Atom& a) const {
 #line 59 "ragel/./text-grammar.rl"
             {
                 cp = decode_hex_cp(Slice{p - 4, 4});
-                if (!cp) {
-                    cs = CP_error;
-                    goto _out;
-                }
             }
 #line 43 "ragel/./text-grammar.rl"
-                { cp_size++; }
+                {
+                    if (!cp) {
+                        cs = 0;
+                        goto _out;
+                    }
+                    cp_size++;
+                }
 #line 28 "ragel/cp-parser.rl"
                 {
                     --p;
@@ -411,6 +435,10 @@ Result TextFrame::Cursor::NextCodepoint(Atom& a) const {
             tr19 :
 #line 43 "ragel/./text-grammar.rl"
             {
+                if (!cp) {
+                    cs = 0;
+                    goto _out;
+                }
                 cp_size++;
             }
 #line 28 "ragel/cp-parser.rl"
@@ -429,13 +457,15 @@ Result TextFrame::Cursor::NextCodepoint(Atom& a) const {
 #line 59 "ragel/./text-grammar.rl"
             {
                 cp = decode_hex_cp(Slice{p - 4, 4});
-                if (!cp) {
-                    cs = CP_error;
-                    goto _out;
-                }
             }
 #line 43 "ragel/./text-grammar.rl"
-                { cp_size++; }
+                {
+                    if (!cp) {
+                        cs = 0;
+                        goto _out;
+                    }
+                    cp_size++;
+                }
 #line 28 "ragel/cp-parser.rl"
                 {
                     --p;
@@ -492,6 +522,10 @@ Result TextFrame::Cursor::NextCodepoint(Atom& a) const {
                 case 10:
 #line 43 "ragel/./text-grammar.rl"
                 {
+                    if (!cp) {
+                        cs = 0;
+                        goto _out;
+                    }
                     cp_size++;
                 }
 #line 28 "ragel/cp-parser.rl"
@@ -508,13 +542,15 @@ Result TextFrame::Cursor::NextCodepoint(Atom& a) const {
 #line 59 "ragel/./text-grammar.rl"
                 {
                     cp = decode_hex_cp(Slice{p - 4, 4});
-                    if (!cp) {
-                        cs = CP_error;
-                        goto _out;
-                    }
                 }
 #line 43 "ragel/./text-grammar.rl"
-                    { cp_size++; }
+                    {
+                        if (!cp) {
+                            cs = 0;
+                            goto _out;
+                        }
+                        cp_size++;
+                    }
 #line 28 "ragel/cp-parser.rl"
                     {
                         --p;
diff --git a/ron/text-parser.cc b/ron/text-parser.cc
index 68c507a..8185303 100644
--- a/ron/text-parser.cc
+++ b/ron/text-parser.cc
@@ -784,6 +784,10 @@ Status TextFrame::Cursor::Next() {
             tr7 :
 #line 43 "ragel/./text-grammar.rl"
             {
+                if (!cp) {
+                    cs = 0;
+                    goto _out;
+                }
                 cp_size++;
             }
 #line 8 "ragel/././utf8-grammar.rl"
@@ -799,13 +803,15 @@ Status TextFrame::Cursor::Next() {
 #line 59 "ragel/./text-grammar.rl"
             {
                 cp = decode_hex_cp(Slice{p - 4, 4});
-                if (!cp) {
-                    cs = RON_error;
-                    goto _out;
-                }
             }
 #line 43 "ragel/./text-grammar.rl"
-                { cp_size++; }
+                {
+                    if (!cp) {
+                        cs = 0;
+                        goto _out;
+                    }
+                    cp_size++;
+                }
 #line 8 "ragel/././utf8-grammar.rl"
                 { cp = (*p); }
                 goto st2;
@@ -859,6 +865,10 @@ Status TextFrame::Cursor::Next() {
             tr8 :
 #line 43 "ragel/./text-grammar.rl"
             {
+                if (!cp) {
+                    cs = 0;
+                    goto _out;
+                }
                 cp_size++;
             }
 #line 23 "ragel/./text-grammar.rl"
@@ -871,13 +881,15 @@ Status TextFrame::Cursor::Next() {
 #line 59 "ragel/./text-grammar.rl"
             {
                 cp = decode_hex_cp(Slice{p - 4, 4});
-                if (!cp) {
-                    cs = RON_error;
-                    goto _out;
-                }
             }
 #line 43 "ragel/./text-grammar.rl"
-                { cp_size++; }
+                {
+                    if (!cp) {
+                        cs = 0;
+                        goto _out;
+                    }
+                    cp_size++;
+                }
 #line 23 "ragel/./text-grammar.rl"
                 {
                     op_.emplace_back(STRING, Range{buffer, strb, p});
@@ -1549,6 +1561,10 @@ Status TextFrame::Cursor::Next() {
             tr33 :
 #line 43 "ragel/./text-grammar.rl"
             {
+                if (!cp) {
+                    cs = 0;
+                    goto _out;
+                }
                 cp_size++;
             }
 #line 8 "ragel/././utf8-grammar.rl"
@@ -1564,13 +1580,15 @@ Status TextFrame::Cursor::Next() {
 #line 59 "ragel/./text-grammar.rl"
             {
                 cp = decode_hex_cp(Slice{p - 4, 4});
-                if (!cp) {
-                    cs = RON_error;
-                    goto _out;
-                }
             }
 #line 43 "ragel/./text-grammar.rl"
-                { cp_size++; }
+                {
+                    if (!cp) {
+                        cs = 0;
+                        goto _out;
+                    }
+                    cp_size++;
+                }
 #line 8 "ragel/././utf8-grammar.rl"
                 { cp = (*p); }
                 goto st7;
@@ -1624,6 +1642,10 @@ Status TextFrame::Cursor::Next() {
             tr34 :
 #line 43 "ragel/./text-grammar.rl"
             {
+                if (!cp) {
+                    cs = 0;
+                    goto _out;
+                }
                 cp_size++;
             }
 #line 23 "ragel/./text-grammar.rl"
@@ -1636,13 +1658,15 @@ Status TextFrame::Cursor::Next() {
 #line 59 "ragel/./text-grammar.rl"
             {
                 cp = decode_hex_cp(Slice{p - 4, 4});
-                if (!cp) {
-                    cs = RON_error;
-                    goto _out;
-                }
             }
 #line 43 "ragel/./text-grammar.rl"
-                { cp_size++; }
+                {
+                    if (!cp) {
+                        cs = 0;
+                        goto _out;
+                    }
+                    cp_size++;
+                }
 #line 23 "ragel/./text-grammar.rl"
                 {
                     op_.emplace_back(STRING, Range{buffer, strb, p});
@@ -1785,6 +1809,10 @@ Status TextFrame::Cursor::Next() {
             tr35 :
 #line 43 "ragel/./text-grammar.rl"
             {
+                if (!cp) {
+                    cs = 0;
+                    goto _out;
+                }
                 cp_size++;
             }
                 goto st11;
@@ -1792,13 +1820,15 @@ Status TextFrame::Cursor::Next() {
 #line 59 "ragel/./text-grammar.rl"
             {
                 cp = decode_hex_cp(Slice{p - 4, 4});
-                if (!cp) {
-                    cs = RON_error;
-                    goto _out;
-                }
             }
 #line 43 "ragel/./text-grammar.rl"
-                { cp_size++; }
+                {
+                    if (!cp) {
+                        cs = 0;
+                        goto _out;
+                    }
+                    cp_size++;
+                }
                 goto st11;
             st11:
                 if (++p == pe) goto _test_eof11;
@@ -1905,6 +1935,10 @@ Status TextFrame::Cursor::Next() {
             tr36 :
 #line 43 "ragel/./text-grammar.rl"
             {
+                if (!cp) {
+                    cs = 0;
+                    goto _out;
+                }
                 cp_size++;
             }
 #line 9 "ragel/././utf8-grammar.rl"
@@ -1914,13 +1948,15 @@ Status TextFrame::Cursor::Next() {
 #line 59 "ragel/./text-grammar.rl"
             {
                 cp = decode_hex_cp(Slice{p - 4, 4});
-                if (!cp) {
-                    cs = RON_error;
-                    goto _out;
-                }
             }
 #line 43 "ragel/./text-grammar.rl"
-                { cp_size++; }
+                {
+                    if (!cp) {
+                        cs = 0;
+                        goto _out;
+                    }
+                    cp_size++;
+                }
 #line 9 "ragel/././utf8-grammar.rl"
                 { cp = (*p) & 0x1f; }
                 goto st17;
@@ -1948,6 +1984,10 @@ Status TextFrame::Cursor::Next() {
             tr37 :
 #line 43 "ragel/./text-grammar.rl"
             {
+                if (!cp) {
+                    cs = 0;
+                    goto _out;
+                }
                 cp_size++;
             }
 #line 10 "ragel/././utf8-grammar.rl"
@@ -1957,13 +1997,15 @@ Status TextFrame::Cursor::Next() {
 #line 59 "ragel/./text-grammar.rl"
             {
                 cp = decode_hex_cp(Slice{p - 4, 4});
-                if (!cp) {
-                    cs = RON_error;
-                    goto _out;
-                }
             }
 #line 43 "ragel/./text-grammar.rl"
-                { cp_size++; }
+                {
+                    if (!cp) {
+                        cs = 0;
+                        goto _out;
+                    }
+                    cp_size++;
+                }
 #line 10 "ragel/././utf8-grammar.rl"
                 { cp = (*p) & 0xf; }
                 goto st18;
@@ -1991,6 +2033,10 @@ Status TextFrame::Cursor::Next() {
             tr38 :
 #line 43 "ragel/./text-grammar.rl"
             {
+                if (!cp) {
+                    cs = 0;
+                    goto _out;
+                }
                 cp_size++;
             }
 #line 11 "ragel/././utf8-grammar.rl"
@@ -2000,13 +2046,15 @@ Status TextFrame::Cursor::Next() {
 #line 59 "ragel/./text-grammar.rl"
             {
                 cp = decode_hex_cp(Slice{p - 4, 4});
-                if (!cp) {
-                    cs = RON_error;
-                    goto _out;
-                }
             }
 #line 43 "ragel/./text-grammar.rl"
-                { cp_size++; }
+                {
+                    if (!cp) {
+                        cs = 0;
+                        goto _out;
+                    }
+                    cp_size++;
+                }
 #line 11 "ragel/././utf8-grammar.rl"
                 { cp = (*p) & 7; }
                 goto st19;
@@ -3801,6 +3849,10 @@ Status TextFrame::Cursor::Next() {
             tr9 :
 #line 43 "ragel/./text-grammar.rl"
             {
+                if (!cp) {
+                    cs = 0;
+                    goto _out;
+                }
                 cp_size++;
             }
                 goto st51;
@@ -3808,13 +3860,15 @@ Status TextFrame::Cursor::Next() {
 #line 59 "ragel/./text-grammar.rl"
             {
                 cp = decode_hex_cp(Slice{p - 4, 4});
-                if (!cp) {
-                    cs = RON_error;
-                    goto _out;
-                }
             }
 #line 43 "ragel/./text-grammar.rl"
-                { cp_size++; }
+                {
+                    if (!cp) {
+                        cs = 0;
+                        goto _out;
+                    }
+                    cp_size++;
+                }
                 goto st51;
             st51:
                 if (++p == pe) goto _test_eof51;
@@ -3921,6 +3975,10 @@ Status TextFrame::Cursor::Next() {
             tr10 :
 #line 43 "ragel/./text-grammar.rl"
             {
+                if (!cp) {
+                    cs = 0;
+                    goto _out;
+                }
                 cp_size++;
             }
 #line 9 "ragel/././utf8-grammar.rl"
@@ -3930,13 +3988,15 @@ Status TextFrame::Cursor::Next() {
 #line 59 "ragel/./text-grammar.rl"
             {
                 cp = decode_hex_cp(Slice{p - 4, 4});
-                if (!cp) {
-                    cs = RON_error;
-                    goto _out;
-                }
             }
 #line 43 "ragel/./text-grammar.rl"
-                { cp_size++; }
+                {
+                    if (!cp) {
+                        cs = 0;
+                        goto _out;
+                    }
+                    cp_size++;
+                }
 #line 9 "ragel/././utf8-grammar.rl"
                 { cp = (*p) & 0x1f; }
                 goto st57;
@@ -3964,6 +4024,10 @@ Status TextFrame::Cursor::Next() {
             tr11 :
 #line 43 "ragel/./text-grammar.rl"
             {
+                if (!cp) {
+                    cs = 0;
+                    goto _out;
+                }
                 cp_size++;
             }
 #line 10 "ragel/././utf8-grammar.rl"
@@ -3973,13 +4037,15 @@ Status TextFrame::Cursor::Next() {
 #line 59 "ragel/./text-grammar.rl"
             {
                 cp = decode_hex_cp(Slice{p - 4, 4});
-                if (!cp) {
-                    cs = RON_error;
-                    goto _out;
-                }
             }
 #line 43 "ragel/./text-grammar.rl"
-                { cp_size++; }
+                {
+                    if (!cp) {
+                        cs = 0;
+                        goto _out;
+                    }
+                    cp_size++;
+                }
 #line 10 "ragel/././utf8-grammar.rl"
                 { cp = (*p) & 0xf; }
                 goto st58;
@@ -4007,6 +4073,10 @@ Status TextFrame::Cursor::Next() {
             tr12 :
 #line 43 "ragel/./text-grammar.rl"
             {
+                if (!cp) {
+                    cs = 0;
+                    goto _out;
+                }
                 cp_size++;
             }
 #line 11 "ragel/././utf8-grammar.rl"
@@ -4016,13 +4086,15 @@ Status TextFrame::Cursor::Next() {
 #line 59 "ragel/./text-grammar.rl"
             {
                 cp = decode_hex_cp(Slice{p - 4, 4});
-                if (!cp) {
-                    cs = RON_error;
-                    goto _out;
-                }
             }
 #line 43 "ragel/./text-grammar.rl"
-                { cp_size++; }
+                {
+                    if (!cp) {
+                        cs = 0;
+                        goto _out;
+                    }
+                    cp_size++;
+                }
 #line 11 "ragel/././utf8-grammar.rl"
                 { cp = (*p) & 7; }
                 goto st59;
-- 
2.43.0


From aa53236af60dbebeaf659f1170d4094ccb2ec884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:46 +0000
Subject: [PATCH 41/55] fix: no silent hops to the metadata store

---
 db/main.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/db/main.cc b/db/main.cc
index b50ce2a..d4f8733 100644
--- a/db/main.cc
+++ b/db/main.cc
@@ -655,6 +655,7 @@ constexpr const char* HOP_USAGE{
 Status CommandHop(RonReplica& replica, Args& args) {
     Uuid branch;
     IFOK(ScanOnBranchArg(branch, replica, args));
+    CHECKARG(!args.empty(), HOP_USAGE);
     return replica.SetActiveStore(branch);
 }
 
-- 
2.43.0


From 51652f7c03901f015f4a618f1c6d3696a3e11e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:46 +0000
Subject: [PATCH 42/55] fix: an event id is not a branch id

---
 db/main.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/db/main.cc b/db/main.cc
index d4f8733..932f2ad 100644
--- a/db/main.cc
+++ b/db/main.cc
@@ -118,7 +118,7 @@ Status ScanOnBranchArg(Uuid& branch, RonReplica& replica, Args& args) {
     args.pop_back();
     CHECKARG(branch.is_error(), "bad branch id syntax; must be name/id");
     IFOK(ResolveName(branch, replica, CAMEL, true));
-    CHECKARG(branch != Uuid::NIL && !replica.HasBranch(branch.origin),
+    CHECKARG(!replica.HasStore(branch),
              "no such branch: " + branch.str());
     return Status::OK;
 }
-- 
2.43.0


From c7cc6ffb3ce58d552b982b7738a727666ede0939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:47 +0000
Subject: [PATCH 43/55] fix: `named on Branch` works as documented

---
 db/main.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/db/main.cc b/db/main.cc
index 932f2ad..7e66b0c 100644
--- a/db/main.cc
+++ b/db/main.cc
@@ -621,7 +621,7 @@ Status CommandNamed(RonReplica& replica, Args& args) {
         {"things", NUMERIC},
     };
     case_t what = NUMERIC;
-    if (!args.empty()) {
+    if (!args.empty() && args.back() != "on") {
         auto i = str2code.find(args.back());
         CHECKARG(i == str2code.end(), NAMED_USAGE);
         what = i->second;
-- 
2.43.0


From 76ea9f3df33febef83b435150dae8025e491e97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:47 +0000
Subject: [PATCH 44/55] fix: a branch tag must be a name indeed

---
 db/main.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/db/main.cc b/db/main.cc
index 7e66b0c..a2bc63b 100644
--- a/db/main.cc
+++ b/db/main.cc
@@ -169,7 +169,7 @@ Status CommandCreate(RonReplica& replica, Args& args) {
         CHECKARG(args.empty(), "need a name for the branch");
         tag = Uuid{args.back()};
         args.pop_back();
-        CHECKARG(tag.is_error(),
+        CHECKARG(tag.is_error() || tag.version() != NAME,
                  "the name must be a name UUID (up to ten Base64 chars)");
         CHECKARG(tag.value.base64_case() != CAMEL,
                  "branch names must be CamelCased");
@@ -203,7 +203,7 @@ Status CommandFork(RonReplica& replica, Args& args) {
         CHECKARG(args.empty(), "need a name for the branch");
         tag = Uuid{args.back()};
         args.pop_back();
-        CHECKARG(tag.is_error(),
+        CHECKARG(tag.is_error() || tag.version() != NAME,
                  "the name must be a name UUID (up to ten Base64 chars)");
         CHECKARG(tag.value.base64_case() != CAMEL,
                  "branch names must be CamelCased");
-- 
2.43.0


From 309866b5fcdf229d7b84647b0ea7177cdbaae08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:48 +0000
Subject: [PATCH 45/55] fix: a dump cut short by an error is not OK

---
 db/main.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/db/main.cc b/db/main.cc
index a2bc63b..c0d931b 100644
--- a/db/main.cc
+++ b/db/main.cc
@@ -328,11 +328,13 @@ Status CommandDump(RonReplica& replica, Args& args) {
 
     StoreIterator i{replica.GetStore(branch_id)};
     IFOK(i.SeekTo(Key{}));
+    Status ok;
     do {
         cout << i.key().str() << '\t' << i.value().data().str();
-    } while (i.Next());
+        ok = i.Next();
+    } while (ok);
     i.Close();
-    return Status::OK;
+    return ok == Status::ENDOFINPUT ? Status::OK : ok;
 }
 
 Status CommandQuery(RonReplica& replica, const string& name) {
-- 
2.43.0


From 373b7a86aa514c231784572f76b1ac73bb40bb07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:49 +0000
Subject: [PATCH 46/55] fix: branches created in the same second get different
 ids

---
 db/main.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/db/main.cc b/db/main.cc
index c0d931b..7c5d0c1 100644
--- a/db/main.cc
+++ b/db/main.cc
@@ -1,7 +1,7 @@
 #include <fcntl.h>
 #include <unistd.h>
 #include <cstdlib>
-#include <ctime>
+#include <random>
 #include <unordered_map>
 #include "../rdt/rdt.hpp"
 #include "../ron/ron.hpp"
@@ -747,7 +747,8 @@ Status RunCommands(Args& args) {
         return CommandInit(replica, args);
     }
 
-    std::srand(std::time(nullptr));
+    // not by the clock: new branch ids must not repeat
+    std::srand(std::random_device{}());
     IFOK(OpenReplica(replica));
 
     if (verb == "create") {
-- 
2.43.0


From 813cf972021554d2c84637e1bc02e449b7d5f50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:22 +0000
Subject: [PATCH 47/55] fix: an unreadable record of the active branch is an
 error

---
 db/replica.cc | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/db/replica.cc b/db/replica.cc
index e37415f..d9c9252 100644
--- a/db/replica.cc
+++ b/db/replica.cc
@@ -79,11 +79,10 @@ Status Replica<Store>::Open() {
     }
 
     Frame active;
-    if (GetMetaStore().Read(Key{ACTIVE_STORE_UUID, ZERO_RAW_FORM}, active)) {
-        Cursor c{active};
-        if (c.Next() && HasStore(c.ref())) {
-            active_ = c.ref();
-        }
+    IFOK(GetMetaStore().Read(Key{ACTIVE_STORE_UUID, ZERO_RAW_FORM}, active));
+    Cursor c{active};
+    if (c.Next() && HasStore(c.ref())) {
+        active_ = c.ref();
     }
 
     return Status::OK;
-- 
2.43.0


From ba173e871f9048abffadd94d5a01783d750944c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:32 +0000
Subject: [PATCH 48/55] fix: seeking in the overlay lands on a whole record or
 on the end

---
 db/mem_store.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/db/mem_store.hpp b/db/mem_store.hpp
index 9311c69..351ee7f 100644
--- a/db/mem_store.hpp
+++ b/db/mem_store.hpp
@@ -64,6 +64,12 @@ class InMemoryStore {
         fsize_t len_;
         friend class InMemoryStore;
 
+        /** to the record before b_; the first frame of it, if many */
+        void back() {
+            --b_;
+            b_ = e_ = store_.lower_bound(b_->first);
+        }
+
         void scroll() {
             len_ = 0;
             while (e_ != store_.end() && e_->first == b_->first) {
@@ -128,17 +134,17 @@ class InMemoryStore {
         Status SeekTo(ron::Key key, bool prev = false) {
             b_ = store_.lower_bound(key);
             e_ = b_;
+            len_ = 0;
+            merged_.Clear();
             if (b_ == store_.end()) {
                 if (prev && !store_.empty()) {
-                    --b_;
-                    e_ = b_;
+                    back();
                 } else {
                     return Status::OK;
                 }
             } else if (prev && b_->first != key) {
                 if (b_ != store_.begin()) {
-                    --b_;
-                    e_ = b_;
+                    back();
                 } else {
                     b_ = e_ = store_.end();
                     return Status::OK;
-- 
2.43.0


From bcec5b96b54fc4f244636c0df05fcbad1414e6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:33 +0000
Subject: [PATCH 49/55] fix: a joined scan does not end or turn back with one
 of its sides

---
 db/joined_store.hpp | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/db/joined_store.hpp b/db/joined_store.hpp
index 6bc95d6..d838b16 100644
--- a/db/joined_store.hpp
+++ b/db/joined_store.hpp
@@ -66,17 +66,30 @@ class JoinedStore {
             at_ = std::min(ai_.key(), bi_.key());
         }
 
+        /** Moves one side past the current key. Its end is not the end of the
+         * other one. */
+        template <class Iter>
+        inline Status pass(Iter& i) {
+            if (i.key() != at_ || at_ == Key::END) {
+                return Status::OK;
+            }
+            Status ok = i.Next();
+            return ok == Status::ENDOFINPUT ? Status::OK : ok;
+        }
+
+        /** Moves one side to the current key or past it */
+        template <class Iter>
+        inline Status meet(Iter& i) {
+            return i.key() == at_ ? Status::OK : i.SeekTo(at_);
+        }
+
        public:
         Iterator(JoinedStore& host)
             : ai_{host.a_}, bi_{host.b_}, at_{Key::END}, merged_{} {}
 
         Status Next() {
-            if (ai_.key() == at_) {
-                IFOK(ai_.Next());
-            }
-            if (bi_.key() == at_) {
-                IFOK(bi_.Next());
-            }
+            IFOK(pass(ai_));
+            IFOK(pass(bi_));
             pick();
             return Status::OK;
         }
@@ -95,6 +108,9 @@ class JoinedStore {
                 } else {
                     at_ = std::max(ai_.key(), bi_.key());
                 }
+                // no side lags behind, so the scan may go on from here
+                IFOK(meet(ai_));
+                IFOK(meet(bi_));
             } else {
                 at_ = std::min(ai_.key(), bi_.key());
             }
-- 
2.43.0


From 895a79b814880d1345454ada909aa9abf547dc4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:33 +0000
Subject: [PATCH 50/55] fix: unsaved pieces of a tree are merged together with
 the stored state

---
 db/joined_store.hpp | 14 +++++++-------
 db/mem_store.hpp    | 45 ++++++++++++++++++++++++++-------------------
 2 files changed, 33 insertions(+), 26 deletions(-)

diff --git a/db/joined_store.hpp b/db/joined_store.hpp
index d838b16..fda7a31 100644
--- a/db/joined_store.hpp
+++ b/db/joined_store.hpp
@@ -35,18 +35,18 @@ class JoinedStore {
     }
 
     Status Read(Key key, Frame& into) {
-        Frame a, b;
+        Frame a;
+        Cursors inputs, changes;
         IFOK(a_.Read(key, a));
-        IFOK(b_.Read(key, b));
+        b_.Inputs(key, changes);
         if (a.empty()) {
-            std::swap(b, into);
-        } else if (b.empty()) {
+            IFOK(b_.Read(key, into));
+        } else if (changes.empty()) {
             std::swap(a, into);
         } else {
             // the record's type is in the key; the ops might not mention it
-            Cursors inputs;
             AddInput(inputs, Cursor{a});
-            AddInput(inputs, Cursor{b});
+            inputs.insert(inputs.end(), changes.begin(), changes.end());
             IFOK(MergeCursors(into, key.form(), inputs));
         }
         LOG('R', key, into.data());
@@ -129,7 +129,7 @@ class JoinedStore {
             // have to merge then
             Cursors inputs;
             AddInput(inputs, ai_.value());
-            AddInput(inputs, bi_.value());
+            bi_.Inputs(inputs);
             Status ok = MergeCursors<Frame>(merged_, at_.form(), inputs);
             LOG('_', at_, merged_.data());
             return ok ? Cursor{merged_}
diff --git a/db/mem_store.hpp b/db/mem_store.hpp
index 351ee7f..5e61d62 100644
--- a/db/mem_store.hpp
+++ b/db/mem_store.hpp
@@ -27,18 +27,19 @@ class InMemoryStore {
 
     Map state_;
 
-    static Status Merge(Frame& merged, MapIter from, MapIter till) {
-        Key key = from->first;
-        Cursors inputs;
-        while (from != till) {
-            assert(from->first == key);
+    static void AddInputs(Cursors& inputs, MapIter from, MapIter till) {
+        for (; from != till; ++from) {
             inputs.emplace_back(from->second);
             if (!inputs.back().Next()) {
                 inputs.pop_back();
             }
-            ++from;
         }
-        return MergeCursors(merged, key.form(), inputs);
+    }
+
+    static Status Merge(Frame& merged, MapIter from, MapIter till) {
+        Cursors inputs;
+        AddInputs(inputs, from, till);
+        return MergeCursors(merged, from->first.form(), inputs);
     }
 
    public:
@@ -62,6 +63,7 @@ class InMemoryStore {
         MapIter b_, e_;
         Frame merged_;
         fsize_t len_;
+        bool ok_;
         friend class InMemoryStore;
 
         /** to the record before b_; the first frame of it, if many */
@@ -81,7 +83,7 @@ class InMemoryStore {
        public:
         /** Creates a new iterator positioned at 0 */
         explicit Iterator(InMemoryStore& host)
-            : store_{host.state_}, b_{}, e_{}, merged_{}, len_{0} {}
+            : store_{host.state_}, b_{}, e_{}, merged_{}, len_{0}, ok_{false} {}
 
         Cursor value() {
             if (len_ == 0) {
@@ -90,17 +92,14 @@ class InMemoryStore {
             if (len_ == 1) {
                 return Cursor{b_->second};
             }
-            Cursors ins;
-            for (auto i = b_; i != e_; ++i) {
-                ins.emplace_back(i->second);
-                if (!ins.back().Next()) {
-                    ins.pop_back();
-                }
-            }
-            Status ok = MergeCursors(merged_, key().form(), ins);
+            ok_ = Merge(merged_, b_, e_);
             return Cursor{merged_};
         }
 
+        /** The frames of the current record, not merged yet. By themselves,
+         * they might be unmergeable (e.g. pieces of a tree stored elsewhere) */
+        void Inputs(Cursors& inputs) { AddInputs(inputs, b_, e_); }
+
         inline ron::Key key() const { return len_ == 0 ? Key::END : b_->first; }
 
         /**
@@ -112,13 +111,14 @@ class InMemoryStore {
             if (len_ == 0) {
                 return Status::BAD_STATE.comment("invalid iterator");
             }
-            if (len_ > 1 && !merged_.empty()) {
+            if (len_ > 1 && ok_ && !merged_.empty()) {
                 auto k = key();
                 store_.erase(b_, e_);
                 e_ = store_.insert(Record{k, std::move(merged_)});
                 ++e_;
             }
             b_ = e_;
+            ok_ = false;
             merged_.Clear();
             scroll();
             // TODO merge'em here - kill merged_, len_, make val()/key() const
@@ -135,6 +135,7 @@ class InMemoryStore {
             b_ = store_.lower_bound(key);
             e_ = b_;
             len_ = 0;
+            ok_ = false;
             merged_.Clear();
             if (b_ == store_.end()) {
                 if (prev && !store_.empty()) {
@@ -181,11 +182,17 @@ class InMemoryStore {
             result = range.first->second;
             return Status::OK;
         }
-        Status ok = Merge(result, range.first, range.second);
+        IFOK(Merge(result, range.first, range.second));
         state_.erase(range.first, range.second);
         state_.insert(Record{key, result});
         LOG('e', key, result.data());
-        return ok;
+        return Status::OK;
+    }
+
+    /** The frames of a record, not merged yet, see Iterator::Inputs() */
+    void Inputs(Key key, Cursors& inputs) {
+        auto range = state_.equal_range(key);
+        AddInputs(inputs, range.first, range.second);
     }
 
     Status Write(const Records& batch) {
-- 
2.43.0


From 394909bd2513f9cc35a6e5e65318f5018a6c3e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:07 +0000
Subject: [PATCH 51/55] fix: a store that failed to be created may be created
 again

---
 db/rocks_store.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/db/rocks_store.cc b/db/rocks_store.cc
index e5ff1a5..31ce4e2 100644
--- a/db/rocks_store.cc
+++ b/db/rocks_store.cc
@@ -153,9 +153,12 @@ Status RocksDBStore<Frame>::Create(Uuid id) {
 
     tip = Uuid::NIL;
     Frame now = OneOp<Frame>(tip, ZERO_FORM_UUID);
-    IFOK(Write(Key::ZERO, now));
+    Status ok = Write(Key::ZERO, now);
+    if (!ok && id != Uuid::NIL) {  // a failed create may be retried
+        db->DropColumnFamily(cfh);
+    }
 
-    return Status::OK;
+    return ok;
 }
 
 template <typename Frame>
-- 
2.43.0


From a183dfb6f54a0388ca8fda8020be5ab9b575147a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:19 +0000
Subject: [PATCH 52/55] fix: creating a replica reports a failure to open it

---
 db/replica.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/db/replica.cc b/db/replica.cc
index d9c9252..9658de3 100644
--- a/db/replica.cc
+++ b/db/replica.cc
@@ -20,7 +20,7 @@ Status Replica<Store>::CreateReplica() {
     }
 
     Replica re;
-    re.Open();
+    IFOK(re.Open());
 
     Uuid now0 = Uuid::Time(Uuid::Now(), ZERO);
     Commit commit{re};
@@ -28,7 +28,7 @@ Status Replica<Store>::CreateReplica() {
     Cursor c{yarn_init};
     c.Next();
     Builder b;
-    commit.SaveChain(b, c);
+    IFOK(commit.SaveChain(b, c));
 
     return commit.Save();
 }
-- 
2.43.0


From 0dc003a859e0e322813fe16e7bd0e810a5580fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:59 +0000
Subject: [PATCH 53/55] fix: a slice makes a string of its own bytes only

---
 ron/slice.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ron/slice.hpp b/ron/slice.hpp
index 78aba93..307bf3c 100644
--- a/ron/slice.hpp
+++ b/ron/slice.hpp
@@ -207,8 +207,8 @@ class Slice {
     }
 
     inline String str() const {
-        return String{reinterpret_cast<const String::value_type*>(buf_),
-                      range_.begin(), range_.end()};
+        return String{reinterpret_cast<const String::value_type*>(begin()),
+                      size()};
     }
 
     inline Range range_of(Slice sub) const {
-- 
2.43.0


From 5851c21805e675d0b30df17c2e4e9e25a51bcfe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:04 +0000
Subject: [PATCH 54/55] fix: LWW garbage collection works for UUID keys, keeps
 the header

---
 rdt/lww.hpp | 40 +++++++++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/rdt/lww.hpp b/rdt/lww.hpp
index 45a206f..dc6ab77 100644
--- a/rdt/lww.hpp
+++ b/rdt/lww.hpp
@@ -24,29 +24,35 @@ class LastWriteWinsRDT {
         return Status::OK;
     }
 
-    // TODO this impl will not match escaped keys, e.g. '\006bey' for 'key'.
-    // Either way, the latest/winning value will go first.
-    // May use Frame::unescape() and/or Op unesc flag.
+    /** The key of a field: an UUID in most cases. */
+    static String Key(const Cursor &c) {
+        const Atom &key = c.atom(2);
+        switch (key.type()) {
+            case UUID:
+                return Uuid{key}.str();
+            case STRING:
+                return '\'' + GetString(c);
+            default:
+                return std::to_string(key.type()) + ' ' +
+                       std::to_string(key.value.as_u64);
+        }
+    }
+
+    // The latest/winning value goes last, hence it overwrites the rest.
     Status GC(Builder &output, const Frame &input) const {
-        std::unordered_map<Slice, Uuid> last;
+        std::unordered_map<String, Uuid> last;
         auto scan = input.cursor();
-        do {
-            if (scan.op().size() < 3) continue;
-            Slice key{input.data(), scan.atom(2).origin.as_range};
-            last[key] = scan.id();
-        } while (scan.Next());
+        while (scan.Next()) {
+            if (scan.op().size() > 2) last[Key(scan)] = scan.id();
+        }
 
         auto filter = input.cursor();
-        if (filter.op().size() == 2) {  // header
-            output.AppendOp(filter);
-        }
-        do {  // TODO maybe check op pattern here
-            if (filter.op().size() < 3) continue;
-            Slice key{input.data(), filter.atom(2).origin.as_range};
-            if (last[key] == filter.id()) {
+        while (filter.Next()) {  // TODO maybe check op pattern here
+            if (filter.op().size() <= 2 || last[Key(filter)] == filter.id()) {
                 output.AppendOp(filter);
             }
-        } while (filter.Next());
+        }
+        output.EndChunk();
 
         return Status::OK;
     }
-- 
2.43.0


From 79da34ed5fbfe085d2a4809e09d4bfbafdbc5557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:05 +0000
Subject: [PATCH 55/55] fix: 'on' reports a failure to read the names

---
 db/main.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/db/main.cc b/db/main.cc
index 7c5d0c1..7f6651c 100644
--- a/db/main.cc
+++ b/db/main.cc
@@ -669,7 +669,7 @@ Status CommandOn(RonReplica& replica, Args& args) {
     Uuid id = replica.active_store();
     Names seman, names;
     Commit commit{replica, Uuid::NIL};
-    commit.ReadNames(seman);
+    IFOK(commit.ReadNames(seman));
     reverse_map(names, seman);
     auto i = names.find(id);
     if (i != names.end()) {
-- 
2.43.0

