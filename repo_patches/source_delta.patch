From 4f7ed4994888d34bf2c2b9252c9dc8b2a88f2844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:26 +0000
Subject: [PATCH 01/34] fix: track regional indicator parity per run in
 grapheme_process_breakable

The counter was only initialised by grapheme_process_init(), so a flag after
another character (stepping through text, or behind a Prepend character)
was split.
---
 src/libunicode/grapheme_segmenter.cpp | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/src/libunicode/grapheme_segmenter.cpp b/src/libunicode/grapheme_segmenter.cpp
index c71e5fa..eecdb96 100644
--- a/src/libunicode/grapheme_segmenter.cpp
+++ b/src/libunicode/grapheme_segmenter.cpp
@@ -41,15 +41,11 @@ bool grapheme_process_breakable(char32_t nextCodepoint, grapheme_segmenter_state
     state.previousCodepoint = b;
     state.previousProperties = Pb;
 
-    {
-        // Set state.ri_counter to zero if the next codepoint is not of category Regional_Indicator.
-        //
-        // We move the state.ri_counter out to help GCC optimize
-        // this code to be branchless.
-        // Sadly only GCC succeeds in doing this and Clang fails.
-        auto const ri_counter = state.ri_counter;
-        state.ri_counter = (B == Grapheme_Cluster_Break::Regional_Indicator) ? ri_counter : 0;
-    }
+    // GB12/GB13 tracking: parity of the Regional_Indicator run that ends at the next codepoint
+    // (1 = odd, 0 = even, or not a Regional_Indicator at all).
+    auto const isRI = B == Grapheme_Cluster_Break::Regional_Indicator;
+    auto const continuesRI = A == Grapheme_Cluster_Break::Regional_Indicator;
+    state.ri_counter = isRI ? static_cast<uint8_t>(continuesRI ? state.ri_counter ^ 1 : 1) : 0;
 
     // GB3: Do not break between a CR and LF. Otherwise, break before and after controls.
     if (A == Grapheme_Cluster_Break::CR && B == Grapheme_Cluster_Break::LF)
@@ -143,11 +139,8 @@ bool grapheme_process_breakable(char32_t nextCodepoint, grapheme_segmenter_state
     // GB12/GB13: Do not break within emoji flag sequences.
     // That is, do not break between regional indicator (RI) symbols
     // if there is an odd number of RI characters before the break point.
-    if (A == Grapheme_Cluster_Break::Regional_Indicator && A == B && state.ri_counter == 1)
-    {
-        state.ri_counter = static_cast<uint8_t>((state.ri_counter + 1) % 2);
+    if (A == Grapheme_Cluster_Break::Regional_Indicator && A == B && state.ri_counter == 0)
         return false;
-    }
 
     // GB999: Otherwise, break everywhere.
     return true;
-- 
2.43.0


From 74fdf6b81f06f760b25ca79fa4152db3400fdc0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:26 +0000
Subject: [PATCH 02/34] fix: GB11 allows exactly one ZWJ before the joined
 pictograph

'pict ZWJ ZWJ pict' was kept in one cluster; UAX #29 GB11 is
ExtPict Extend* ZWJ x ExtPict.
---
 src/libunicode/grapheme_segmenter.cpp | 8 +++++---
 src/libunicode/grapheme_segmenter.h   | 3 ++-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/libunicode/grapheme_segmenter.cpp b/src/libunicode/grapheme_segmenter.cpp
index eecdb96..d19dd2b 100644
--- a/src/libunicode/grapheme_segmenter.cpp
+++ b/src/libunicode/grapheme_segmenter.cpp
@@ -83,8 +83,10 @@ bool grapheme_process_breakable(char32_t nextCodepoint, grapheme_segmenter_state
     {
         if (Pb.is_extended_pictographic())
             state.extpic_state = 1;
-        else if ((B == Grapheme_Cluster_Break::Extend || B == Grapheme_Cluster_Break::ZWJ) && prev_extpic_state == 1)
-            ; // keep state - Extend/ZWJ extend the ExtPic chain for GB11
+        else if (B == Grapheme_Cluster_Break::Extend && prev_extpic_state == 1)
+            ; // keep state - Extend* continues the ExtPic chain for GB11
+        else if (B == Grapheme_Cluster_Break::ZWJ && prev_extpic_state == 1)
+            state.extpic_state = 2;
         else
             state.extpic_state = 0;
     }
@@ -133,7 +135,7 @@ bool grapheme_process_breakable(char32_t nextCodepoint, grapheme_segmenter_state
 
     // GB11: Do not break within emoji modifier sequences or emoji zwj sequences.
     // Full rule: \p{Extended_Pictographic} Extend* ZWJ × \p{Extended_Pictographic}
-    if (A == Grapheme_Cluster_Break::ZWJ && Pb.is_extended_pictographic() && prev_extpic_state == 1)
+    if (A == Grapheme_Cluster_Break::ZWJ && Pb.is_extended_pictographic() && prev_extpic_state == 2)
         return false;
 
     // GB12/GB13: Do not break within emoji flag sequences.
diff --git a/src/libunicode/grapheme_segmenter.h b/src/libunicode/grapheme_segmenter.h
index faa0c2d..7e7eec3 100644
--- a/src/libunicode/grapheme_segmenter.h
+++ b/src/libunicode/grapheme_segmenter.h
@@ -41,7 +41,8 @@ struct grapheme_segmenter_state
 
     /// GB11 Extended Pictographic tracking state:
     /// 0 = no ExtPic context
-    /// 1 = saw ExtPic (or ExtPic followed by Extend*/ZWJ chain)
+    /// 1 = saw ExtPic Extend*
+    /// 2 = saw ExtPic Extend* ZWJ (ready for GB11)
     uint8_t extpic_state = 0;
 };
 
-- 
2.43.0


From 188975e32e7ac13c2cf921976d05fe1d1730b539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:05 +0000
Subject: [PATCH 03/34] fix: UTF-8 decoders no longer swallow a byte that
 interrupts a sequence

decoder<char> and from_utf8() took any byte (from_utf8: any but a leading
byte) after a leading byte as a continuation, so 'C3 41' became U+00C1.
---
 src/libunicode/convert.h |  3 +++
 src/libunicode/utf8.cpp  |  7 +++++++
 src/libunicode/utf8.h    | 12 +++++++++++-
 3 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/libunicode/convert.h b/src/libunicode/convert.h
index 5b57e0b..f334f2e 100644
--- a/src/libunicode/convert.h
+++ b/src/libunicode/convert.h
@@ -69,6 +69,9 @@ struct decoder<char> // {{{
 
     constexpr std::optional<char32_t> operator()(uint8_t byte)
     {
+        if (expectedLength && (byte & 0b1100'0000) != 0b1000'0000)
+            expectedLength = 0; // drop the interrupted sequence, but not the byte that starts the next one
+
         if (!expectedLength)
         {
             if ((byte & 0b1000'0000) == 0)
diff --git a/src/libunicode/utf8.cpp b/src/libunicode/utf8.cpp
index 082e607..3bd53bb 100644
--- a/src/libunicode/utf8.cpp
+++ b/src/libunicode/utf8.cpp
@@ -63,6 +63,13 @@ ConvertResult from_utf8(utf8_decoder_state& state, uint8_t value) noexcept
         from_utf8(state, value);
         return { Invalid {} };
     }
+    else if ((value & 0b1100'0000) != 0b1000'0000)
+    {
+        // Neither a continuation nor a leading byte of a multi-byte sequence:
+        // Drop the incomplete codepoint, but do not swallow this byte along with it.
+        state.expectedLength = 0;
+        return from_utf8(state, value);
+    }
     else
     {
         state.character <<= 6;
diff --git a/src/libunicode/utf8.h b/src/libunicode/utf8.h
index b0cb278..14872bc 100644
--- a/src/libunicode/utf8.h
+++ b/src/libunicode/utf8.h
@@ -106,6 +106,10 @@ struct Success { char32_t value; };
 using ConvertResult = std::variant<Invalid, Incomplete, Success>;
 
 /// Progressively decodes a UTF-8 codepoint.
+///
+/// A byte that is not a continuation byte ends an incomplete sequence: a US-ASCII byte yields
+/// Success with its own value, a leading byte yields Invalid but has already started the next
+/// sequence, and any other byte yields Invalid.
 ConvertResult from_utf8(utf8_decoder_state& state, uint8_t value) noexcept;
 
 inline unsigned from_utf8i(utf8_decoder_state& state, uint8_t value)
@@ -127,8 +131,14 @@ inline ConvertResult from_utf8(uint8_t const* bytes, size_t* size)
     auto result = ConvertResult {};
 
     do
+    {
+        if (state.expectedLength && (*bytes & 0b1100'0000) != 0b1000'0000)
+        {
+            result = Invalid {}; // the sequence is interrupted by the next one
+            break;
+        }
         result = from_utf8(state, *bytes++);
-    while (std::holds_alternative<Incomplete>(result));
+    } while (std::holds_alternative<Incomplete>(result));
 
     if (size)
         *size = state.currentLength;
-- 
2.43.0


From 0df55c485e3c58bf2f26735d5473c61ec2648c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:38 +0000
Subject: [PATCH 04/34] fix: utf8_grapheme_segmenter yields U+FFFD for
 truncated sequences

An incomplete sequence at the end of the text became a U+0000 cluster and
one interrupted by US-ASCII vanished.
---
 src/libunicode/utf8_grapheme_segmenter.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/libunicode/utf8_grapheme_segmenter.h b/src/libunicode/utf8_grapheme_segmenter.h
index 37dc094..462e567 100644
--- a/src/libunicode/utf8_grapheme_segmenter.h
+++ b/src/libunicode/utf8_grapheme_segmenter.h
@@ -114,25 +114,27 @@ inline utf8_grapheme_segmenter::iterator::value_type const& utf8_grapheme_segmen
 inline char32_t utf8_grapheme_segmenter::iterator::consumeCodepoint() noexcept
 {
     auto constexpr ReplacementChar = char32_t { 0xFFFD };
+    auto const result = _nextCodepoint;
     _nextCodepointStart = _nextUtf8;
     while (_nextUtf8 != _end)
     {
+        if (_utf8_decoder_state.expectedLength && (uint8_t(*_nextUtf8) & 0b1100'0000) != 0b1000'0000)
+            break; // interrupted by the byte that starts the next codepoint
         _result = from_utf8(_utf8_decoder_state, uint8_t(*_nextUtf8++));
         if (std::holds_alternative<Success>(_result))
         {
-            auto const result = _nextCodepoint;
             _nextCodepoint = std::get<Success>(_result).value;
             return result;
         }
         if (std::holds_alternative<Invalid>(_result))
         {
-            auto const result = _nextCodepoint;
             _nextCodepoint = ReplacementChar;
             return result;
         }
     }
-    auto const result = _nextCodepoint;
-    _nextCodepoint = 0;
+    // Either the end of the text, possibly inside of a codepoint, or an interrupted codepoint.
+    _utf8_decoder_state = {};
+    _nextCodepoint = _nextCodepointStart != _nextUtf8 ? ReplacementChar : char32_t {};
     return result;
 }
 
-- 
2.43.0


From da9ab8bc682ca3872047cca5654ff7c8650d23e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:37 +0000
Subject: [PATCH 05/34] fix: convert_to() no longer reads beyond truncated
 input

A UTF-8 sequence cut off at the end of the view, and a high surrogate as its
last unit, made the iterator decoders read past the end.
---
 src/libunicode/convert.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/libunicode/convert.h b/src/libunicode/convert.h
index f334f2e..934c044 100644
--- a/src/libunicode/convert.h
+++ b/src/libunicode/convert.h
@@ -345,7 +345,16 @@ OutputIterator convert_to(std::basic_string_view<S> input, OutputIterator output
         encoder<T> write {};
         while (i != e)
         {
-            auto const outChar = read(i);
+            auto outChar = std::optional<char32_t> {};
+            if constexpr (std::is_same_v<S, char>)
+                outChar = read(static_cast<uint8_t>(*i++)); // the last sequence may be incomplete
+            else
+            {
+                if constexpr (sizeof(S) == 2)
+                    if ((*i >> 10) == 0x36 && std::next(i) == e)
+                        break; // the high surrogate at the end has no low surrogate to be read
+                outChar = read(i);
+            }
             if (outChar.has_value())
                 output = write(outChar.value(), output);
         }
-- 
2.43.0


From 2645fb9ae3ee427654840908d3dd4be4ed7c301c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:03 +0000
Subject: [PATCH 06/34] fix: scan_text() puts back whole clusters and keeps its
 state at limits and chunk ends

Putting back a cluster that does not fit left the segmentation and width
state (and a codepoint begun by the previous chunk) advanced, so that
resuming lost columns or bytes. A cluster with an ASCII base was split
when a limit fell behind that base. An ill-formed sequence could exceed
the limit, discard the lead byte that ended it, and leave the reported
range in front of the chunk, where scanning then went on reading.
---
 src/libunicode/scan.cpp | 333 +++++++++++++++++++++-------------------
 1 file changed, 176 insertions(+), 157 deletions(-)

diff --git a/src/libunicode/scan.cpp b/src/libunicode/scan.cpp
index 70b8aa0..12f43f2 100644
--- a/src/libunicode/scan.cpp
+++ b/src/libunicode/scan.cpp
@@ -60,6 +60,11 @@ namespace
     {
         return static_cast<uint8_t>(ch) & 0x80;
     }
+    // Tests if the given byte is a UTF-8 continuation byte.
+    constexpr bool is_continuation(char ch) noexcept
+    {
+        return (static_cast<uint8_t>(ch) & 0b1100'0000) == 0b1000'0000;
+    }
 } // namespace
 
 size_t detail::scan_for_text_ascii(string_view text, size_t maxColumnCount) noexcept
@@ -78,85 +83,121 @@ size_t detail::scan_for_text_ascii(string_view text, size_t maxColumnCount) noex
     return scan_for_text_ascii_simd<128>(text, maxColumnCount);
 }
 
-scan_result detail::scan_for_text_nonascii(scan_state& state,
-                                           string_view text,
-                                           size_t maxColumnCount,
-                                           grapheme_cluster_receiver& receiver) noexcept
+namespace
 {
-    size_t count = 0;
-
-    char const* start = text.data();
-    char const* end = start + text.size();
-    char const* input = start;
-    char const* clusterStart = start;
-
-    unsigned byteCount = 0; // bytes consumed for the current codepoint
-
-    // How much of the open cluster's width THIS call has contributed. The cluster may have been
-    // opened by an earlier call, whose columns are already spent and cannot be taken back here, so
-    // this -- not state.reportedClusterWidth -- bounds what a rewind may subtract from count.
-    size_t clusterWidthCountedHere = 0;
-
-    char const* resultStart = state.utf8.expectedLength ? start - state.utf8.currentLength : start;
-    char const* resultEnd = resultStart;
-
-    // Hands over the cluster spanning [clusterStart, clusterEnd). Called at every cluster boundary
-    // and once more when the scan ends, so the last cluster is not dropped. A cluster put back
-    // because it did not fit leaves the range empty and is correctly not delivered.
-    auto const flushOpenCluster = [&](char const* clusterEnd) noexcept {
-        if (clusterEnd > clusterStart)
-            receiver.receiveGraphemeCluster(string_view(clusterStart, static_cast<size_t>(clusterEnd - clusterStart)),
-                                            state.reportedClusterWidth);
-        clusterStart = clusterEnd;
-    };
-
-    while (input != end && count <= maxColumnCount)
+    // Ends the open grapheme cluster, such that the next codepoint starts a new one.
+    void end_cluster(scan_state& state) noexcept
+    {
+        state.lastCodepointHint = 0;
+        state.graphemeState = {};
+        state.clusterWidth.reset();
+        state.reportedClusterWidth = 0;
+    }
+
+    // Scans grapheme clusters made of non-ASCII codepoints.
+    //
+    // With startsWithAscii, the text's first byte is the ASCII base of the first grapheme cluster.
+    scan_result scan_clusters(scan_state& state,
+                              string_view text,
+                              size_t maxColumnCount,
+                              grapheme_cluster_receiver& receiver,
+                              bool startsWithAscii) noexcept
     {
-        // Stop at a C1 control (0x80..0x9F) sitting at a character boundary: it is a control, not
-        // text, so -- like a C0 control -- it is left for the caller. The expectedLength guard keeps
-        // a continuation byte that merely falls in 0x80..0x9F (e.g. the middle byte of U+2018) as
-        // part of its multi-byte codepoint.
-        if (is_control(*input) || !is_complex(*input) || (state.utf8.expectedLength == 0 && is_c1_control(*input)))
+        size_t count = 0;
+
+        char const* start = text.data();
+        char const* end = start + text.size();
+        char const* input = start;
+        char const* clusterStart = start;
+
+        // Start of the UTF-8 sequence being decoded (start, if an earlier call has begun it).
+        char const* sequenceStart = start;
+
+        // What to resume with when that sequence, or the open cluster, has to be put back. An earlier
+        // call may have begun either of them, and only what this call has read can be put back.
+        auto sequenceStartState = state.utf8;
+        auto clusterStartState = state;
+
+        // How much of the open cluster's width THIS call has contributed. The cluster may have been
+        // opened by an earlier call, whose columns are already spent and cannot be taken back here, so
+        // this -- not state.reportedClusterWidth -- bounds what a rewind may subtract from count.
+        size_t clusterWidthCountedHere = 0;
+
+        char const* resultStart = state.utf8.expectedLength ? start - state.utf8.currentLength : start;
+        char const* resultEnd = resultStart;
+
+        // Hands over the cluster spanning [clusterStart, clusterEnd). Called at every cluster boundary
+        // and once more when the scan ends, so the last cluster is not dropped. A cluster put back
+        // because it did not fit leaves the range empty and is correctly not delivered.
+        auto const flushOpenCluster = [&](char const* clusterEnd) noexcept {
+            auto const cluster = string_view(clusterStart, static_cast<size_t>(clusterEnd - clusterStart));
+            if (cluster.size() == 1 && !is_complex(cluster.front()))
+                receiver.receiveAsciiSequence(cluster);
+            else if (!cluster.empty())
+                receiver.receiveGraphemeCluster(cluster, state.reportedClusterWidth);
+            clusterStart = clusterEnd;
+        };
+
+        auto const putBackSequence = [&]() noexcept {
+            input = sequenceStart;
+            state.utf8 = sequenceStartState;
+        };
+
+        while (input != end)
         {
-            // A control ends whatever cluster was open, so hand it over before dropping the state.
-            flushOpenCluster(input);
+            bool interrupted = false;
+            if (state.utf8.expectedLength == 0)
+            {
+                // Stop at a C1 control (0x80..0x9F) sitting at a character boundary: it is a control, not
+                // text, so -- like a C0 control -- it is left for the caller. The expectedLength guard keeps
+                // a continuation byte that merely falls in 0x80..0x9F (e.g. the middle byte of U+2018) as
+                // part of its multi-byte codepoint.
+                if ((!is_complex(*input) && !(startsWithAscii && input == start)) || is_c1_control(*input))
+                {
+                    // A control ends whatever cluster was open, so hand it over before dropping the state.
+                    flushOpenCluster(input);
+                    end_cluster(state);
+                    break;
+                }
+                sequenceStart = input;
+                sequenceStartState = {};
+            }
+            else
+                interrupted = !is_continuation(*input);
 
-            // Incomplete UTF-8 sequence hit. That's invalid as well.
-            if (state.utf8.expectedLength)
+            // The byte that interrupts a UTF-8 sequence does not belong to it.
+            auto const result = interrupted ? ConvertResult { Invalid {} } : from_utf8(state.utf8, static_cast<uint8_t>(*input++));
+
+            if (holds_alternative<Incomplete>(result))
+                continue;
+
+            if (holds_alternative<Invalid>(result))
             {
-                ++count;
+                if (count + 1 > maxColumnCount)
+                {
+                    putBackSequence();
+                    break;
+                }
+                flushOpenCluster(sequenceStart);
+                count++;
                 receiver.receiveInvalidGraphemeCluster();
+                end_cluster(state);
                 state.utf8 = {};
+                clusterWidthCountedHere = 0;
+                clusterStart = input;
+                resultEnd = input;
+                continue;
             }
-            state.lastCodepointHint = 0;
-            state.graphemeState = {};
-            state.clusterWidth.reset();
-            state.reportedClusterWidth = 0;
-            resultEnd = input;
-            break;
-        }
-
-        auto const result = from_utf8(state.utf8, static_cast<uint8_t>(*input++));
-        ++byteCount;
 
-        if (holds_alternative<Incomplete>(result))
-            continue;
-
-        if (holds_alternative<Success>(result))
-        {
-            auto const prevCodepoint = state.lastCodepointHint;
             auto const nextCodepoint = get<Success>(result).value;
-            char const* const codepointStart = input - byteCount;
-            byteCount = 0;
-            state.lastCodepointHint = nextCodepoint;
-
+            auto graphemeState = state.graphemeState;
             bool const breakable = [&] {
-                if (!prevCodepoint)
+                if (!state.lastCodepointHint)
                 {
-                    grapheme_process_init(nextCodepoint, state.graphemeState);
+                    grapheme_process_init(nextCodepoint, graphemeState);
                     return true;
                 }
-                return grapheme_process_breakable(nextCodepoint, state.graphemeState);
+                return grapheme_process_breakable(nextCodepoint, graphemeState);
             }();
             if (breakable)
             {
@@ -169,18 +210,19 @@ scan_result detail::scan_for_text_nonascii(scan_state& state,
                 if (count + nextWidth > maxColumnCount)
                 {
                     // Currently scanned grapheme cluster won't fit. Break at its start.
-                    input = codepointStart;
+                    putBackSequence();
                     break;
                 }
 
                 // The cluster that just ended spans everything up to this codepoint.
-                flushOpenCluster(codepointStart);
+                flushOpenCluster(sequenceStart);
+                clusterStartState = state;
+                clusterStartState.utf8 = sequenceStartState;
 
                 count += nextWidth;
                 clusterWidthCountedHere = nextWidth;
                 state.clusterWidth = nextCluster;
                 state.reportedClusterWidth = nextWidth;
-                resultEnd = input;
             }
             else
             {
@@ -200,9 +242,8 @@ scan_result detail::scan_for_text_nonascii(scan_state& state,
                         // call contributed to it.
                         count -= clusterWidthCountedHere;
                         input = clusterStart;
-                        resultEnd = clusterStart;
-                        state.clusterWidth.reset();
-                        state.reportedClusterWidth = 0;
+                        resultEnd = clusterStart == start ? resultStart : clusterStart;
+                        state = clusterStartState;
                         break;
                     }
                     count += added;
@@ -215,32 +256,28 @@ scan_result detail::scan_for_text_nonascii(scan_state& state,
                     clusterWidthCountedHere -= removed;
                 }
                 state.reportedClusterWidth = updatedWidth;
-                resultEnd = input;
             }
+            state.lastCodepointHint = nextCodepoint;
+            state.graphemeState = graphemeState;
+            resultEnd = input;
         }
-        else
-        {
-            assert(holds_alternative<Invalid>(result));
-            flushOpenCluster(input - byteCount);
-            count++;
-            receiver.receiveInvalidGraphemeCluster();
-            clusterWidthCountedHere = 0;
-            state.clusterWidth.reset();
-            state.reportedClusterWidth = 0;
-            state.lastCodepointHint = 0;
-            state.graphemeState = {};
-            state.utf8.expectedLength = 0;
-            byteCount = 0;
-        }
-    }
 
-    // Hand over whatever cluster the scan ended inside of.
-    flushOpenCluster(input);
+        // Hand over whatever cluster the scan ended inside of, but no incomplete UTF-8 sequence.
+        flushOpenCluster(state.utf8.expectedLength ? sequenceStart : input);
+
+        assert(resultStart <= resultEnd);
 
-    assert(resultStart <= resultEnd);
+        state.next = input;
+        return { count, resultStart, resultEnd };
+    }
+} // namespace
 
-    state.next = input;
-    return { count, resultStart, resultEnd };
+scan_result detail::scan_for_text_nonascii(scan_state& state,
+                                           string_view text,
+                                           size_t maxColumnCount,
+                                           grapheme_cluster_receiver& receiver) noexcept
+{
+    return scan_clusters(state, text, maxColumnCount, receiver, false);
 }
 
 scan_result scan_text(scan_state& state, std::string_view text, size_t maxColumnCount) noexcept
@@ -253,53 +290,42 @@ scan_result scan_text(scan_state& state,
                       size_t maxColumnCount,
                       grapheme_cluster_receiver& receiver) noexcept
 {
-    //       ----(a)--->   A   -------> END
-    //                   ^   |
-    //                   |   |
-    // Start            (a) (b)
-    //                   |   |
-    //                   |   v
-    //       ----(b)--->   B   -------> END
-
-    enum class NextState
-    {
-        Trivial,
-        Complex
-    };
+    auto const* const start = state.utf8.expectedLength ? text.data() - state.utf8.currentLength : text.data();
+    auto result = scan_result { 0, start, start };
 
-    auto result = scan_result { 0, text.data(), text.data() };
+    state.next = text.data();
 
-    if (state.next == nullptr)
-        state.next = text.data();
-
-    // If state indicates that we previously started consuming a UTF-8 sequence but did not complete yet,
-    // attempt to finish that one first.
-    if (state.utf8.expectedLength != 0)
+    while (!text.empty())
     {
-        result = detail::scan_for_text_nonascii(state, text, maxColumnCount, receiver);
-        text = std::string_view(result.end, static_cast<size_t>(std::distance(result.end, text.data() + text.size())));
-    }
+        // A cluster does not have to respect the boundary between the two scanners: the last character
+        // of an ASCII run may be the base of one that continues into the non-ASCII bytes behind it, as
+        // `a` does in "a<visarga>".
+        bool startsWithAscii = false;
 
-    if (text.empty())
-        return result;
-
-    auto nextState = is_complex(text.front()) ? NextState::Complex : NextState::Trivial;
-    while (result.count < maxColumnCount && state.next != (text.data() + text.size()))
-    {
-        switch (nextState)
+        if (!state.utf8.expectedLength && !is_complex(text.front()))
         {
-            case NextState::Trivial: {
-                auto const count = detail::scan_for_text_ascii(text, maxColumnCount - result.count);
-                if (!count)
-                    return result;
+            auto count = detail::scan_for_text_ascii(text, maxColumnCount - result.count);
+            if (!count)
+            {
+                if (is_control(text.front()))
+                    end_cluster(state);
+                break;
+            }
+
+            // Such a base is scanned along with what follows it, so that the cluster is handed over --
+            // or put back, if it does not fit -- as a whole.
+            // Except DEL, which nothing joins.
+            startsWithAscii = count < text.size() && is_complex(text[count]) && !is_c1_control(text[count]) && text[count - 1] != 0x7F;
+            if (startsWithAscii)
+                --count;
+
+            if (count)
+            {
                 receiver.receiveAsciiSequence(text.substr(0, count));
 
-                // A cluster does not have to respect the boundary between the two scanners: the last
-                // character of this run may be the base of one that continues into the non-ASCII
-                // bytes behind it, as `a` does in "a<visarga>". Seed the segmenter and the width
-                // accumulator with it so the scan below joins the two instead of treating the mark
-                // as opening a fresh cluster -- and record the one column already counted for it, so
-                // only what the mark adds is counted a second time.
+                // The next call may begin with what continues the last character's cluster. Seed the
+                // segmenter and the width accumulator with it, and record the one column already
+                // counted for it, so only what is added to it is counted then.
                 auto const lastAscii = static_cast<char32_t>(static_cast<uint8_t>(text[count - 1]));
                 state.lastCodepointHint = lastAscii;
                 grapheme_process_init(lastAscii, state.graphemeState);
@@ -309,34 +335,27 @@ scan_result scan_text(scan_state& state,
 
                 result.count += count;
                 state.next += count;
-                result.end += count;
-                nextState = NextState::Complex;
+                result.end = state.next;
                 text.remove_prefix(count);
-                break;
-            }
-            case NextState::Complex: {
-                auto const sub = detail::scan_for_text_nonascii(state, text, maxColumnCount - result.count, receiver);
-
-                // Zero COLUMNS is not zero BYTES. A codepoint that joins the open cluster without
-                // widening it -- a combining mark, a variation selector on a base that has no
-                // variation sequence -- consumes its bytes and adds nothing, and after the ASCII
-                // scan above handed over, it arrives here on its own. Treating `count` as the
-                // measure of progress dropped it: state.next had moved past those bytes while
-                // result.end had not, and a caller that prints [start, end) and resumes at next
-                // never saw them. "e" + U+0301 reached such a caller as a bare "e".
-                //
-                // The trivial arm may use count for this because there it means the same thing:
-                // no ASCII bytes at the front, hence nothing consumed.
-                auto const consumed = static_cast<size_t>(std::distance(sub.start, sub.end));
-                result.count += sub.count;
-                result.end = sub.end;
-                if (!consumed)
-                    return result;
-                nextState = NextState::Trivial;
-                text.remove_prefix(consumed);
-                break;
             }
+
+            if (!startsWithAscii)
+                continue;
+            end_cluster(state);
         }
+
+        auto const sub = scan_clusters(state, text, maxColumnCount - result.count, receiver, startsWithAscii);
+
+        // Zero COLUMNS is not zero BYTES. A codepoint that joins the open cluster without widening it
+        // -- a combining mark, a variation selector on a base that has no variation sequence --
+        // consumes its bytes and adds nothing. Nor is zero bytes zero columns: the sequence an earlier
+        // call has begun may turn out invalid with the first byte of this one.
+        auto const consumed = static_cast<size_t>(std::distance(text.data(), state.next));
+        result.count += sub.count;
+        result.end = sub.end;
+        if (!consumed && !sub.count)
+            break;
+        text.remove_prefix(consumed);
     }
 
     assert(result.start <= result.end);
-- 
2.43.0


From 4c316284ae819e152cd6343945980c8a70f39140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:10 +0000
Subject: [PATCH 07/34] fix: canonical composition keeps unabsorbed marks
 behind their starter

compose() emitted marks that did not compose before the starter they follow,
composed across blocking characters, and took U+11A7 for a trailing jamo.
---
 src/libunicode/normalization.cpp | 61 ++++++++++----------------------
 1 file changed, 19 insertions(+), 42 deletions(-)

diff --git a/src/libunicode/normalization.cpp b/src/libunicode/normalization.cpp
index a617c64..febff80 100644
--- a/src/libunicode/normalization.cpp
+++ b/src/libunicode/normalization.cpp
@@ -104,7 +104,7 @@ namespace
         {
             if ((first - hangul::SBase) % hangul::TCount == 0)
             {
-                if (second >= hangul::TBase && second < hangul::TBase + hangul::TCount)
+                if (second > hangul::TBase && second < hangul::TBase + hangul::TCount)
                 {
                     // LV + T -> LVT
                     return first + (second - hangul::TBase);
@@ -190,56 +190,33 @@ namespace
         std::u32string result;
         result.reserve(decomposed.size());
 
-        size_t i = 0;
+        auto constexpr NoStarter = std::u32string::npos;
+        size_t starter = NoStarter; // Position of the last starter in result
+        uint8_t last_ccc = 0;       // Combining class of the last character in result
 
-        // Find first starter
-        while (i < decomposed.size() && canonical_combining_class(decomposed[i]) != 0)
+        for (char32_t const cp: decomposed)
         {
-            result.push_back(decomposed[i]);
-            ++i;
-        }
-
-        if (i >= decomposed.size())
-            return result;
+            uint8_t const ccc = canonical_combining_class(cp);
 
-        char32_t starter = decomposed[i++];
-        uint8_t last_ccc = 0;
-
-        while (i < decomposed.size())
-        {
-            char32_t cp = decomposed[i];
-            uint8_t ccc = canonical_combining_class(cp);
-
-            // Check if we can compose with the starter
-            char32_t composed = 0;
-            if (last_ccc < ccc || last_ccc == 0)
+            // A character is blocked from the starter by any character between the two that
+            // is a starter itself or whose combining class is not lower.
+            if (starter != NoStarter && (starter + 1 == result.size() || last_ccc < ccc))
             {
-                composed = try_compose(starter, cp);
+                auto const composed = try_compose(result[starter], cp);
+                if (composed != 0 && !is_composition_exclusion(composed))
+                {
+                    result[starter] = composed;
+                    continue;
+                }
             }
 
-            if (composed != 0 && !is_composition_exclusion(composed))
-            {
-                // Composition succeeded
-                starter = composed;
-            }
-            else if (ccc == 0)
-            {
-                // New starter
-                result.push_back(starter);
-                starter = cp;
-                last_ccc = 0;
-            }
-            else
-            {
-                // Can't compose, keep the character
-                result.push_back(cp);
-                last_ccc = ccc;
-            }
+            if (ccc == 0)
+                starter = result.size();
 
-            ++i;
+            last_ccc = ccc;
+            result.push_back(cp);
         }
 
-        result.push_back(starter);
         return result;
     }
 
-- 
2.43.0


From ad8cfc338f136f0a85309870b1f21a59cefe4f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:10 +0000
Subject: [PATCH 08/34] fix: normalizer does not split before starters that
 decompose into non-starters

U+0F73, U+0F75 and U+0F81 have combining class 0, but decompose into marks
that are reordered with the preceding ones.
---
 src/libunicode/normalization.cpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/libunicode/normalization.cpp b/src/libunicode/normalization.cpp
index febff80..0625c55 100644
--- a/src/libunicode/normalization.cpp
+++ b/src/libunicode/normalization.cpp
@@ -156,6 +156,23 @@ namespace
             decompose_recursive(c, output, compatibility);
     }
 
+    /// Returns the first codepoint of the full decomposition of the given non-Hangul codepoint.
+    [[nodiscard]] char32_t first_of_decomposition(char32_t cp, bool compatibility) noexcept
+    {
+        while (true)
+        {
+            auto decomp = find_decomposition(detail::canonical_decomposition_table, cp);
+
+            if (decomp.empty() && compatibility)
+                decomp = find_decomposition(detail::compatibility_decomposition_table, cp);
+
+            if (decomp.empty())
+                return cp;
+
+            cp = decomp.front();
+        }
+    }
+
     // Canonical ordering of combining marks
     void canonical_order(std::u32string& text)
     {
@@ -524,9 +541,10 @@ bool normalizer::is_boundary(char32_t codepoint) const noexcept
     if (canonical_combining_class(codepoint) != 0)
         return false;
 
-    // For decomposition forms, every starter is a safe boundary
+    // For decomposition forms, a starter is a safe boundary unless its decomposition
+    // begins with a non-starter (which may be reordered with the preceding marks)
     if (_form == Normalization_Form::NFD || _form == Normalization_Form::NFKD)
-        return true;
+        return canonical_combining_class(first_of_decomposition(codepoint, _form == Normalization_Form::NFKD)) == 0;
 
     // For composition forms, a starter is safe only if its quick-check value
     // is Yes (it cannot compose with the preceding segment)
-- 
2.43.0


From f0d044b299a146d15ce6143eab1fe06370d54b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:38 +0000
Subject: [PATCH 09/34] fix: utf8_normalizer replaces interrupted and
 unfinished UTF-8 sequences

An incomplete sequence followed by US-ASCII vanished, and one at the end of
the text was carried over flush() into the next text.
---
 src/libunicode/normalization.cpp | 24 +++++++++++++++++++++---
 src/libunicode/normalization.h   |  3 +++
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/libunicode/normalization.cpp b/src/libunicode/normalization.cpp
index 0625c55..0e68fc7 100644
--- a/src/libunicode/normalization.cpp
+++ b/src/libunicode/normalization.cpp
@@ -596,12 +596,29 @@ utf8_normalizer::utf8_normalizer(Normalization_Form form) noexcept: _inner(form)
 {
 }
 
+void utf8_normalizer::feed_codepoint(char32_t codepoint)
+{
+    auto const segment = _inner.feed(codepoint);
+    if (!segment.empty())
+        convert_to<char>(segment, std::back_inserter(_utf8Output));
+}
+
+void utf8_normalizer::replace_incomplete()
+{
+    _utf8State = {};
+    feed_codepoint(char32_t { 0xFFFD });
+}
+
 std::string_view utf8_normalizer::feed(std::string_view utf8Data)
 {
     _utf8Output.clear();
 
     for (auto byte: utf8Data)
     {
+        // A sequence interrupted by the start of the next one is invalid on its own
+        if (_utf8State.expectedLength != 0 && (static_cast<uint8_t>(byte) & 0b1100'0000) != 0b1000'0000)
+            replace_incomplete();
+
         auto const result = from_utf8(_utf8State, static_cast<uint8_t>(byte));
 
         char32_t cp {};
@@ -612,9 +629,7 @@ std::string_view utf8_normalizer::feed(std::string_view utf8Data)
         else
             continue; // Incomplete: continue buffering UTF-8 bytes
 
-        auto segment = _inner.feed(cp);
-        if (!segment.empty())
-            convert_to<char>(segment, std::back_inserter(_utf8Output));
+        feed_codepoint(cp);
     }
 
     return _utf8Output;
@@ -624,6 +639,9 @@ std::string_view utf8_normalizer::flush()
 {
     _utf8Output.clear();
 
+    if (_utf8State.expectedLength != 0)
+        replace_incomplete();
+
     auto segment = _inner.flush();
     if (!segment.empty())
         convert_to<char>(segment, std::back_inserter(_utf8Output));
diff --git a/src/libunicode/normalization.h b/src/libunicode/normalization.h
index f57b6ca..77445de 100644
--- a/src/libunicode/normalization.h
+++ b/src/libunicode/normalization.h
@@ -313,6 +313,9 @@ class utf8_normalizer
     void reset() noexcept;
 
   private:
+    void feed_codepoint(char32_t codepoint);
+    void replace_incomplete();
+
     normalizer _inner;
     utf8_decoder_state _utf8State {};
     std::string _utf8Output;
-- 
2.43.0


From b3ba82b4b0ecf4e78d4c2160cda84ce6d5c25f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:45 +0000
Subject: [PATCH 10/34] fix: is_full_composition_exclusion() knows the
 Full_Composition_Exclusion property

tablegen never recognised the property, as the comment of its line was taken
for a part of its name, so singletons and non-starter decompositions were
missing.
---
 src/libunicode/normalization.cpp                |  2 +-
 src/libunicode/tablegen/case_norm_generator.cpp |  2 ++
 src/libunicode/tablegen/ucd_parser.cpp          | 10 +++++++---
 src/libunicode/tablegen/ucd_parser.h            |  2 ++
 4 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/libunicode/normalization.cpp b/src/libunicode/normalization.cpp
index 0e68fc7..3d4055d 100644
--- a/src/libunicode/normalization.cpp
+++ b/src/libunicode/normalization.cpp
@@ -291,7 +291,7 @@ bool is_composition_exclusion(char32_t codepoint) noexcept
 
 bool is_full_composition_exclusion(char32_t codepoint) noexcept
 {
-    return is_composition_exclusion(codepoint);
+    return contains_codepoint(detail::full_composition_exclusions_table, codepoint);
 }
 
 // ============================================================================
diff --git a/src/libunicode/tablegen/case_norm_generator.cpp b/src/libunicode/tablegen/case_norm_generator.cpp
index 09d5381..8d3694b 100644
--- a/src/libunicode/tablegen/case_norm_generator.cpp
+++ b/src/libunicode/tablegen/case_norm_generator.cpp
@@ -360,6 +360,8 @@ namespace unicode::detail
     // Composition exclusions
     writeQuickCheckTable(out, parser.compositionExclusions(), "composition_exclusions");
     out << "\n";
+    writeQuickCheckTable(out, parser.fullCompositionExclusions(), "full_composition_exclusions");
+    out << "\n";
 
     out << "// clang-format on\n";
     out << "\n";
diff --git a/src/libunicode/tablegen/ucd_parser.cpp b/src/libunicode/tablegen/ucd_parser.cpp
index f2d46f7..a08b55e 100644
--- a/src/libunicode/tablegen/ucd_parser.cpp
+++ b/src/libunicode/tablegen/ucd_parser.cpp
@@ -835,9 +835,13 @@ void UcdParser::loadDerivedNormalizationProps()
             continue;
 
         auto cpPart = trim(parts[0]);
-        auto prop = std::string(trim(parts[1]));
 
-        // Strip inline comments (everything from '#' onward) from the value field
+        // Strip inline comments (everything from '#' onward) from the property and value fields
+        auto rawProp = trim(parts[1]);
+        if (auto hashPos = rawProp.find('#'); hashPos != std::string_view::npos)
+            rawProp = trim(rawProp.substr(0, hashPos));
+        auto prop = std::string(rawProp);
+
         auto rawValue = parts.size() > 2 ? trim(parts[2]) : std::string_view {};
         if (auto hashPos = rawValue.find('#'); hashPos != std::string_view::npos)
             rawValue = trim(rawValue.substr(0, hashPos));
@@ -885,7 +889,7 @@ void UcdParser::loadDerivedNormalizationProps()
             }
             else if (prop == "Full_Composition_Exclusion")
             {
-                _compositionExclusions.insert(cp);
+                _fullCompositionExclusions.insert(cp);
             }
         }
     }
diff --git a/src/libunicode/tablegen/ucd_parser.h b/src/libunicode/tablegen/ucd_parser.h
index c233c46..914700c 100644
--- a/src/libunicode/tablegen/ucd_parser.h
+++ b/src/libunicode/tablegen/ucd_parser.h
@@ -158,6 +158,7 @@ class UcdParser
     [[nodiscard]] auto const& ccc() const noexcept { return _ccc; }
     [[nodiscard]] auto const& decompositions() const noexcept { return _decompositions; }
     [[nodiscard]] auto const& compositionExclusions() const noexcept { return _compositionExclusions; }
+    [[nodiscard]] auto const& fullCompositionExclusions() const noexcept { return _fullCompositionExclusions; }
     [[nodiscard]] auto const& nfcQcNo() const noexcept { return _nfcQcNo; }
     [[nodiscard]] auto const& nfcQcMaybe() const noexcept { return _nfcQcMaybe; }
     [[nodiscard]] auto const& nfkcQcNo() const noexcept { return _nfkcQcNo; }
@@ -273,6 +274,7 @@ class UcdParser
     std::map<char32_t, int> _ccc;
     std::map<char32_t, Decomposition> _decompositions;
     std::set<char32_t> _compositionExclusions;
+    std::set<char32_t> _fullCompositionExclusions;
     std::set<char32_t> _nfcQcNo;
     std::set<char32_t> _nfcQcMaybe;
     std::set<char32_t> _nfkcQcNo;
-- 
2.43.0


From 2bb58eb31d2365ef464a0590fe258339aa5ee4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:23 +0000
Subject: [PATCH 11/34] fix: multistage table generator compares blocks by
 value

Blocks were hashed and compared bytewise, which never finds equal blocks of
std::string: the names table had 4352 blocks, more than its 8-bit stage 1 can
number, so names of codepoints from U+10000 on were wrong. Also iterate with
size_t, as SourceType may not hold the input size, and let verify() compile.
---
 src/libunicode/multistage_table_generator.h | 39 ++++++++++-----------
 1 file changed, 18 insertions(+), 21 deletions(-)

diff --git a/src/libunicode/multistage_table_generator.h b/src/libunicode/multistage_table_generator.h
index 1ca8870..9ea7d49 100644
--- a/src/libunicode/multistage_table_generator.h
+++ b/src/libunicode/multistage_table_generator.h
@@ -19,7 +19,6 @@
 #include <algorithm>
 #include <cassert>
 #include <cstdint>
-#include <cstring>
 #include <iomanip>
 #include <iterator>
 #include <limits>
@@ -78,43 +77,43 @@ class multistage_table_generator
     {
         assert(_inputSize % BlockSize == 0);
         _output.stage1.resize(_inputSize / BlockSize);
-        for (SourceType blockStart = 0; blockStart <= _inputSize - BlockSize; blockStart += BlockSize)
+        for (size_t blockStart = 0; blockStart + BlockSize <= _inputSize; blockStart += BlockSize)
             _output.stage1[blockStart / BlockSize] = get_or_create_index_to_stage2_block(blockStart);
     }
 
     void verify() const
     {
-        for (SourceType blockStart = 0; blockStart <= _inputSize - BlockSize; ++blockStart)
+        for (size_t blockStart = 0; blockStart + BlockSize <= _inputSize; blockStart += BlockSize)
             verify_block(blockStart / BlockSize);
     }
 
   private:
-    void verify_block(SourceType blockNumber) const
+    void verify_block(size_t blockNumber) const
     {
-        for (SourceType codepoint = blockNumber * BlockSize; codepoint < (blockNumber + 1) * BlockSize; ++codepoint)
+        for (size_t codepoint = blockNumber * BlockSize; codepoint < (blockNumber + 1) * BlockSize; ++codepoint)
         {
             auto const& a = _input[codepoint];
-            auto const& b = _output.get(codepoint);
+            auto const& b = _output.get(static_cast<SourceType>(codepoint));
             if (a != b)
             {
-                throw runtime_error((std::ostringstream()
-                                     << "U+" << std::hex << unsigned(codepoint) << " mismatch in properties.\n"
-                                     << "Expected : " << a << "\nActual   : " << b)
-                                        .str());
+                throw std::runtime_error((std::ostringstream()
+                                          << "U+" << std::hex << unsigned(codepoint) << " mismatch in properties.\n"
+                                          << "Expected : " << a << "\nActual   : " << b)
+                                             .str());
             }
         }
     }
 
-    Stage1ElementType get_or_create_index_to_stage2_block(SourceType blockStart)
+    Stage1ElementType get_or_create_index_to_stage2_block(size_t blockStart)
     {
-        if (auto other_block = find_same_block(static_cast<size_t>(blockStart)))
+        if (auto other_block = find_same_block(blockStart))
             return _output.stage1[other_block.value()];
 
         // Block has not been seen yet. Create a new block.
         auto const stage2Index = _output.stage2.size() / BlockSize;
-        assert(stage2Index < std::numeric_limits<Stage2ElementType>::max());
+        assert(stage2Index <= std::numeric_limits<Stage1ElementType>::max());
 
-        for (SourceType index = blockStart; index < blockStart + BlockSize; ++index)
+        for (size_t index = blockStart; index < blockStart + BlockSize; ++index)
             _output.stage2.emplace_back(get_or_create_stage3_index(index));
 
         assert(_output.stage2.size() % BlockSize == 0);
@@ -122,15 +121,13 @@ class multistage_table_generator
         return static_cast<Stage1ElementType>(stage2Index);
     }
 
-    /// FNV-1a hash over a block of elements.
+    /// FNV-1a hash over the hashes of a block of elements.
     size_t hashBlock(size_t blockStart) const noexcept
     {
         size_t hash = 14695981039346656037ULL;
-        auto const* bytes = reinterpret_cast<char const*>(&_input[blockStart]);
-        auto const byteCount = BlockSize * sizeof(T);
-        for (size_t i = 0; i < byteCount; ++i)
+        for (size_t i = blockStart; i < blockStart + BlockSize; ++i)
         {
-            hash ^= static_cast<size_t>(static_cast<unsigned char>(bytes[i]));
+            hash ^= static_cast<size_t>(_valueHasher(_input[i]));
             hash *= 1099511628211ULL;
         }
         return hash;
@@ -154,10 +151,10 @@ class multistage_table_generator
 
     bool is_same_block(size_t a, size_t b) const noexcept
     {
-        return std::memcmp(&_input[a], &_input[b], BlockSize * sizeof(T)) == 0;
+        return std::equal(&_input[a], &_input[a] + BlockSize, &_input[b]);
     }
 
-    Stage2ElementType get_or_create_stage3_index(SourceType stage1Index)
+    Stage2ElementType get_or_create_stage3_index(size_t stage1Index)
     {
         auto const& value = _input[stage1Index];
         if (auto it = _stage3Map.find(value); it != _stage3Map.end())
-- 
2.43.0


From dd604ac47e22714f251caf8c9808ec04001e0a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:06 +0000
Subject: [PATCH 12/34] fix: capi.h compiles as C and its macros expand to
 well-formed expressions

---
 src/libunicode/capi.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/libunicode/capi.h b/src/libunicode/capi.h
index 8948ba6..c1860e2 100644
--- a/src/libunicode/capi.h
+++ b/src/libunicode/capi.h
@@ -17,7 +17,7 @@
 #include <stddef.h>
 #include <stdint.h>
 
-#if !defined(__cplusplus)
+#if defined(__cplusplus)
 extern "C"
 {
 #endif
@@ -38,7 +38,7 @@ extern "C"
  * Verifies that _p codepoint is a valid codepoint,
  */
 #define u32_is_valid_codepoint(_codepoint) \
-    ((_codepoint) < 0xD800 || ((_codepoint) > 0xDFFF && (_codepoint) <= 0x10FFFF)
+    ((_codepoint) < 0xD800 || ((_codepoint) > 0xDFFF && (_codepoint) <= 0x10FFFF))
 
 /**
  * Extracts the unused higher order bits and moves them bit-wise to the right.
@@ -62,17 +62,17 @@ extern "C"
 /**
  * Tests if given bit at @p _index of the unused most significant bits is set.
  */
-#define u32_unused_bit_get(_codepoint, _index) (((_codepoint) & (1 << ((_index) + 21))) != 0)
+#define u32_unused_bit_get(_codepoint, _index) (((_codepoint) & ((u32_char_t) 1 << ((_index) + 21))) != 0)
 
 /**
  * Sets the bit at @p _index of the unused most significant bits.
  */
-#define u32_unused_bit_on(_codepoint, _index) ((_codepoint) | (1 << ((_index) + 21)))
+#define u32_unused_bit_on(_codepoint, _index) ((_codepoint) | ((u32_char_t) 1 << ((_index) + 21)))
 
 /**
  * Clears the bit at @p _index of the unused most significant bits.
  */
-#define u32_unused_bit_off(_codepoint, _index) ((_codepoint) & ~(1 << ((_index) + 21)))
+#define u32_unused_bit_off(_codepoint, _index) ((_codepoint) & ~((u32_char_t) 1 << ((_index) + 21)))
 
 /**
  * Returns @p _codepoint with all unused bits cleared.
@@ -215,7 +215,7 @@ extern "C"
      */
     int u32u8_convert(u32_char_t const* source, size_t slen, u8_char_t* dest, size_t dlen);
 
-#if !defined(__cplusplus)
+#if defined(__cplusplus)
 }
 #endif
 
-- 
2.43.0


From e0a6467964c90bbb1c60f01ae801e940853c4dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:16 +0000
Subject: [PATCH 13/34] fix: u32_gc_width() of an empty text is 0

---
 src/libunicode/capi.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libunicode/capi.cpp b/src/libunicode/capi.cpp
index cb2b105..3446e01 100644
--- a/src/libunicode/capi.cpp
+++ b/src/libunicode/capi.cpp
@@ -43,6 +43,9 @@ int u8_gc_count(u8_char_t const* codepoints, size_t size)
 
 int u32_gc_width(u32_char_t const* codepoints, size_t size, int mode)
 {
+    if (!size)
+        return 0;
+
     auto const text = std::u32string_view(reinterpret_cast<char32_t const*>(codepoints), size);
     auto totalWidth = 0;
     auto segmenter = unicode::grapheme_segmenter(text);
-- 
2.43.0


From 17ea6925111c9c8801fdeae355affd05ef69fd57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:33 +0000
Subject: [PATCH 14/34] fix: u32u8_convert() accepts a destination of exactly
 the needed size

---
 src/libunicode/capi.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libunicode/capi.cpp b/src/libunicode/capi.cpp
index 3446e01..c4d9213 100644
--- a/src/libunicode/capi.cpp
+++ b/src/libunicode/capi.cpp
@@ -113,7 +113,7 @@ int u32u8_convert(u32_char_t const* source, size_t slen, u8_char_t* dest, size_t
         u8_char_t buf[4];
         auto const bufEnd = conv(source[i], buf);
         auto const bufLength = static_cast<size_t>(std::distance(buf, bufEnd));
-        if (!(bufLength < dlen))
+        if (bufLength > dlen)
             return -1;
 
         for (size_t k = 0; k < bufLength; ++k)
-- 
2.43.0


From d86a8e5540125a8c65baaf5599449c8652cc0d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:49 +0000
Subject: [PATCH 15/34] fix: unicode-query prints the properties of unassigned
 codepoints

---
 src/tools/unicode-query.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tools/unicode-query.cpp b/src/tools/unicode-query.cpp
index 18bf2cd..a16ace7 100644
--- a/src/tools/unicode-query.cpp
+++ b/src/tools/unicode-query.cpp
@@ -128,6 +128,9 @@ vector<char32_t> parseChars(std::string_view text)
 
 string prettyAge(unicode::Age age)
 {
+    if (age == unicode::Age::Unassigned)
+        return "Unassigned";
+
     // clang-format off
     string str = [=]() { auto s = ostringstream(); s << age; return s.str(); }();
     // clang-format on
-- 
2.43.0


From f6cb4836f4377b3be37df36d487390accaf42664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:41 +0000
Subject: [PATCH 16/34] fix: unicode-query rejects codepoint arguments out of
 range

---
 src/tools/unicode-query.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/unicode-query.cpp b/src/tools/unicode-query.cpp
index a16ace7..a8d6874 100644
--- a/src/tools/unicode-query.cpp
+++ b/src/tools/unicode-query.cpp
@@ -102,7 +102,7 @@ optional<char32_t> parseChar(std::string_view text)
 
     auto value = uint32_t {};
     auto const result = std::from_chars(text.data(), text.data() + text.size(), value, 16);
-    if (result.ptr != text.data() + text.size())
+    if (result.ec != std::errc {} || result.ptr != text.data() + text.size())
         return nullopt;
     return { static_cast<char32_t>(value) };
 }
-- 
2.43.0


From a97e5ab42b2f584929de19a0862c4e0569b4ffd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:38 +0000
Subject: [PATCH 17/34] fix: unicode-query no longer escapes non-ASCII text as
 control codes

---
 src/tools/unicode-query.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/unicode-query.cpp b/src/tools/unicode-query.cpp
index a8d6874..8db75a4 100644
--- a/src/tools/unicode-query.cpp
+++ b/src/tools/unicode-query.cpp
@@ -44,7 +44,7 @@ std::string escapeControlCodes(std::string const& text)
     auto result = stringstream {};
     for (char const ch: text)
     {
-        if (ch < 0x20)
+        if (static_cast<unsigned char>(ch) < 0x20)
             result << "\\x" << setw(2) << std::hex << (unsigned(ch) & 0xFF);
         else
             result << ch;
-- 
2.43.0


From 7aaf3629b4eb27481f1bd63726e2134176f35087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:39 +0000
Subject: [PATCH 18/34] fix: a backslash at the end of a UCD comment no longer
 swallows the next table entry

---
 src/libunicode/tablegen/case_norm_generator.cpp | 3 ++-
 src/libunicode/tablegen/ucd_parser.cpp          | 4 ++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/libunicode/tablegen/case_norm_generator.cpp b/src/libunicode/tablegen/case_norm_generator.cpp
index 8d3694b..cca3a56 100644
--- a/src/libunicode/tablegen/case_norm_generator.cpp
+++ b/src/libunicode/tablegen/case_norm_generator.cpp
@@ -44,7 +44,8 @@ namespace
         {
             auto const& [src, tgt] = sortedItems[i];
             auto comma = (i < sortedItems.size() - 1) ? "," : "";
-            auto comment = (src >= 0x20 && src < 0x7F) ? std::string(1, static_cast<char>(src)) : std::string {};
+            // A backslash at the end of the comment would splice the next entry into it.
+            auto comment = (src >= 0x20 && src < 0x7F && src != '\\') ? std::string(1, static_cast<char>(src)) : std::string {};
             out << std::format(
                 "    {{ 0x{:04X}, 0x{:04X} }}{} // {}\n", static_cast<unsigned>(src), static_cast<unsigned>(tgt), comma, comment);
         }
diff --git a/src/libunicode/tablegen/ucd_parser.cpp b/src/libunicode/tablegen/ucd_parser.cpp
index a08b55e..36b54ef 100644
--- a/src/libunicode/tablegen/ucd_parser.cpp
+++ b/src/libunicode/tablegen/ucd_parser.cpp
@@ -98,6 +98,10 @@ namespace
         if (hashPos != std::string_view::npos)
         {
             result.comment = trim(line.substr(hashPos + 1));
+            // Comments are emitted as "// ..." lines. A trailing backslash would splice the next line of
+            // the generated table into the comment.
+            while (result.comment.ends_with('\\'))
+                result.comment = trim(result.comment.substr(0, result.comment.size() - 1));
             line = line.substr(0, hashPos);
         }
 
-- 
2.43.0


From 462cc935e3634b397ea4f7704ce738932b595b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:39 +0000
Subject: [PATCH 19/34] fix: tablegen sorts the blocks before they are searched
 binarily

---
 src/libunicode/tablegen/ucd_parser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libunicode/tablegen/ucd_parser.cpp b/src/libunicode/tablegen/ucd_parser.cpp
index 36b54ef..bc75b3f 100644
--- a/src/libunicode/tablegen/ucd_parser.cpp
+++ b/src/libunicode/tablegen/ucd_parser.cpp
@@ -449,6 +449,7 @@ void UcdParser::loadBlocks()
         auto title = std::string(trim(parsed->property));
         _blocks.push_back({ parsed->first, parsed->last, title });
     }
+    std::sort(_blocks.begin(), _blocks.end(), [](auto const& a, auto const& b) { return a.first < b.first; });
 }
 
 // ---- Grapheme Break Properties ----
-- 
2.43.0


From 3845974340afca6d84b9e27c0bec57478d0f5f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:05 +0000
Subject: [PATCH 20/34] fix: tablegen no longer takes a comment in
 PropertyValueAliases.txt for part of a value name

---
 src/libunicode/tablegen/ucd_parser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libunicode/tablegen/ucd_parser.cpp b/src/libunicode/tablegen/ucd_parser.cpp
index bc75b3f..93605e1 100644
--- a/src/libunicode/tablegen/ucd_parser.cpp
+++ b/src/libunicode/tablegen/ucd_parser.cpp
@@ -318,8 +318,8 @@ void UcdParser::loadPropertyValueAliases()
         if (sv.front() == '#')
             continue;
 
-        // Data line: "propAbbrev ; valueAbbrev ; valueFull ..."
-        auto parts = splitSemicolons(sv);
+        // Data line: "propAbbrev ; valueAbbrev ; valueFull ... # comment"
+        auto parts = splitSemicolons(sv.substr(0, sv.find('#')));
         if (parts.size() < 3)
             continue;
         if (blackList.count(currentProperty))
-- 
2.43.0


From 83a55ccfd430e4d7db9cf6233ed8b115e57bcc14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:07 +0000
Subject: [PATCH 21/34] fix: tablegen sorts the ranges of each general category
 before they are searched binarily

---
 src/libunicode/tablegen/ucd_parser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libunicode/tablegen/ucd_parser.cpp b/src/libunicode/tablegen/ucd_parser.cpp
index 93605e1..74e7c9e 100644
--- a/src/libunicode/tablegen/ucd_parser.cpp
+++ b/src/libunicode/tablegen/ucd_parser.cpp
@@ -364,6 +364,8 @@ void UcdParser::loadGeneralCategory()
         _generalCategory.push_back({ parsed->first, parsed->last, prop, comment });
     }
     std::sort(_generalCategory.begin(), _generalCategory.end(), [](auto const& a, auto const& b) { return a.first < b.first; });
+    for (auto& [key, ranges]: _generalCategoryMap)
+        std::sort(ranges.begin(), ranges.end(), [](auto const& a, auto const& b) { return a.first < b.first; });
 }
 
 // ---- Core Properties ----
-- 
2.43.0


From dcf3eb46b9f8587ca8406bab76de9a11e6f5ac6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:07 +0000
Subject: [PATCH 22/34] fix: tablegen recognizes conditional special casing
 lines without a comment

---
 src/libunicode/tablegen/ucd_parser.cpp | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/libunicode/tablegen/ucd_parser.cpp b/src/libunicode/tablegen/ucd_parser.cpp
index 74e7c9e..0d3e253 100644
--- a/src/libunicode/tablegen/ucd_parser.cpp
+++ b/src/libunicode/tablegen/ucd_parser.cpp
@@ -753,15 +753,11 @@ void UcdParser::loadSpecialCasing()
         if (parts.size() < 4)
             continue;
 
-        // Check for conditional mappings: skip them (have > 4 fields before '#')
-        auto commentIdx = trimmed.find('#');
-        if (commentIdx != std::string::npos)
-        {
-            auto beforeComment = std::string_view(trimmed).substr(0, commentIdx);
-            auto fieldCount = std::count(beforeComment.begin(), beforeComment.end(), ';');
-            if (fieldCount > 4)
-                continue;
-        }
+        // Check for conditional mappings: skip them (have > 4 fields before '#', if there is any)
+        auto beforeComment = std::string_view(trimmed).substr(0, trimmed.find('#'));
+        auto fieldCount = std::count(beforeComment.begin(), beforeComment.end(), ';');
+        if (fieldCount > 4)
+            continue;
 
         auto cp = parseCodepoint(parts[0]);
         auto lower = parseCodepoints(parts[1]);
-- 
2.43.0


From 758215f5ce41e6cbf9e4dbbc719a7cc064644661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:07 +0000
Subject: [PATCH 23/34] fix: tablegen accepts tabs around codepoints

---
 src/libunicode/tablegen/ucd_parser.cpp | 31 +++++++++-----------------
 1 file changed, 11 insertions(+), 20 deletions(-)

diff --git a/src/libunicode/tablegen/ucd_parser.cpp b/src/libunicode/tablegen/ucd_parser.cpp
index 0d3e253..32d0ef5 100644
--- a/src/libunicode/tablegen/ucd_parser.cpp
+++ b/src/libunicode/tablegen/ucd_parser.cpp
@@ -26,12 +26,18 @@ namespace tablegen
 
 namespace
 {
-    auto parseCodepoint(std::string_view s) -> char32_t
+    auto trim(std::string_view s) -> std::string_view
     {
-        while (!s.empty() && s.front() == ' ')
+        while (!s.empty() && (s.front() == ' ' || s.front() == '\t' || s.front() == '\r' || s.front() == '\n'))
             s.remove_prefix(1);
-        while (!s.empty() && s.back() == ' ')
+        while (!s.empty() && (s.back() == ' ' || s.back() == '\t' || s.back() == '\r' || s.back() == '\n'))
             s.remove_suffix(1);
+        return s;
+    }
+
+    auto parseCodepoint(std::string_view s) -> char32_t
+    {
+        s = trim(s);
         unsigned value = 0;
         std::from_chars(s.data(), s.data() + s.size(), value, 16);
         return static_cast<char32_t>(value);
@@ -40,30 +46,15 @@ namespace
     auto parseCodepoints(std::string_view s) -> std::vector<char32_t>
     {
         std::vector<char32_t> result;
-        while (!s.empty())
+        for (s = trim(s); !s.empty(); s = trim(s))
         {
-            while (!s.empty() && s.front() == ' ')
-                s.remove_prefix(1);
-            if (s.empty())
-                break;
-            auto end = s.find(' ');
-            if (end == std::string_view::npos)
-                end = s.size();
+            auto const end = std::min(s.find_first_of(" \t"), s.size());
             result.push_back(parseCodepoint(s.substr(0, end)));
             s.remove_prefix(end);
         }
         return result;
     }
 
-    auto trim(std::string_view s) -> std::string_view
-    {
-        while (!s.empty() && (s.front() == ' ' || s.front() == '\t' || s.front() == '\r' || s.front() == '\n'))
-            s.remove_prefix(1);
-        while (!s.empty() && (s.back() == ' ' || s.back() == '\t' || s.back() == '\r' || s.back() == '\n'))
-            s.remove_suffix(1);
-        return s;
-    }
-
     auto openFile(std::string const& path) -> std::ifstream
     {
         auto f = std::ifstream(path);
-- 
2.43.0


From d70db966d77f6d7dd4b3da664bc39ba599c09fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:46 +0000
Subject: [PATCH 24/34] fix: multistage table generator reports too many blocks
 or values instead of overflowing

---
 src/libunicode/multistage_table_generator.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/libunicode/multistage_table_generator.h b/src/libunicode/multistage_table_generator.h
index 9ea7d49..1b96785 100644
--- a/src/libunicode/multistage_table_generator.h
+++ b/src/libunicode/multistage_table_generator.h
@@ -111,7 +111,8 @@ class multistage_table_generator
 
         // Block has not been seen yet. Create a new block.
         auto const stage2Index = _output.stage2.size() / BlockSize;
-        assert(stage2Index <= std::numeric_limits<Stage1ElementType>::max());
+        if (stage2Index > std::numeric_limits<Stage1ElementType>::max())
+            throw std::overflow_error("Too many distinct blocks for the stage 1 element type.");
 
         for (size_t index = blockStart; index < blockStart + BlockSize; ++index)
             _output.stage2.emplace_back(get_or_create_stage3_index(index));
@@ -160,9 +161,11 @@ class multistage_table_generator
         if (auto it = _stage3Map.find(value); it != _stage3Map.end())
             return it->second;
 
+        if (_output.stage3.size() > std::numeric_limits<Stage2ElementType>::max())
+            throw std::overflow_error("Too many distinct values for the stage 2 element type.");
+
         auto const stage3Index = static_cast<Stage2ElementType>(_output.stage3.size());
         _output.stage3.emplace_back(value);
-        assert(stage3Index < std::numeric_limits<Stage2ElementType>::max());
         _stage3Map[value] = stage3Index;
         return stage3Index;
     }
-- 
2.43.0


From f3d57225442b351f356887117e4a465ece5fc5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:44 +0000
Subject: [PATCH 25/34] fix: tablegen ignores malformed ranges in
 CompositionExclusions.txt and DerivedNormalizationProps.txt

---
 src/libunicode/tablegen/ucd_parser.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libunicode/tablegen/ucd_parser.cpp b/src/libunicode/tablegen/ucd_parser.cpp
index 32d0ef5..d9cdd9e 100644
--- a/src/libunicode/tablegen/ucd_parser.cpp
+++ b/src/libunicode/tablegen/ucd_parser.cpp
@@ -791,6 +791,8 @@ void UcdParser::loadCompositionExclusions()
         {
             auto start = parseCodepoint(cpPart.substr(0, dotdot));
             auto end = parseCodepoint(cpPart.substr(dotdot + 2));
+            if (end > 0x10FFFF) // malformed, see parseStandardLine()
+                continue;
             for (auto cp = start; cp <= end; ++cp)
                 _compositionExclusions.insert(cp);
         }
@@ -847,6 +849,8 @@ void UcdParser::loadDerivedNormalizationProps()
         {
             auto start = parseCodepoint(cpPart.substr(0, dotdot));
             auto end = parseCodepoint(cpPart.substr(dotdot + 2));
+            if (end > 0x10FFFF) // malformed, see parseStandardLine()
+                continue;
             for (auto cp = start; cp <= end; ++cp)
                 codepoints.push_back(cp);
         }
-- 
2.43.0


From 70cac67033f6698d56827ce964391a7829096aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:21 +0000
Subject: [PATCH 26/34] fix: sort runs of combining marks in less than
 quadratic time

Canonical ordering used an insertion sort over each run of combining marks, so a
text of n marks in descending order of their classes took n*n/2 swaps.
---
 src/libunicode/normalization.cpp | 26 +++++++++-----------------
 1 file changed, 9 insertions(+), 17 deletions(-)

diff --git a/src/libunicode/normalization.cpp b/src/libunicode/normalization.cpp
index 3d4055d..29339bf 100644
--- a/src/libunicode/normalization.cpp
+++ b/src/libunicode/normalization.cpp
@@ -176,25 +176,17 @@ namespace
     // Canonical ordering of combining marks
     void canonical_order(std::u32string& text)
     {
-        if (text.size() < 2)
-            return;
+        auto const by_ccc = [](char32_t a, char32_t b) { return canonical_combining_class(a) < canonical_combining_class(b); };
+        auto const is_mark = [](char32_t codepoint) { return canonical_combining_class(codepoint) != 0; };
 
-        // Bubble sort adjacent combining marks by CCC (stable)
-        for (size_t i = 1; i < text.size(); ++i)
+        // Sort each run of combining marks by CCC (stable)
+        for (auto first = text.begin(); first != text.end();)
         {
-            auto const ccc_i = canonical_combining_class(text[i]);
-            if (ccc_i == 0)
-                continue; // Starter, no reordering needed
-
-            size_t j = i;
-            while (j > 0)
-            {
-                auto const ccc_prev = canonical_combining_class(text[j - 1]);
-                if (ccc_prev == 0 || ccc_prev <= ccc_i)
-                    break;
-                std::swap(text[j - 1], text[j]);
-                --j;
-            }
+            first = std::find_if(first, text.end(), is_mark);
+            auto const last = std::find_if_not(first, text.end(), is_mark);
+            if (!std::is_sorted(first, last, by_ccc))
+                std::stable_sort(first, last, by_ccc);
+            first = last;
         }
     }
 
-- 
2.43.0


From 7df1849a4b2f2d451ed0e50888ac049e29ddba1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:27 +0000
Subject: [PATCH 27/34] fix: guard utf8_grapheme_segmenter.h against repeated
 inclusion

A unit that included it twice, directly or through headers of its own, did not compile.
---
 src/libunicode/utf8_grapheme_segmenter.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libunicode/utf8_grapheme_segmenter.h b/src/libunicode/utf8_grapheme_segmenter.h
index 462e567..291644b 100644
--- a/src/libunicode/utf8_grapheme_segmenter.h
+++ b/src/libunicode/utf8_grapheme_segmenter.h
@@ -11,6 +11,8 @@
  * See the License for the specific language governing permissions and
  * limitations under the License.
  */
+#pragma once
+
 #include <libunicode/convert.h>
 #include <libunicode/grapheme_segmenter.h>
 #include <libunicode/utf8.h>
-- 
2.43.0


From 731d5fda33254dc82d9a7b9ab5136a0b5114adcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:48 +0000
Subject: [PATCH 28/34] fix: out<T> can be constructed from a
 std::reference_wrapper

---
 src/libunicode/support.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libunicode/support.h b/src/libunicode/support.h
index aef6926..fdc2614 100644
--- a/src/libunicode/support.h
+++ b/src/libunicode/support.h
@@ -37,7 +37,7 @@ template <typename T>
 class out
 {
   public:
-    constexpr out(std::reference_wrapper<T> ref) noexcept: _ref { &ref.value() } {}
+    constexpr out(std::reference_wrapper<T> ref) noexcept: _ref { &ref.get() } {}
     constexpr explicit out(T& ref) noexcept: _ref { &ref } {}
     constexpr out(out const&) noexcept = default;
     constexpr out(out&&) noexcept = default;
-- 
2.43.0


From c55c74223f9df423e522bc35a358e2ea186e51d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:52 +0000
Subject: [PATCH 29/34] fix: fs_array: mutable front() and back(), resize() to
 the capacity, elements stay alive after clear()

---
 src/libunicode/support.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/libunicode/support.h b/src/libunicode/support.h
index fdc2614..00697c9 100644
--- a/src/libunicode/support.h
+++ b/src/libunicode/support.h
@@ -74,7 +74,7 @@ class fs_array
     constexpr void clear() noexcept
     {
         for (size_t i = 0; i < size_; ++i)
-            values_[i].~T();
+            values_[i] = T {};
         size_ = 0;
     }
 
@@ -92,7 +92,7 @@ class fs_array
 
     constexpr void resize(size_t n) noexcept
     {
-        if (n < N)
+        if (n <= N)
             size_ = n;
     }
 
@@ -116,10 +116,10 @@ class fs_array
     constexpr T* data() noexcept { return values_.data(); }
     constexpr T const* data() const noexcept { return values_.data(); }
 
-    constexpr T& front() noexcept { return at(0); }
+    constexpr T& front() noexcept { return values_.at(0); }
     constexpr T const& front() const noexcept { return at(0); }
 
-    constexpr T& back() noexcept { return at(size_ - 1); }
+    constexpr T& back() noexcept { return values_.at(size_ - 1); }
     constexpr T const& back() const noexcept { return at(size_ - 1); }
 
   private:
-- 
2.43.0


From 9174ffeb3868ca9ed22f3b7314e4133dd8b0d210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:53 +0000
Subject: [PATCH 30/34] fix: script_segmenter measured NUL-terminated text by a
 member call before its own construction

---
 src/libunicode/script_segmenter.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libunicode/script_segmenter.h b/src/libunicode/script_segmenter.h
index b19d16f..b10aa3d 100644
--- a/src/libunicode/script_segmenter.h
+++ b/src/libunicode/script_segmenter.h
@@ -68,7 +68,7 @@ class script_segmenter
     using ScriptSet = fs_array<Script, 32>;
 
     /// constexpr-version of strlen for UTF-32 strings
-    constexpr size_t getStringLength(char32_t const* data) noexcept
+    static constexpr size_t getStringLength(char32_t const* data) noexcept
     {
         size_t n = 0;
         while (data && *data)
-- 
2.43.0


From 825991c6b844ffa7747063c7d701c2ba856ad269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:21 +0000
Subject: [PATCH 31/34] fix: codepoint_properties can be compared in constant
 expressions

---
 src/libunicode/codepoint_properties.h | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/libunicode/codepoint_properties.h b/src/libunicode/codepoint_properties.h
index 64ff591..c12ca13 100644
--- a/src/libunicode/codepoint_properties.h
+++ b/src/libunicode/codepoint_properties.h
@@ -77,6 +77,8 @@ struct LIBUNICODE_PACKED codepoint_properties
     /// stack a consonant onto the previous one, so they still widen the cluster.
     constexpr bool is_virama() const noexcept { return flags & FlagVirama; }
 
+    constexpr bool operator==(codepoint_properties const&) const noexcept = default;
+
     using tables_view = support::multistage_table_view<codepoint_properties,
                                                        uint32_t,     // source type
                                                        uint8_t,      // stage 1
@@ -104,14 +106,4 @@ struct LIBUNICODE_PACKED codepoint_properties
 
 static_assert(std::has_unique_object_representations_v<codepoint_properties>);
 
-constexpr bool operator==(codepoint_properties const& a, codepoint_properties const& b) noexcept
-{
-    return __builtin_memcmp(&a, &b, sizeof(codepoint_properties)) == 0;
-}
-
-constexpr bool operator!=(codepoint_properties const& a, codepoint_properties const& b) noexcept
-{
-    return !(a == b);
-}
-
 } // namespace unicode
-- 
2.43.0


From 2e52f729a7bad414ab6195976da16721afd0390f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:05 +0000
Subject: [PATCH 32/34] fix: tablegen took a read error for the end of a UCD
 file

---
 src/libunicode/tablegen/ucd_parser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libunicode/tablegen/ucd_parser.cpp b/src/libunicode/tablegen/ucd_parser.cpp
index d9cdd9e..4b66f30 100644
--- a/src/libunicode/tablegen/ucd_parser.cpp
+++ b/src/libunicode/tablegen/ucd_parser.cpp
@@ -60,6 +60,7 @@ namespace
         auto f = std::ifstream(path);
         if (!f.is_open())
             throw std::runtime_error("Failed to open file: " + path);
+        f.exceptions(std::ios::badbit); // a read error is not the end of the file
         return f;
     }
     /// Parsed result from a standard UCD data line.
-- 
2.43.0


From 9e24538f2ad2e7f754e6a34330962413ed494eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:05 +0000
Subject: [PATCH 33/34] fix: tablegen reported success although its files could
 not be written

---
 src/libunicode/tablegen/case_norm_generator.cpp  |  4 +++-
 src/libunicode/tablegen/enum_generator.cpp       | 12 +++++++++---
 src/libunicode/tablegen/enum_utils.h             | 10 ++++++++++
 src/libunicode/tablegen/multistage_generator.cpp |  4 ++++
 src/libunicode/tablegen/ucd_api_generator.cpp    |  9 +++++++--
 5 files changed, 33 insertions(+), 6 deletions(-)

diff --git a/src/libunicode/tablegen/case_norm_generator.cpp b/src/libunicode/tablegen/case_norm_generator.cpp
index cca3a56..21e1282 100644
--- a/src/libunicode/tablegen/case_norm_generator.cpp
+++ b/src/libunicode/tablegen/case_norm_generator.cpp
@@ -291,7 +291,8 @@ namespace
 
 void generateCaseNormFile(UcdParser const& parser, std::string const& outputDir)
 {
-    auto out = std::ofstream(outputDir + "/case_normalization_data.h", std::ios::binary);
+    auto const path = outputDir + "/case_normalization_data.h";
+    auto out = std::ofstream(path, std::ios::binary);
 
     out << licenseHeader;
     out << R"(
@@ -367,6 +368,7 @@ namespace unicode::detail
     out << "// clang-format on\n";
     out << "\n";
     out << "} // namespace unicode::detail\n";
+    closeOutput(out, path);
 }
 
 } // namespace tablegen
diff --git a/src/libunicode/tablegen/enum_generator.cpp b/src/libunicode/tablegen/enum_generator.cpp
index 86b451a..2beb091 100644
--- a/src/libunicode/tablegen/enum_generator.cpp
+++ b/src/libunicode/tablegen/enum_generator.cpp
@@ -234,7 +234,8 @@ void generateEnumFiles(UcdParser const& parser, std::string const& outputDir)
 
     // ---- ucd_enums.h ----
     {
-        auto out = std::ofstream(outputDir + "/ucd_enums.h", std::ios::binary);
+        auto const path = outputDir + "/ucd_enums.h";
+        auto out = std::ofstream(path, std::ios::binary);
         out << licenseHeader;
         out << "#pragma once\n";
         out << "\n";
@@ -244,11 +245,13 @@ void generateEnumFiles(UcdParser const& parser, std::string const& outputDir)
         for (auto const& def: enums)
             writeEnumClass(out, def);
         out << "} // namespace unicode\n";
+        closeOutput(out, path);
     }
 
     // ---- ucd_ostream.h ----
     {
-        auto out = std::ofstream(outputDir + "/ucd_ostream.h", std::ios::binary);
+        auto const path = outputDir + "/ucd_ostream.h";
+        auto out = std::ofstream(path, std::ios::binary);
         out << licenseHeader;
         out << "#pragma once\n";
         out << "\n";
@@ -260,11 +263,13 @@ void generateEnumFiles(UcdParser const& parser, std::string const& outputDir)
         for (auto const& def: enums)
             writeEnumOstream(out, def);
         out << "} // namespace unicode\n";
+        closeOutput(out, path);
     }
 
     // ---- ucd_fmt.h ----
     {
-        auto out = std::ofstream(outputDir + "/ucd_fmt.h", std::ios::binary);
+        auto const path = outputDir + "/ucd_fmt.h";
+        auto out = std::ofstream(path, std::ios::binary);
         out << licenseHeader;
         out << "#pragma once\n";
         out << "\n";
@@ -274,6 +279,7 @@ void generateEnumFiles(UcdParser const& parser, std::string const& outputDir)
         out << "\n";
         for (auto const& def: enums)
             writeEnumFormatter(out, def);
+        closeOutput(out, path);
     }
 }
 
diff --git a/src/libunicode/tablegen/enum_utils.h b/src/libunicode/tablegen/enum_utils.h
index 77e5789..12a5876 100644
--- a/src/libunicode/tablegen/enum_utils.h
+++ b/src/libunicode/tablegen/enum_utils.h
@@ -15,8 +15,10 @@
 
 #include <algorithm>
 #include <cstdint>
+#include <fstream>
 #include <map>
 #include <set>
+#include <stdexcept>
 #include <string>
 #include <string_view>
 #include <vector>
@@ -40,6 +42,14 @@ constexpr std::string_view licenseHeader = R"(/**
 */
 )";
 
+/// Closes a generated file. Reports it if the file could not be opened or not be written completely.
+inline void closeOutput(std::ofstream& out, std::string const& path)
+{
+    out.close();
+    if (!out)
+        throw std::runtime_error("Failed to write file: " + path);
+}
+
 /// Build name -> enum integer index map for a given enum, using the exact same
 /// member ordering as the generated ucd_enums.h.
 ///
diff --git a/src/libunicode/tablegen/multistage_generator.cpp b/src/libunicode/tablegen/multistage_generator.cpp
index 5c58c09..97fd0aa 100644
--- a/src/libunicode/tablegen/multistage_generator.cpp
+++ b/src/libunicode/tablegen/multistage_generator.cpp
@@ -727,6 +727,10 @@ void generateMultistageFiles(UcdParser const& parser, std::string const& outputD
     namesFile << "} // end namespace " << namespaceName << "\n";
 
     header << "\n} // end namespace " << namespaceName << "\n";
+
+    closeOutput(header, headerPath);
+    closeOutput(impl, implPath);
+    closeOutput(namesFile, namesPath);
 }
 
 } // namespace tablegen
diff --git a/src/libunicode/tablegen/ucd_api_generator.cpp b/src/libunicode/tablegen/ucd_api_generator.cpp
index 7cfd1d2..5615d4e 100644
--- a/src/libunicode/tablegen/ucd_api_generator.cpp
+++ b/src/libunicode/tablegen/ucd_api_generator.cpp
@@ -103,8 +103,10 @@ namespace
 
 void generateUcdApiFiles(UcdParser const& parser, std::string const& outputDir)
 {
-    auto header = std::ofstream(outputDir + "/ucd.h", std::ios::binary);
-    auto impl = std::ofstream(outputDir + "/ucd.cpp", std::ios::binary);
+    auto const headerPath = outputDir + "/ucd.h";
+    auto const implPath = outputDir + "/ucd.cpp";
+    auto header = std::ofstream(headerPath, std::ios::binary);
+    auto impl = std::ofstream(implPath, std::ios::binary);
 
     // ---- File headers ----
     header << licenseHeader;
@@ -614,6 +616,9 @@ namespace unicode
     // ---- File footers ----
     header << "} // namespace unicode\n";
     impl << "} // namespace unicode\n";
+
+    closeOutput(header, headerPath);
+    closeOutput(impl, implPath);
 }
 
 } // namespace tablegen
-- 
2.43.0


From 25cc5ab75b2ffd8b789204db012145ca748a6f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:59:13 +0000
Subject: [PATCH 34/34] fix: scan_text() does not hand over the cluster it puts
 back

When a cluster begun by an earlier call grew past the column limit, the scan put
it back but still delivered the bytes read so far of it to the receiver, because
the restored UTF-8 state made it use the start of the last sequence as its end.
---
 src/libunicode/scan.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libunicode/scan.cpp b/src/libunicode/scan.cpp
index 12f43f2..4ec5d63 100644
--- a/src/libunicode/scan.cpp
+++ b/src/libunicode/scan.cpp
@@ -242,6 +242,7 @@ namespace
                         // call contributed to it.
                         count -= clusterWidthCountedHere;
                         input = clusterStart;
+                        sequenceStart = clusterStart;
                         resultEnd = clusterStart == start ? resultStart : clusterStart;
                         state = clusterStartState;
                         break;
-- 
2.43.0

