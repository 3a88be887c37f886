From 2951d291e1c10ac1ca7247020ca9ac49f24565d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:24 +0000
Subject: [PATCH 01/17] fix: keep the full accumulated cost in the Viterbi pass

The accumulated cost of a node was cut off at 1<<31-1, so that in long inputs
(some 100,000 tokens) all costs were equal, unreachable nodes included: the
result was no longer a least-cost path and could lose the whole text before an
unreachable user word.
---
 tokenizer/lattice/lattice.go | 27 ++++++++++++++++++++-------
 tokenizer/lattice/node.go    |  1 +
 2 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/tokenizer/lattice/lattice.go b/tokenizer/lattice/lattice.go
index aab4eea..7efb0e3 100644
--- a/tokenizer/lattice/lattice.go
+++ b/tokenizer/lattice/lattice.go
@@ -13,6 +13,8 @@ import (
 
 const (
 	maximumCost              = 1<<31 - 1
+	minimumCost              = -1 << 31
+	unreachableCost          = 1 << 62
 	maximumUnknownWordLength = 1024
 	searchModeKanjiLength    = 2
 	searchModeKanjiPenalty   = 3000
@@ -90,6 +92,7 @@ func (la *Lattice) addNode(pos, id, position, start int, class NodeClass, surfac
 	n.Start = start
 	n.Class = class
 	n.Cost = 0
+	n.total = 0
 	n.Left, n.Right, n.Weight = int32(m.LeftID), int32(m.RightID), int32(m.Weight)
 	n.Surface = surface
 	n.prev = nil
@@ -209,6 +212,17 @@ func additionalCost(n *Node) int {
 	return 0
 }
 
+// clampCost limits a total cost to the range of the cost of a node.
+func clampCost(c int64) int32 {
+	if c > maximumCost {
+		return maximumCost
+	}
+	if c < minimumCost {
+		return minimumCost
+	}
+	return int32(c)
+}
+
 // Forward runs forward algorithm of the Viterbi.
 func (la *Lattice) Forward(m TokenizeMode) {
 	for i, size := 1, len(la.list); i < size; i++ {
@@ -216,7 +230,8 @@ func (la *Lattice) Forward(m TokenizeMode) {
 		for index, target := range currentList {
 			prevList := la.list[target.Start]
 			if len(prevList) == 0 {
-				la.list[i][index].Cost = maximumCost
+				target.total = unreachableCost
+				target.Cost = maximumCost
 				continue
 			}
 			for j, n := range prevList {
@@ -224,15 +239,13 @@ func (la *Lattice) Forward(m TokenizeMode) {
 				if n.Class != USER && target.Class != USER {
 					c = la.dic.Connection.At(int(n.Right), int(target.Left))
 				}
-				totalCost := int64(c) + int64(target.Weight) + int64(n.Cost)
+				totalCost := int64(c) + int64(target.Weight) + n.total
 				if m != Normal {
 					totalCost += int64(additionalCost(n))
 				}
-				if totalCost > maximumCost {
-					totalCost = maximumCost
-				}
-				if j == 0 || int32(totalCost) < la.list[i][index].Cost {
-					la.list[i][index].Cost = int32(totalCost)
+				if j == 0 || totalCost < la.list[i][index].total {
+					la.list[i][index].total = totalCost
+					la.list[i][index].Cost = clampCost(totalCost)
 					la.list[i][index].prev = la.list[target.Start][j]
 				}
 			}
diff --git a/tokenizer/lattice/node.go b/tokenizer/lattice/node.go
index 00d5d07..d78a9d9 100644
--- a/tokenizer/lattice/node.go
+++ b/tokenizer/lattice/node.go
@@ -45,6 +45,7 @@ type Node struct {
 	Weight   int32
 	Surface  string
 	prev     *Node
+	total    int64 // accumulated cost; Cost is this value limited to int32
 }
 
 var nodePool = mem.NewPool[Node](func() *Node {
-- 
2.43.0


From 37655533595d1904393b401da35e0276b693e789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:42 +0000
Subject: [PATCH 02/17] fix: take the true width of U+FFFD when building
 unknown words

A well-formed U+FFFD was taken for a broken byte of width 1. The rest of the
character was lost if its character category does not group.
---
 tokenizer/lattice/lattice.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/tokenizer/lattice/lattice.go b/tokenizer/lattice/lattice.go
index 7efb0e3..2f5a357 100644
--- a/tokenizer/lattice/lattice.go
+++ b/tokenizer/lattice/lattice.go
@@ -140,12 +140,9 @@ func (la *Lattice) Build(inp string) {
 		// (3) UNKNOWN DIC
 		class := la.dic.CharacterCategory(ch)
 		if !anyMatches || la.dic.InvokeList[int(class)] {
-			var endPos int
-			if ch != utf8.RuneError {
-				endPos = pos + utf8.RuneLen(ch)
-			} else {
-				endPos = pos + 1
-			}
+			// a broken byte has the width 1, whereas U+FFFD in the input has the width 3.
+			_, width := utf8.DecodeRuneInString(inp[pos:])
+			endPos := pos + width
 			unkWordLen := 1
 			if la.dic.GroupList[int(class)] {
 				for i, w, size := endPos, 0, len(inp); i < size; i += w {
-- 
2.43.0


From 40ce3b397e5fe544635a0ede97b3d7f7a7f5e81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:51 +0000
Subject: [PATCH 03/17] fix: keep broken bytes as they are in the extended mode

The unigrams of an unknown word replaced every broken byte by U+FFFD, so that
the surfaces were no longer a part of the input.
---
 tokenizer/lattice/lattice.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tokenizer/lattice/lattice.go b/tokenizer/lattice/lattice.go
index 2f5a357..7342cbe 100644
--- a/tokenizer/lattice/lattice.go
+++ b/tokenizer/lattice/lattice.go
@@ -263,16 +263,16 @@ func (la *Lattice) Backward(m TokenizeMode) {
 		}
 		runeLen := utf8.RuneCountInString(p.Surface)
 		stack := make([]*Node, 0, runeLen)
-		i := 0
-		for k, r := range p.Surface {
+		for i, k := 0, 0; k < len(p.Surface); i++ {
+			_, w := utf8.DecodeRuneInString(p.Surface[k:])
 			stack = append(stack, &Node{
 				ID:       p.ID,
 				Start:    p.Start + i,
 				Class:    DUMMY,
-				Surface:  string(r),
+				Surface:  p.Surface[k : k+w],
 				Position: p.Position + k,
 			})
-			i++
+			k += w
 		}
 		for j, end := 0, len(stack); j < end; j++ {
 			la.Output = append(la.Output, stack[runeLen-1-j])
-- 
2.43.0


From 5ada3cf45108ecf80c320505a84d8c7e0b125c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:08 +0000
Subject: [PATCH 04/17] fix: escape the labels of the exported lattice graph

A quotation mark or backslash in a surface or part of speech made the graph
invalid, and let the input add attributes and statements to it.
---
 tokenizer/lattice/lattice.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tokenizer/lattice/lattice.go b/tokenizer/lattice/lattice.go
index 7342cbe..9d144af 100644
--- a/tokenizer/lattice/lattice.go
+++ b/tokenizer/lattice/lattice.go
@@ -316,6 +316,10 @@ func posFeature(d *dict.Dict, u *dict.UserDict, t *Node) string {
 	return strings.Join(ret, "/")
 }
 
+// dotEscaper escapes the characters which have a meaning in a quoted label of the dot format.
+// The format cannot represent NUL.
+var dotEscaper = strings.NewReplacer(`\`, `\\`, `"`, `\"`, "\x00", "\uFFFD")
+
 // Dot outputs a lattice in the graphviz dot format.
 //
 //nolint:gocyclo
@@ -371,7 +375,8 @@ func (la *Lattice) Dot(w io.Writer) {
 					surf = "EOS"
 				}
 			}
-			pos := posFeature(la.dic, la.udic, n)
+			surf = dotEscaper.Replace(surf)
+			pos := dotEscaper.Replace(posFeature(la.dic, la.udic, n))
 			if _, ok := bests[n]; ok {
 				fmt.Fprintf(w, "\t\"%p\" [label=\"%s\\n%s\\n%d\",shape=ellipse, peripheries=2];\n", n, surf, pos, n.Weight)
 			} else if n.Class != UNKNOWN {
-- 
2.43.0


From 2a3d1466b5e3956a885d875b82b28a86de68a920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:17 +0000
Subject: [PATCH 05/17] fix: do not hang in the demo if graphviz ends without
 reading its input

The lattice was written into a pipe which nobody reads any more when the dot
command has ended early (a syntax error, for example), so the request blocked
for ever and left its goroutines behind.
---
 cmd/server/demo.go | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/cmd/server/demo.go b/cmd/server/demo.go
index d022d74..0a16576 100644
--- a/cmd/server/demo.go
+++ b/cmd/server/demo.go
@@ -7,7 +7,6 @@ import (
 	"errors"
 	"fmt"
 	"html/template"
-	"io"
 	"net/http"
 	"os/exec"
 	"strings"
@@ -83,22 +82,16 @@ func (h *TokenizeDemoHandler) analyzeGraph(ctx context.Context, sen string, mode
 	if _, err := exec.LookPath(graphvizCmd); err != nil {
 		return nil, "", errors.New("circo/graphviz is not installed in your $PATH")
 	}
+	var graph bytes.Buffer
+	tokens := h.tokenizer.AnalyzeGraph(&graph, sen, mode)
 	ctx, cancel := context.WithTimeout(ctx, cmdTimeout)
 	defer cancel()
 	var b bytes.Buffer
 	cmd := exec.CommandContext(ctx, graphvizCmd, "-Tsvg")
-	r0, w0 := io.Pipe()
-	cmd.Stdin = r0
+	cmd.Stdin = &graph
 	cmd.Stdout = &b
 	cmd.Stderr = Stderr
-	if err := cmd.Start(); err != nil {
-		return nil, "", fmt.Errorf("process done with error, %w", err)
-	}
-	tokens := h.tokenizer.AnalyzeGraph(w0, sen, mode)
-	if err := w0.Close(); err != nil {
-		return nil, "", fmt.Errorf("pipe close error, %w", err)
-	}
-	if err := cmd.Wait(); err != nil {
+	if err := cmd.Run(); err != nil {
 		return nil, "", fmt.Errorf("process done with error, %w", err)
 	}
 	svg = b.String()
-- 
2.43.0


From 0db73bf8379bf7bd8a5b71455a0af1a7e9d41c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:49 +0000
Subject: [PATCH 06/17] fix: reply to a malformed API request with valid JSON

The text of the error was put between quotation marks as it is, but it often
contains quotation marks itself.
---
 cmd/server/api.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/cmd/server/api.go b/cmd/server/api.go
index 50cce3a..c17b97a 100644
--- a/cmd/server/api.go
+++ b/cmd/server/api.go
@@ -25,11 +25,20 @@ type TokenizerResponseBody struct {
 	Tokens []tokenizer.TokenData `json:"tokens"`
 }
 
+// errorBody returns the response body of an error.
+func errorBody(err error) string {
+	msg, e := json.Marshal(err.Error())
+	if e != nil {
+		msg = []byte(`""`)
+	}
+	return fmt.Sprintf("{\"status\":false,\"error\":%s}", msg)
+}
+
 func (h *TokenizeHandler) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 	w.Header().Set("Content-Type", "application/json")
 	var req TokenizerRequestBody
 	if err := json.NewDecoder(r.Body).Decode(&req); err != nil {
-		http.Error(w, fmt.Sprintf("{\"status\":false,\"error\":\"%v\"}", err), http.StatusBadRequest)
+		http.Error(w, errorBody(err), http.StatusBadRequest)
 		return
 	}
 	if req.Input == "" {
@@ -56,7 +65,7 @@ func (h *TokenizeHandler) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 		Tokens: tokenData,
 	})
 	if err != nil {
-		http.Error(w, fmt.Sprintf("{\"status\":false,\"error\":\"%v\"}", err), http.StatusInternalServerError)
+		http.Error(w, errorBody(err), http.StatusInternalServerError)
 		return
 	}
 	w.WriteHeader(http.StatusOK)
-- 
2.43.0


From aedc3279f69cc4ed654f660c951ae2f665a6954a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:21 +0000
Subject: [PATCH 07/17] fix: shut the HTTP server down when it is cancelled

The server was never closed: a cancelled server kept its port and went on
serving, and at the end of the process requests in progress were cut off.
---
 cmd/server/cmd.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/cmd/server/cmd.go b/cmd/server/cmd.go
index cb7b7a9..9b93b69 100644
--- a/cmd/server/cmd.go
+++ b/cmd/server/cmd.go
@@ -2,6 +2,7 @@ package server
 
 import (
 	"context"
+	"errors"
 	"flag"
 	"fmt"
 	"io"
@@ -28,6 +29,9 @@ var (
 	usageMessage = "%s [-http=:6060] [-userdict userdic_file] [-dict (ipa|uni)]"
 )
 
+// shutdownTimeout is how long to wait for the requests in progress.
+const shutdownTimeout = 30 * time.Second
+
 // options
 type option struct {
 	http    string
@@ -110,7 +114,7 @@ func command(ctx context.Context, opt *option) error {
 		Handler:           mux,
 		ReadHeaderTimeout: 20 * time.Second,
 	}
-	ch := make(chan error)
+	ch := make(chan error, 1)
 	go func() {
 		log.Println(opt.http)
 		ch <- srv.ListenAndServe()
@@ -123,7 +127,15 @@ func command(ctx context.Context, opt *option) error {
 		return fmt.Errorf("server error, %w", err)
 	}
 	log.Printf("shutting down HTTP server at %q", opt.http)
-
+	sctx, cancel := context.WithTimeout(context.Background(), shutdownTimeout)
+	defer cancel()
+	if err := srv.Shutdown(sctx); err != nil {
+		srv.Close()
+		return fmt.Errorf("shutdown error, %w", err)
+	}
+	if err := <-ch; !errors.Is(err, http.ErrServerClosed) {
+		return fmt.Errorf("server error, %w", err)
+	}
 	return nil
 }
 
-- 
2.43.0


From 3dac72c8d1d5a16302c4cc69a97e0aa22b704009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:45 +0000
Subject: [PATCH 08/17] fix: do not mix wildcard and exact patterns of a
 features filter

Adding a pattern followed a wildcard edge for any feature, and matching took
the first matching edge only, so that {Any, b} with {a, c} matched [x, c], and
{a, c} with {Any, b} did not match [a, b].
---
 filter/feature.go | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/filter/feature.go b/filter/feature.go
index 0be5376..4a09e01 100644
--- a/filter/feature.go
+++ b/filter/feature.go
@@ -31,13 +31,28 @@ func (n filterNode) isLeaf() bool {
 
 func (n filterNode) has(s Feature) int {
 	for i, v := range n.fanout {
-		if v.val == Any || v.val == s {
+		if v.val == s {
 			return i
 		}
 	}
 	return -1
 }
 
+func (n filterNode) match(fs Features) bool {
+	if len(fs) == 0 {
+		return false
+	}
+	for _, v := range n.fanout {
+		if v.val != Any && v.val != fs[0] {
+			continue
+		}
+		if v.to.isLeaf() || v.to.match(fs[1:]) {
+			return true
+		}
+	}
+	return false
+}
+
 // FeaturesFilter represents a filter that filters a vector of features.
 type FeaturesFilter struct {
 	root filterNode
@@ -77,18 +92,7 @@ func (f *FeaturesFilter) add(fs Features) {
 
 // Match returns true if a filter matches given features.
 func (f *FeaturesFilter) Match(fs Features) bool {
-	n := &f.root
-	for _, v := range fs {
-		if k := n.has(v); k >= 0 {
-			n = n.fanout[k].to
-			if n.isLeaf() {
-				return true
-			}
-			continue
-		}
-		return false
-	}
-	return false
+	return f.root.match(fs)
 }
 
 // String implements string interface.
-- 
2.43.0


From 337d2e199dbf32c59f5026deb23d1cb4b75085cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:00 +0000
Subject: [PATCH 09/17] fix: make sentence splitting independent of how the
 input is delivered

Characters cut by the end of the buffer were broken or lost, line feeds and
followers at the end of the buffer were forgotten, long white spaces made the
scanner fail, white space at the end of the input could give an empty sentence,
and two line feeds counted as consecutive with text between them.
---
 filter/sentence_splitter.go | 49 +++++++++++++++++++++++++++++--------
 1 file changed, 39 insertions(+), 10 deletions(-)

diff --git a/filter/sentence_splitter.go b/filter/sentence_splitter.go
index 3f41dc9..5a7dbc7 100644
--- a/filter/sentence_splitter.go
+++ b/filter/sentence_splitter.go
@@ -1,6 +1,7 @@
 package filter
 
 import (
+	"bufio"
 	"unicode"
 	"unicode/utf8"
 )
@@ -47,6 +48,22 @@ func (s SentenceSplitter) isFollower(r rune) bool {
 	return false
 }
 
+// maxPendingSize is the size of a finished sentence from which on it is not kept back any more
+// to look for following delimiters, so as not to exceed the buffer of a Scanner.
+const maxPendingSize = bufio.MaxScanTokenSize / 2
+
+// requestMore keeps what is needed to continue with more data, that is the sentence data[start:end],
+// a pending line feed and the rest data[p:], and discards white spaces.
+func requestMore(data []byte, start, end, p int, lineFeed bool) (advance int, token []byte, err error) {
+	if lineFeed && p > end {
+		p--
+		data[p] = '\n'
+	}
+	advance = p - (end - start)
+	copy(data[advance:p], data[start:end])
+	return advance, nil, nil
+}
+
 // ScanSentences is a split function for a Scanner that returns each sentence of text.
 // nolint: gocyclo
 func (s SentenceSplitter) ScanSentences(data []byte, atEOF bool) (advance int, token []byte, err error) {
@@ -54,11 +71,11 @@ func (s SentenceSplitter) ScanSentences(data []byte, atEOF bool) (advance int, t
 		return 0, nil, nil
 	}
 	var (
-		start, end, rcount int
-		head, nn           bool // nn indicates \n\n
+		p, start, end, rcount int
+		head, nn              bool // nn indicates \n\n
 	)
 	head = true
-	for p := 0; p < len(data); {
+	for p < len(data) && (atEOF || utf8.FullRune(data[p:])) {
 		r, size := utf8.DecodeRune(data[p:])
 		if s.SkipWhiteSpace && unicode.IsSpace(r) {
 			p += size
@@ -91,21 +108,29 @@ func (s SentenceSplitter) ScanSentences(data []byte, atEOF bool) (advance int, t
 				return p, data[start:end], nil
 			}
 			nn = true
+		} else {
+			nn = false
 		}
 		if !s.isDelim(r) && rcount < s.MaxRuneLen {
 			continue
 		}
 		// split
 		nn = false
-		for p < len(data) {
+		lf := false // a line feed follows the sentence
+		for p < len(data) && (atEOF || utf8.FullRune(data[p:])) {
 			r, size := utf8.DecodeRune(data[p:])
 			if s.SkipWhiteSpace && unicode.IsSpace(r) {
 				p += size
+				if r == '\n' {
+					lf = true
+				}
 				if s.DoubleLineFeedSplit && r == '\n' {
 					if nn {
 						return p, data[start:end], nil
 					}
 					nn = true
+				} else {
+					nn = false
 				}
 			} else if s.isDelim(r) || s.isFollower(r) {
 				if end != p {
@@ -115,18 +140,22 @@ func (s SentenceSplitter) ScanSentences(data []byte, atEOF bool) (advance int, t
 				}
 				p += size
 				end += size
+				nn, lf = false, false
 			} else {
-				break
+				return p, data[start:end], nil
 			}
 		}
+		if !atEOF && end-start < maxPendingSize && (p < len(data) || !lf) {
+			// More delimiters or followers may come.
+			return requestMore(data, start, end, p, nn)
+		}
 		return p, data[start:end], nil
 	}
 	if !atEOF {
-		// Request more data
-		for i := end; i < len(data); i++ {
-			data[i] = ' '
-		}
-		return start, nil, nil
+		return requestMore(data, start, end, p, nn)
+	}
+	if start == end {
+		return len(data), nil, nil
 	}
 	// If we're at EOF, we have a final, non-terminated line. Return it.
 	return len(data), data[start:end], nil
-- 
2.43.0


From ed5a8ddeaf1b6666b3aeedcee7a7de27d9e129f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:43 +0000
Subject: [PATCH 10/17] fix: print the unigrams of the extended mode also in
 JSON

The unigrams of unknown words are dummy tokens, which the JSON output skipped
together with BOS and EOS.
---
 cmd/tokenize/cmd.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/tokenize/cmd.go b/cmd/tokenize/cmd.go
index a288a9b..8dc211b 100644
--- a/cmd/tokenize/cmd.go
+++ b/cmd/tokenize/cmd.go
@@ -201,7 +201,7 @@ func printTokensJSON(tokens []tokenizer.Token) error {
 	}
 	var array [][]byte
 	for _, v := range tokens {
-		if v.Class == tokenizer.DUMMY {
+		if v.ID == tokenizer.BosEosID {
 			continue
 		}
 		r := tokenizer.NewTokenData(v)
-- 
2.43.0


From 1bbe89263fc63faf5030027d0a97296b500895ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:51 +0000
Subject: [PATCH 11/17] fix: do not drop words without a base form in the
 japanese filter

A verb or adjective whose dictionary entry has no base form (an entry of a user
dictionary or of a dictionary without contents) was lost. Its surface is used.
---
 filter/ja/filter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filter/ja/filter.go b/filter/ja/filter.go
index 30f820d..5056c6d 100644
--- a/filter/ja/filter.go
+++ b/filter/ja/filter.go
@@ -117,8 +117,8 @@ func (f Filter) Yield(tokens []tokenizer.Token) []string {
 		if f.baserForm.Match(v.POS()) {
 			if b, ok := v.BaseForm(); ok {
 				ret = append(ret, b)
+				continue
 			}
-			continue
 		}
 		ret = append(ret, v.Surface)
 	}
-- 
2.43.0


From 5b6cbfa811b0c03f6c987a47c40d1575bbaa0be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:00 +0000
Subject: [PATCH 12/17] fix: return the same tokens from graph export as from
 analysis

The tokens of AnalyzeGraph and Dot had no index and byte position, and the
option to omit BOS and EOS was ignored.
---
 tokenizer/tokenizer.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/tokenizer/tokenizer.go b/tokenizer/tokenizer.go
index 4feb38f..7359f50 100644
--- a/tokenizer/tokenizer.go
+++ b/tokenizer/tokenizer.go
@@ -150,14 +150,19 @@ func (t Tokenizer) AnalyzeGraph(w io.Writer, input string, mode TokenizeMode) []
 	tokens := make([]Token, 0, size)
 	for i := range la.Output {
 		n := la.Output[size-1-i]
+		if t.omitBosEos && n.ID == BosEosID {
+			continue
+		}
 		tok := Token{
-			ID:      n.ID,
-			Class:   TokenClass(n.Class),
-			Start:   n.Start,
-			End:     n.Start + utf8.RuneCountInString(n.Surface),
-			Surface: n.Surface,
-			dict:    t.dict,
-			udict:   t.userDict,
+			Index:    len(tokens),
+			ID:       n.ID,
+			Class:    TokenClass(n.Class),
+			Position: n.Position,
+			Start:    n.Start,
+			End:      n.Start + utf8.RuneCountInString(n.Surface),
+			Surface:  n.Surface,
+			dict:     t.dict,
+			udict:    t.userDict,
 		}
 		if tok.ID == lattice.BosEosID {
 			if i == 0 {
-- 
2.43.0


From f690fdae62bb6849455650a4d6fa2eb2ae438be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:48 +0000
Subject: [PATCH 13/17] Add an observer of the memory pools behind the build
 tag verif

---
 tokenizer/lattice/mem/hook_off.go |  6 ++++++
 tokenizer/lattice/mem/hook_on.go  | 13 +++++++++++++
 tokenizer/lattice/mem/pool.go     |  5 ++++-
 3 files changed, 23 insertions(+), 1 deletion(-)
 create mode 100644 tokenizer/lattice/mem/hook_off.go
 create mode 100644 tokenizer/lattice/mem/hook_on.go

diff --git a/tokenizer/lattice/mem/hook_off.go b/tokenizer/lattice/mem/hook_off.go
new file mode 100644
index 0000000..fa3db68
--- /dev/null
+++ b/tokenizer/lattice/mem/hook_off.go
@@ -0,0 +1,6 @@
+//go:build !verif
+
+package mem
+
+// observe does nothing. With the build tag verif it reports to the Observer.
+func observe(any, bool) {}
diff --git a/tokenizer/lattice/mem/hook_on.go b/tokenizer/lattice/mem/hook_on.go
new file mode 100644
index 0000000..dd3c237
--- /dev/null
+++ b/tokenizer/lattice/mem/hook_on.go
@@ -0,0 +1,13 @@
+//go:build verif
+
+package mem
+
+// Observer is called after an object has been taken from a pool (get is true)
+// and before it is put back (get is false). It is set before the pools are used.
+var Observer func(x any, get bool)
+
+func observe(x any, get bool) {
+	if Observer != nil {
+		Observer(x, get)
+	}
+}
diff --git a/tokenizer/lattice/mem/pool.go b/tokenizer/lattice/mem/pool.go
index 6c2f8e4..b548054 100644
--- a/tokenizer/lattice/mem/pool.go
+++ b/tokenizer/lattice/mem/pool.go
@@ -31,10 +31,13 @@ func NewPool[T any](newF func() *T) Pool[T] {
 
 // Get gets instance of T from the memory pool.
 func (p Pool[T]) Get() *T {
-	return p.internal.Get().(*T)
+	x := p.internal.Get().(*T)
+	observe(x, true)
+	return x
 }
 
 // Put puts the instance to the memory pool.
 func (p Pool[T]) Put(x *T) {
+	observe(x, false)
 	p.internal.Put(x)
 }
-- 
2.43.0


From eaa2638d27a9d6b54e8c0b827b23e59a5e1bbcfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:48 +0000
Subject: [PATCH 14/17] fix: show the tokens of the demo page as text, not as
 markup

---
 cmd/server/asset/demo.html | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/cmd/server/asset/demo.html b/cmd/server/asset/demo.html
index 7d7ce44..eb71b32 100644
--- a/cmd/server/asset/demo.html
+++ b/cmd/server/asset/demo.html
@@ -124,14 +124,11 @@
                 base = val.base_form != "" ? val.base_form : "*";
                 reading = val.reading != "" ? val.reading : "*";
                 pronoun = val.pronunciation!= "" ? val.pronunciation : "*";
-                $("#morphs").append(
-                    "<tr>"+"<td>" + val.surface + "</td>" +
-                    "<td>" + pos + "</td>"+
-                    "<td>" + base + "</td>"+
-                    "<td>" + reading + "</td>"+
-                    "<td>" + pronoun + "</td>"+
-                    "</tr>"
-                );
+                var row = $("<tr>");
+                $.each([val.surface, pos, base, reading, pronoun], function(j, v) {
+                    row.append($("<td>").text(String(v)));
+                });
+                $("#morphs").append(row);
             });
         }
     }
-- 
2.43.0


From b0b6e4ee3ed0072a7705d823ffb07a9006d090b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:08 +0000
Subject: [PATCH 15/17] fix: keep the time limit of the demo if graphviz leaves
 a process behind

A descendant of the renderer that keeps its output open made the request wait
for it beyond the time limit.
---
 cmd/server/demo.go | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/cmd/server/demo.go b/cmd/server/demo.go
index 0a16576..8ffca85 100644
--- a/cmd/server/demo.go
+++ b/cmd/server/demo.go
@@ -88,10 +88,35 @@ func (h *TokenizeDemoHandler) analyzeGraph(ctx context.Context, sen string, mode
 	defer cancel()
 	var b bytes.Buffer
 	cmd := exec.CommandContext(ctx, graphvizCmd, "-Tsvg")
-	cmd.Stdin = &graph
-	cmd.Stdout = &b
 	cmd.Stderr = Stderr
-	if err := cmd.Run(); err != nil {
+	stdin, err := cmd.StdinPipe()
+	if err != nil {
+		return nil, "", fmt.Errorf("pipe error, %w", err)
+	}
+	stdout, err := cmd.StdoutPipe()
+	if err != nil {
+		return nil, "", fmt.Errorf("pipe error, %w", err)
+	}
+	if err := cmd.Start(); err != nil {
+		return nil, "", fmt.Errorf("process done with error, %w", err)
+	}
+	go func() {
+		_, _ = graph.WriteTo(stdin)
+		_ = stdin.Close()
+	}()
+	done := make(chan struct{})
+	go func() {
+		defer close(done)
+		_, _ = b.ReadFrom(stdout)
+	}()
+	// A descendant of the process may keep the pipes open, so do not wait for their end beyond the time limit.
+	select {
+	case <-done:
+	case <-ctx.Done():
+	}
+	err = cmd.Wait() // closes the pipes
+	<-done
+	if err != nil {
 		return nil, "", fmt.Errorf("process done with error, %w", err)
 	}
 	svg = b.String()
-- 
2.43.0


From b61d6014130f547b92910e8b5cb33da58146ffb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:55 +0000
Subject: [PATCH 16/17] fix: show the tokens of the WebAssembly demo as text,
 not as markup

---
 _examples/wasm/kagome.html | 13 +++++--------
 docs/index.html            | 13 +++++--------
 2 files changed, 10 insertions(+), 16 deletions(-)

diff --git a/_examples/wasm/kagome.html b/_examples/wasm/kagome.html
index 00d1900..620a9fa 100644
--- a/_examples/wasm/kagome.html
+++ b/_examples/wasm/kagome.html
@@ -123,14 +123,11 @@
         $.each(ret, function(i, val) {
             console.log(val);
             var pos = "*", base = "*", reading = "*", pronoun = "*";
-            $("#morphs").append(
-                "<tr>"+"<td>" + val.surface_form + "</td>" +
-                "<td>" + val.pos + "</td>"+
-                "<td>" + val.base_form + "</td>"+
-                "<td>" + val.reading + "</td>"+
-                "<td>" + val.pronunciation + "</td>"+
-                "</tr>"
-            );
+            var row = $("<tr>");
+            $.each([val.surface_form, val.pos, val.base_form, val.reading, val.pronunciation], function(_, text) {
+                row.append($("<td>").text(text));
+            });
+            $("#morphs").append(row);
         });
     }
 </script>
diff --git a/docs/index.html b/docs/index.html
index 00d1900..620a9fa 100644
--- a/docs/index.html
+++ b/docs/index.html
@@ -123,14 +123,11 @@
         $.each(ret, function(i, val) {
             console.log(val);
             var pos = "*", base = "*", reading = "*", pronoun = "*";
-            $("#morphs").append(
-                "<tr>"+"<td>" + val.surface_form + "</td>" +
-                "<td>" + val.pos + "</td>"+
-                "<td>" + val.base_form + "</td>"+
-                "<td>" + val.reading + "</td>"+
-                "<td>" + val.pronunciation + "</td>"+
-                "</tr>"
-            );
+            var row = $("<tr>");
+            $.each([val.surface_form, val.pos, val.base_form, val.reading, val.pronunciation], function(_, text) {
+                row.append($("<td>").text(text));
+            });
+            $("#morphs").append(row);
         });
     }
 </script>
-- 
2.43.0


From 344cf2a2fce852554435babc74215c75dbb924aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:55 +0000
Subject: [PATCH 17/17] fix: report output that cannot be written

---
 cmd/lattice/cmd.go | 16 +++++++++++-----
 kagome.go          | 23 ++++++++++++++++++++++-
 2 files changed, 33 insertions(+), 6 deletions(-)

diff --git a/cmd/lattice/cmd.go b/cmd/lattice/cmd.go
index dee8c70..da97ed4 100644
--- a/cmd/lattice/cmd.go
+++ b/cmd/lattice/cmd.go
@@ -1,6 +1,7 @@
 package lattice
 
 import (
+	"bufio"
 	"context"
 	"errors"
 	"flag"
@@ -119,20 +120,25 @@ func command(_ context.Context, opt *option) error {
 	if err != nil {
 		return err
 	}
-	out := Stdout
+	dst, closeOutput := Stdout, func() error { return nil }
 	if opt.output != "" {
 		f, err := os.OpenFile(opt.output, os.O_RDWR|os.O_TRUNC|os.O_CREATE, 0o600)
 		if err != nil {
 			return err
 		}
-		defer func() {
-			f.Close()
-		}()
-		out = f
+		dst, closeOutput = f, f.Close
 	}
+	out := bufio.NewWriter(dst)
 
 	mode := selectMode(opt.mode)
 	tokens := t.AnalyzeGraph(out, opt.input, mode)
+	err = out.Flush()
+	if e := closeOutput(); err == nil {
+		err = e
+	}
+	if err != nil {
+		return err
+	}
 	if opt.verbose {
 		for i, size := 1, len(tokens); i < size; i++ {
 			tok := tokens[i]
diff --git a/kagome.go b/kagome.go
index 6b06007..12a98b8 100644
--- a/kagome.go
+++ b/kagome.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"flag"
 	"fmt"
+	"io"
 	"os"
 	"path/filepath"
 	"runtime/debug"
@@ -114,6 +115,20 @@ func PrintDefaults() {
 	}
 }
 
+// checkedWriter remembers the first error of the underlying writer.
+type checkedWriter struct {
+	io.Writer
+	err error
+}
+
+func (w *checkedWriter) Write(p []byte) (int, error) {
+	n, err := w.Writer.Write(p)
+	if err != nil && w.err == nil {
+		w.err = err
+	}
+	return n, err
+}
+
 func main() {
 	var run     func(context.Context, []string) error
 	var options []string
@@ -137,7 +152,13 @@ func main() {
 		}
 		run = defaultSubcommand.Run
 	}
-	if err := run(context.Background(), options); err != nil {
+	stdout := &checkedWriter{Writer: os.Stdout}
+	tokenize.Stdout, lattice.Stdout, sentence.Stdout = stdout, stdout, stdout
+	err := run(context.Background(), options)
+	if err == nil {
+		err = stdout.err // the commands do not report lost output
+	}
+	if err != nil {
 		fmt.Fprintf(errorWriter, "%v\n", err)
 		os.Exit(1)
 	}
-- 
2.43.0

