From fb0b995fb9f00cdb6880a9cb484b65ab087a6805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:26 +0000
Subject: [PATCH 01/36] fix: log.Verifier.Evaluate rejects a tree size below
 the retained one

A verifier that retained a larger tree than the one the proof is for
recursed past a leaf and panicked. Reject it as malformed.
---
 tree/log/verify.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tree/log/verify.go b/tree/log/verify.go
index 69e4c93..762e90d 100644
--- a/tree/log/verify.go
+++ b/tree/log/verify.go
@@ -57,6 +57,8 @@ func (v *Verifier) Evaluate(entries []uint64, n uint64, nP *uint64, values [][]b
 		return nil, nil, errors.New("invalid value for current tree size")
 	} else if nP != nil && (*nP == 0 || *nP > n || *nP > math.MaxTreeSize) {
 		return nil, nil, errors.New("invalid value for additional tree size")
+	} else if v.prev != nil && *v.prev > n {
+		return nil, nil, errors.New("invalid value for previous tree size")
 	} else if len(entries) != len(values) {
 		return nil, nil, errors.New("number of leaves indices must equal number of leaf values")
 	}
-- 
2.43.0


From df78ae0ecc6ff8b8feb471433e7bf90d7139babd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:28 +0000
Subject: [PATCH 02/36] fix: binary ladders terminate for targets of 2^31-1 and
 above

---
 tree/transparency/math/ladders.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tree/transparency/math/ladders.go b/tree/transparency/math/ladders.go
index 5e398d4..89e19ff 100644
--- a/tree/transparency/math/ladders.go
+++ b/tree/transparency/math/ladders.go
@@ -14,12 +14,14 @@ func baseBinaryLadder(n uint32) []uint32 {
 		out = append(out, val)
 		if val > n {
 			break
+		} else if val == n && len(out) == 33 { // Nothing greater is possible.
+			return out
 		}
 	}
 
 	lowerBound, upperBound := out[len(out)-2], out[len(out)-1]
 	for lowerBound+1 < upperBound {
-		val := (lowerBound + upperBound) / 2
+		val := lowerBound + (upperBound-lowerBound)/2
 		out = append(out, val)
 		if val <= n {
 			lowerBound = val
-- 
2.43.0


From 9590e5b364d548a715562c4a6ebb83e469f59a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:28 +0000
Subject: [PATCH 03/36] fix: UpdateView covers the frontier when the previous
 rightmost entry is on it

---
 tree/transparency/math/math.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/tree/transparency/math/math.go b/tree/transparency/math/math.go
index bde0268..4c9cad5 100644
--- a/tree/transparency/math/math.go
+++ b/tree/transparency/math/math.go
@@ -126,16 +126,23 @@ func RightDirectPath(x, n uint64) []uint64 {
 func UpdateView(n uint64, m *uint64) []uint64 {
 	out := make([]uint64, 0)
 
+	var last uint64
 	if m != nil && *m == n {
 		return nil
 	} else if m == nil || *m == 0 {
-		out = append(out, Root(n))
+		last = Root(n)
+		out = append(out, last)
 	} else {
-		out = append(out, RightDirectPath(*m-1, n)...)
+		last = *m - 1
+		if path := RightDirectPath(last, n); len(path) > 0 {
+			last = path[len(path)-1]
+			out = append(out, path...)
+		}
 	}
 
-	for len(out) > 0 && out[len(out)-1] != n-1 {
-		out = append(out, Right(out[len(out)-1], n))
+	for last != n-1 {
+		last = Right(last, n)
+		out = append(out, last)
 	}
 
 	return out
-- 
2.43.0


From 69f73552d26a8f70d2b93e254d709b74646ffac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:28 +0000
Subject: [PATCH 04/36] fix: GreatestVersionSearch reports errors of the
 distinguished entry lookup

---
 tree/transparency/algorithms/search.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tree/transparency/algorithms/search.go b/tree/transparency/algorithms/search.go
index 92e7d95..b7baeb4 100644
--- a/tree/transparency/algorithms/search.go
+++ b/tree/transparency/algorithms/search.go
@@ -22,7 +22,7 @@ func GreatestVersionSearch(config *structs.PublicConfig, ver uint32, n uint64, p
 	// distinguished log entries.
 	rightmostDLE, err := RightmostDistinguished(config, n, provider)
 	if err != nil {
-		return 0, nil
+		return 0, err
 	}
 	var x uint64
 	if rightmostDLE != nil {
-- 
2.43.0


From 23ce96e94888f807498a5a477116e486fe014433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:07 +0000
Subject: [PATCH 05/36] fix: prefix proofs do not accept a leaf that
 contradicts the search

A non-inclusion result may not show the searched leaf itself or a leaf that is
not on the search path, and an inclusion result must have the commitment of the
leaf that another result placed there.
---
 tree/prefix/verify.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/tree/prefix/verify.go b/tree/prefix/verify.go
index e77543b..8c31539 100644
--- a/tree/prefix/verify.go
+++ b/tree/prefix/verify.go
@@ -22,6 +22,16 @@ func terminalNode(entry Entry, res PrefixSearchResult) node {
 	}
 }
 
+// samePrefix returns true if the first `depth` bits of `a` and `b` are equal.
+func samePrefix(a, b []byte, depth int) bool {
+	for i := range depth {
+		if getBit(a, i) != getBit(b, i) {
+			return false
+		}
+	}
+	return true
+}
+
 // addToSkeleton adds the terminal node for a single search result
 // to the in-memory tree in `n`.
 func addToSkeleton(n *node, entry Entry, res PrefixSearchResult) error {
@@ -39,6 +49,8 @@ func addToSkeleton(n *node, entry Entry, res PrefixSearchResult) error {
 			equal := bytes.Equal(entry.VrfOutput, m.vrfOutput)
 			if res.Depth() != depth || res.Inclusion() != equal {
 				return errors.New("malformed proof")
+			} else if equal && !bytes.Equal(entry.Commitment, m.commitment) {
+				return errors.New("malformed proof")
 			}
 			return nil
 
@@ -54,6 +66,14 @@ func addToSkeleton(n *node, entry Entry, res PrefixSearchResult) error {
 			if depth > res.Depth() {
 				return errors.New("current depth is greater than result depth")
 			} else if depth == res.Depth() {
+				// A different leaf only shows non-inclusion if it's where the
+				// search for `entry` would've ended.
+				if res, ok := res.(nonInclusionLeafProof); ok {
+					if bytes.Equal(entry.VrfOutput, res.leaf.vrfOutput) ||
+						!samePrefix(entry.VrfOutput, res.leaf.vrfOutput, depth) {
+						return errors.New("malformed proof")
+					}
+				}
 				*n = terminalNode(entry, res)
 				return nil
 			} else {
-- 
2.43.0


From c1614a89b3dbf29a0838b79b7ba8ca20d8b89eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:37 +0000
Subject: [PATCH 06/36] fix: EvaluateBeforeAfter accepts entries that are both
 removed and added

Tree.Mutate permits replacing an entry, and its proof then has two results for
it. An added entry that the proof shows as present and that is not removed is an
error; it used to crash the evaluation.
---
 tree/prefix/verify.go | 42 +++++++++++++++++++++++++++++++++++++-----
 1 file changed, 37 insertions(+), 5 deletions(-)

diff --git a/tree/prefix/verify.go b/tree/prefix/verify.go
index 8c31539..b6c5ece 100644
--- a/tree/prefix/verify.go
+++ b/tree/prefix/verify.go
@@ -173,13 +173,40 @@ func Verify(cs suites.CipherSuite, entries []Entry, proof *PrefixProof, root []b
 // EvaluateBeforeAfter evaluates `proof` before and after making the requested
 // additions and removals.
 func EvaluateBeforeAfter(cs suites.CipherSuite, add, remove []Entry, proof *PrefixProof) ([]byte, []byte, error) {
+	if len(proof.Results) != len(add)+len(remove) {
+		return nil, nil, errors.New("number of entries searched for does not match number of results")
+	}
+
 	// Combine the `add` and `remove` slices and compute the prefix tree root
-	// hash in the straightforward way.
-	allEntries := make([]Entry, len(add)+len(remove))
-	copy(allEntries, add)
-	copy(allEntries[len(add):], remove)
+	// hash in the straightforward way. An entry that's both added and removed
+	// was in the tree with the removed commitment.
+	allEntries := make([]Entry, 0, len(add)+len(remove))
+	results := make([]PrefixSearchResult, 0, len(add)+len(remove))
+	for i, entry := range add {
+		res, found := proof.Results[i], false
+		for j, removed := range remove {
+			if bytes.Equal(entry.VrfOutput, removed.VrfOutput) {
+				other := proof.Results[len(add)+j]
+				if !res.Inclusion() || !other.Inclusion() || res.Depth() != other.Depth() {
+					return nil, nil, errors.New("malformed proof")
+				}
+				found = true
+			}
+		}
+		if !found {
+			if res.Inclusion() {
+				return nil, nil, errors.New("proof shows inclusion for added entry")
+			}
+			allEntries = append(allEntries, entry)
+			results = append(results, res)
+		} else if len(entry.Commitment) != cs.HashSize() {
+			return nil, nil, errors.New("unexpected commitment length")
+		}
+	}
+	allEntries = append(allEntries, remove...)
+	results = append(results, proof.Results[len(add):]...)
 
-	root, err := evaluate(cs, allEntries, proof)
+	root, err := evaluate(cs, allEntries, &PrefixProof{results, proof.Elements})
 	if err != nil {
 		return nil, nil, err
 	}
@@ -190,6 +217,11 @@ func EvaluateBeforeAfter(cs suites.CipherSuite, add, remove []Entry, proof *Pref
 	sortedAdd := make([]Entry, len(add))
 	copy(sortedAdd, add)
 	slices.SortFunc(sortedAdd, compareEntries)
+	for i := 1; i < len(sortedAdd); i++ {
+		if bytes.Equal(sortedAdd[i-1].VrfOutput, sortedAdd[i].VrfOutput) {
+			return nil, nil, errors.New("same vrf output present multiple times")
+		}
+	}
 
 	sortedRemove := make([][]byte, len(remove))
 	for i, entry := range remove {
-- 
2.43.0


From ae84e71c87285d75b726726cc032e5b03882abee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:16 +0000
Subject: [PATCH 07/36] fix: prefix tree versions that changed nothing can be
 searched

The root of a version is loaded even if nothing is searched for in it, and a
search continues in the tree it is for, not in a copy of the tile's root.
---
 tree/prefix/batch.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tree/prefix/batch.go b/tree/prefix/batch.go
index 93beab9..e986212 100644
--- a/tree/prefix/batch.go
+++ b/tree/prefix/batch.go
@@ -74,6 +74,10 @@ func (b *batch) initialize(searches map[uint64][][]byte) (map[uint64]*tile, map[
 		for _, vrfOutput := range vrfOutputs {
 			cursors = append(cursors, cursor{vrfOutput: vrfOutput, depth: 0})
 		}
+		if len(cursors) == 0 {
+			// The root of the tree is needed even if nothing is searched for.
+			cursors = append(cursors, cursor{vrfOutput: make([]byte, b.cs.HashSize()), depth: 0})
+		}
 		state[&out.root] = cursors
 	}
 
@@ -172,7 +176,7 @@ func (b *batch) search(state map[*node][]cursor) error {
 		// Replace the node where the search terminated with the new subtree
 		// that was just looked up. Setup cursor for next iteration.
 		*step.ptr = *n
-		nextState[n] = append(nextState[n], *cursor)
+		nextState[step.ptr] = append(nextState[step.ptr], *cursor)
 	}
 
 	return b.search(nextState)
-- 
2.43.0


From 414a4730d4d1af6aa95472f1b4c387f2b08db83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:27 +0000
Subject: [PATCH 08/36] fix: a client's label state survives storing and
 reloading

---
 tree/transparency/structs/client.go  | 13 +++++++++----
 tree/transparency/structs/structs.go |  2 +-
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/tree/transparency/structs/client.go b/tree/transparency/structs/client.go
index 3348b17..39622f4 100644
--- a/tree/transparency/structs/client.go
+++ b/tree/transparency/structs/client.go
@@ -107,7 +107,7 @@ func NewLabelOwnerState(buf *bytes.Buffer) (*LabelOwnerState, error) {
 	if err != nil {
 		return nil, err
 	}
-	verAtStarting, err := readNumeric[int](buf)
+	verAtStarting, err := readNumeric[uint64](buf)
 	if err != nil {
 		return nil, err
 	}
@@ -117,14 +117,14 @@ func NewLabelOwnerState(buf *bytes.Buffer) (*LabelOwnerState, error) {
 	}
 	return &LabelOwnerState{
 		Starting:      starting,
-		VerAtStarting: verAtStarting,
+		VerAtStarting: int(verAtStarting),
 		UpcomingVers:  upcomingVers,
 	}, nil
 }
 
 func (los *LabelOwnerState) Marshal(buf *bytes.Buffer) error {
 	writeNumeric(buf, los.Starting)
-	writeNumeric(buf, los.VerAtStarting)
+	writeNumeric(buf, uint64(los.VerAtStarting))
 	return writeNumericSlice[uint32](buf, los.UpcomingVers, "upcoming versions")
 }
 
@@ -195,6 +195,9 @@ func NewClientLabelState(cs suites.CipherSuite, buf *bytes.Buffer) (*ClientLabel
 	versions, err := readFuncSlice[uint32](buf, func(buf *bytes.Buffer) (*RetainedVersion, error) {
 		return NewRetainedVersion(cs, buf)
 	})
+	if err != nil {
+		return nil, err
+	}
 
 	return &ClientLabelState{Contact: contact, Owner: owner, Versions: versions}, nil
 }
@@ -204,7 +207,9 @@ func (cls *ClientLabelState) Marshal(buf *bytes.Buffer) error {
 		return err
 	}
 	if writeOptional(buf, cls.Owner != nil) {
-		return cls.Owner.Marshal(buf)
+		if err := cls.Owner.Marshal(buf); err != nil {
+			return err
+		}
 	}
 	return writeMarshalSlice[uint32](buf, cls.Versions, "retained versions")
 }
diff --git a/tree/transparency/structs/structs.go b/tree/transparency/structs/structs.go
index 8f4e159..33120ba 100644
--- a/tree/transparency/structs/structs.go
+++ b/tree/transparency/structs/structs.go
@@ -24,7 +24,7 @@ func Marshal(x Marshaller) ([]byte, error) {
 }
 
 type numeric interface {
-	uint8 | uint16 | uint32 | uint64 | int
+	uint8 | uint16 | uint32 | uint64
 }
 
 func readNumeric[T numeric](buf *bytes.Buffer) (T, error) {
-- 
2.43.0


From 60cc8d2b4d259a0868cb8758feb74922a541ddb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:29 +0000
Subject: [PATCH 09/36] fix: length prefixes that exceed the remaining input
 are rejected before allocating

---
 tree/transparency/structs/structs.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/tree/transparency/structs/structs.go b/tree/transparency/structs/structs.go
index 33120ba..53da6a4 100644
--- a/tree/transparency/structs/structs.go
+++ b/tree/transparency/structs/structs.go
@@ -86,11 +86,24 @@ type sizeParam interface {
 
 func max[S sizeParam]() int { return int(^S(0)) }
 
+// checkSize returns an error if the number of elements in a list, each of which
+// is encoded in at least one byte, exceeds the number of bytes left. This
+// prevents allocating memory for input that isn't there.
+func checkSize(buf *bytes.Buffer, size int) error {
+	if size > buf.Len() {
+		return io.ErrUnexpectedEOF
+	}
+	return nil
+}
+
 func readBytes[S sizeParam](buf *bytes.Buffer) ([]byte, error) {
 	size, err := readNumeric[S](buf)
 	if err != nil {
 		return nil, err
 	}
+	if err := checkSize(buf, int(size)); err != nil {
+		return nil, err
+	}
 	out := make([]byte, size)
 	if _, err := io.ReadFull(buf, out); err != nil {
 		return nil, err
@@ -112,6 +125,9 @@ func readByteSlice[S sizeParam](buf *bytes.Buffer, n int) ([][]byte, error) {
 	if err != nil {
 		return nil, err
 	}
+	if err := checkSize(buf, int(size)); err != nil {
+		return nil, err
+	}
 	out := make([][]byte, size)
 	for i := range int(size) {
 		elem := make([]byte, n)
@@ -139,6 +155,9 @@ func readNumericSlice[S sizeParam, T numeric](buf *bytes.Buffer) ([]T, error) {
 	if err != nil {
 		return nil, err
 	}
+	if err := checkSize(buf, int(size)); err != nil {
+		return nil, err
+	}
 	out := make([]T, size)
 	for i := range int(size) {
 		val, err := readNumeric[T](buf)
@@ -173,6 +192,9 @@ func readFuncSlice[S sizeParam, T any](
 	if err != nil {
 		return nil, err
 	}
+	if err := checkSize(buf, int(size)); err != nil {
+		return nil, err
+	}
 	out := make([]T, size)
 	for i := range int(size) {
 		elem, err := newF(buf)
-- 
2.43.0


From d4ec902977549c19bcfea6fde2aa766627c9895f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:04 +0000
Subject: [PATCH 10/36] fix: decoding an auditor state with tree size zero is
 an error instead of a crash

---
 tree/transparency/auditor/state.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tree/transparency/auditor/state.go b/tree/transparency/auditor/state.go
index cd273c7..1c6da20 100644
--- a/tree/transparency/auditor/state.go
+++ b/tree/transparency/auditor/state.go
@@ -36,6 +36,8 @@ func NewAuditorState(cs suites.CipherSuite, buf *bytes.Buffer) (*AuditorState, e
 	treeHead, err := structs.NewAuditorTreeHead(buf)
 	if err != nil {
 		return nil, err
+	} else if treeHead.TreeSize == 0 {
+		return nil, errors.New("auditor state is for an empty log")
 	}
 
 	fullSubtrees := make([][]byte, bits.OnesCount64(treeHead.TreeSize))
-- 
2.43.0


From 9a273778296dffd84aa5cedd2cfe8cb6f78c6be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:31 +0000
Subject: [PATCH 11/36] fix: a storage tile nested deeper than the tree is an
 error instead of a stack overflow

---
 tree/prefix/nodes.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tree/prefix/nodes.go b/tree/prefix/nodes.go
index 2e9e873..38e6e7c 100644
--- a/tree/prefix/nodes.go
+++ b/tree/prefix/nodes.go
@@ -188,6 +188,9 @@ func unmarshalNode(cs suites.CipherSuite, id *tileId, depth int, buf *bytes.Buff
 
 	switch b {
 	case parentNodeType:
+		if depth > 255 {
+			return nil, errors.New("tile is deeper than the tree")
+		}
 		var hash []byte
 		if shouldStoreIntermediate(depth) {
 			hash = make([]byte, cs.HashSize())
-- 
2.43.0


From 7463771f96058b7f169886f38bd5241bed3778a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:50 +0000
Subject: [PATCH 12/36] fix: clients accept tree heads that grew, not ones that
 shrank

---
 tree/transparency/client_crypto.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tree/transparency/client_crypto.go b/tree/transparency/client_crypto.go
index 630155c..d2748d1 100644
--- a/tree/transparency/client_crypto.go
+++ b/tree/transparency/client_crypto.go
@@ -144,7 +144,7 @@ func (v *verifier) verifyTreeHead(root, rootP []byte) error {
 	}
 
 	// Verify the size and signature on the tree head.
-	if v.state != nil && v.state.TreeHead.TreeSize <= v.n {
+	if v.state != nil && v.n <= v.state.TreeHead.TreeSize {
 		return errors.New("provided tree size is not greater than advertised")
 	}
 	tbs, err := structs.Marshal(&structs.TreeHeadTBS{
-- 
2.43.0


From a9b901a22d2b43bee44853dd3a6cac99df28acde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:52 +0000
Subject: [PATCH 13/36] fix: a client's first response does not crash it, and
 an unchanged tree head keeps the auditor's

---
 tree/transparency/client_crypto.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/tree/transparency/client_crypto.go b/tree/transparency/client_crypto.go
index d2748d1..fc91b0c 100644
--- a/tree/transparency/client_crypto.go
+++ b/tree/transparency/client_crypto.go
@@ -231,13 +231,15 @@ func (v *verifier) finish() (*structs.ClientState, error) {
 
 	// Compute and return the updated client state.
 	updated := &structs.ClientState{
-		TreeHead:        v.state.TreeHead,
-		AuditorTreeHead: v.fth.AuditorTreeHead,
-		FullSubtrees:    result.FullSubtrees,
-		LogEntries:      result.LogEntries,
+		FullSubtrees: result.FullSubtrees,
+		LogEntries:   result.LogEntries,
 	}
 	if v.fth.TreeHead != nil {
 		updated.TreeHead = *v.fth.TreeHead
+		updated.AuditorTreeHead = v.fth.AuditorTreeHead
+	} else {
+		updated.TreeHead = v.state.TreeHead
+		updated.AuditorTreeHead = v.state.AuditorTreeHead
 	}
 	return updated, nil
 }
-- 
2.43.0


From dbb86be17a41ac1fb269a4bb561d7e29132f1bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:54 +0000
Subject: [PATCH 14/36] fix: clients require an auditor tree head exactly when
 there is an auditor

---
 tree/transparency/client_crypto.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/tree/transparency/client_crypto.go b/tree/transparency/client_crypto.go
index fc91b0c..963ac23 100644
--- a/tree/transparency/client_crypto.go
+++ b/tree/transparency/client_crypto.go
@@ -158,8 +158,16 @@ func (v *verifier) verifyTreeHead(root, rootP []byte) error {
 	ok := v.config.SignatureKey.Verify(tbs, v.fth.TreeHead.Signature)
 	if !ok {
 		return errors.New("failed to verify tree head signature")
-	} else if v.fth.AuditorTreeHead == nil {
+	}
+
+	// The auditor tree head is provided exactly when there is an auditor.
+	if v.config.Mode != structs.ThirdPartyAuditing {
+		if v.fth.AuditorTreeHead != nil {
+			return errors.New("auditor tree head provided when not expected")
+		}
 		return nil
+	} else if v.fth.AuditorTreeHead == nil {
+		return errors.New("auditor tree head not provided when expected")
 	}
 
 	// Verify size and signature of the auditor tree head.
-- 
2.43.0


From 0e192d40f6def0535faa95892471e9cff34783c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:55 +0000
Subject: [PATCH 15/36] fix: a client does not crash when no contact monitoring
 remains

---
 tree/transparency/algorithms/monitor.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tree/transparency/algorithms/monitor.go b/tree/transparency/algorithms/monitor.go
index e215073..7e835fe 100644
--- a/tree/transparency/algorithms/monitor.go
+++ b/tree/transparency/algorithms/monitor.go
@@ -24,7 +24,11 @@ func NewContactState(entries []structs.MonitorMapEntry) *ContactState {
 	return &ContactState{Ptrs: ptrs}
 }
 
+// Struct returns the encodable form of the state. A nil state has no entries.
 func (cs *ContactState) Struct() []structs.MonitorMapEntry {
+	if cs == nil {
+		return nil
+	}
 	out := make([]structs.MonitorMapEntry, 0, len(cs.Ptrs))
 	for pos, ver := range cs.Ptrs {
 		out = append(out, structs.MonitorMapEntry{Position: pos, Version: ver})
-- 
2.43.0


From 046d3b4be7652ec73187c025488945da85123151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:57 +0000
Subject: [PATCH 16/36] fix: a short binary ladder in an update response is an
 error instead of a crash

---
 tree/transparency/client.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tree/transparency/client.go b/tree/transparency/client.go
index ea83eaf..51d4335 100644
--- a/tree/transparency/client.go
+++ b/tree/transparency/client.go
@@ -564,6 +564,9 @@ func (sv *StreamVerifier) Verify(res *structs.UpdateResponse) error {
 	// Verify that no commitment is provided for a version greater than or equal
 	// to `startVer`.
 	ladder := updateLadderVersions(startVer, startVer+uint32(len(res.Info)-1))
+	if len(res.BinaryLadder) != len(ladder) {
+		return errors.New("incorrect number of binary ladder steps provided")
+	}
 	for i, ver := range ladder {
 		if ver >= startVer && res.BinaryLadder[i].Commitment != nil {
 			return errors.New("commitment provided when not expected")
-- 
2.43.0


From ab91de104f5ba52fa21f7447c4a6592ec5cf15a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:59 +0000
Subject: [PATCH 17/36] fix: inclusion proofs for several versions are accepted

---
 tree/transparency/algorithms/proof_handle.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/tree/transparency/algorithms/proof_handle.go b/tree/transparency/algorithms/proof_handle.go
index f78834d..01b6b20 100644
--- a/tree/transparency/algorithms/proof_handle.go
+++ b/tree/transparency/algorithms/proof_handle.go
@@ -197,11 +197,14 @@ func (rph *ReceivedProofHandle) GetInclusionProof(x uint64, vers []uint32) ([]by
 	}
 	proof := rph.inner.PrefixProofs[0]
 
-	// Verify that proof shows inclusion for a single version.
-	if len(proof.Results) != 1 {
+	// Verify that proof shows inclusion for each of the requested versions.
+	if len(proof.Results) != len(vers) {
 		return nil, errors.New("unexpected number of results present in prefix proof")
-	} else if !proof.Results[0].Inclusion() {
-		return nil, errors.New("unexpected non-inclusion proof provided")
+	}
+	for _, res := range proof.Results {
+		if !res.Inclusion() {
+			return nil, errors.New("unexpected non-inclusion proof provided")
+		}
 	}
 
 	// Evaluate the prefix proof and return.
-- 
2.43.0


From c53d4002b296252c490277c93ce2727876fa3075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:01 +0000
Subject: [PATCH 18/36] fix: adding a known version again is an error only if
 it conflicts

---
 tree/transparency/algorithms/proof_handle.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/tree/transparency/algorithms/proof_handle.go b/tree/transparency/algorithms/proof_handle.go
index 01b6b20..3a1c626 100644
--- a/tree/transparency/algorithms/proof_handle.go
+++ b/tree/transparency/algorithms/proof_handle.go
@@ -22,8 +22,15 @@ func addVersion(
 		return errors.New("malformed vrf output")
 	} else if commitment != nil && len(commitment) != cs.HashSize() {
 		return errors.New("malformed commitment")
-	} else if _, ok := versions[ver]; ok {
-		return errors.New("can not add the same version twice")
+	}
+	if existing, ok := versions[ver]; ok {
+		if !bytes.Equal(existing.VrfOutput, vrfOutput) {
+			return errors.New("different vrf outputs for same version found")
+		} else if commitment == nil {
+			return nil
+		} else if existing.Commitment != nil && !bytes.Equal(existing.Commitment, commitment) {
+			return errors.New("different commitments for same version found")
+		}
 	}
 	versions[ver] = prefix.Entry{VrfOutput: vrfOutput, Commitment: commitment}
 	return nil
-- 
2.43.0


From ebae64a6aed802148bb41e29883e0efa4c55e450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:35 +0000
Subject: [PATCH 19/36] fix: a request that advertises an empty tree is an
 error instead of a crash

---
 tree/transparency/transparency.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tree/transparency/transparency.go b/tree/transparency/transparency.go
index 677c3cb..811a3a1 100644
--- a/tree/transparency/transparency.go
+++ b/tree/transparency/transparency.go
@@ -111,7 +111,9 @@ func (t *Tree) fullTreeHead(last *uint64) (fth *structs.FullTreeHead, n uint64,
 	if t.treeHead == nil {
 		return nil, 0, nil, nil, errors.New("can not operate on an empty tree")
 	} else if last != nil {
-		if *last == t.treeHead.TreeSize {
+		if *last == 0 {
+			return nil, 0, nil, nil, errors.New("tree size advertised by user is invalid")
+		} else if *last == t.treeHead.TreeSize {
 			return &structs.FullTreeHead{}, t.treeHead.TreeSize, nil, nil, nil
 		} else if *last > t.treeHead.TreeSize {
 			return nil, 0, nil, nil, errors.New("tree size advertised by user is greater than current tree size")
-- 
2.43.0


From 9d0d0a5970dc3bf1843550201f15bf9e4a80710c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:37 +0000
Subject: [PATCH 20/36] fix: responses for an unchanged tree omit what the
 client retained

---
 tree/transparency/transparency.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tree/transparency/transparency.go b/tree/transparency/transparency.go
index 811a3a1..6e0e9f6 100644
--- a/tree/transparency/transparency.go
+++ b/tree/transparency/transparency.go
@@ -114,7 +114,7 @@ func (t *Tree) fullTreeHead(last *uint64) (fth *structs.FullTreeHead, n uint64,
 		if *last == 0 {
 			return nil, 0, nil, nil, errors.New("tree size advertised by user is invalid")
 		} else if *last == t.treeHead.TreeSize {
-			return &structs.FullTreeHead{}, t.treeHead.TreeSize, nil, nil, nil
+			return &structs.FullTreeHead{}, t.treeHead.TreeSize, nil, last, nil
 		} else if *last > t.treeHead.TreeSize {
 			return nil, 0, nil, nil, errors.New("tree size advertised by user is greater than current tree size")
 		}
-- 
2.43.0


From 2754a5bb8b216dd3bb7150d6322b806116a46967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:39 +0000
Subject: [PATCH 21/36] fix: a missing auditor tree head is an error instead of
 an undecodable response

---
 tree/transparency/transparency.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tree/transparency/transparency.go b/tree/transparency/transparency.go
index 6e0e9f6..3acacde 100644
--- a/tree/transparency/transparency.go
+++ b/tree/transparency/transparency.go
@@ -120,6 +120,9 @@ func (t *Tree) fullTreeHead(last *uint64) (fth *structs.FullTreeHead, n uint64,
 		}
 	}
 
+	if t.config.Mode == structs.ThirdPartyAuditing && t.auditorHead == nil {
+		return nil, 0, nil, nil, errors.New("no auditor tree head is available")
+	}
 	fth = &structs.FullTreeHead{TreeHead: t.treeHead, AuditorTreeHead: t.auditorHead}
 	n = t.treeHead.TreeSize
 	if t.auditorHead != nil {
-- 
2.43.0


From a6eb0f5183148e2e1e975fe381112458f19c7f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:41 +0000
Subject: [PATCH 22/36] fix: responses for missing versions are decodable with
 third-party management

---
 tree/transparency/crypto.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tree/transparency/crypto.go b/tree/transparency/crypto.go
index 2c58c43..598e418 100644
--- a/tree/transparency/crypto.go
+++ b/tree/transparency/crypto.go
@@ -78,8 +78,13 @@ func (t *Tree) getVersion(label []byte, ver uint32) (*structs.OpeningAndValue, e
 		// Returning a zero value for the commitment opening ensures that the
 		// SearchResponse doesn't end up getting serialized wrong when a search
 		// produces a non-inclusion proof.
+		// The same goes for the signature, if there would be one.
 		size := t.config.Suite.CommitmentOpeningSize()
-		return &structs.OpeningAndValue{Opening: make([]byte, size)}, nil
+		out := &structs.OpeningAndValue{Opening: make([]byte, size)}
+		if t.config.Mode == structs.ThirdPartyManagement {
+			out.Value.Signature = make([]byte, 0)
+		}
+		return out, nil
 	}
 	buf := bytes.NewBuffer(raw)
 	labelValue, err := structs.NewOpeningAndValue(t.config.Public(), buf)
-- 
2.43.0


From 078ea4eb2c9678d705d9272a9e05431e2887d93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:43 +0000
Subject: [PATCH 23/36] fix: a rejected mutation leaves no writes behind for
 the next one to commit

---
 tree/transparency/crypto.go | 19 ++++++++---------
 tree/transparency/mutate.go | 42 +++++++++++++++++++++----------------
 2 files changed, 33 insertions(+), 28 deletions(-)

diff --git a/tree/transparency/crypto.go b/tree/transparency/crypto.go
index 598e418..261923f 100644
--- a/tree/transparency/crypto.go
+++ b/tree/transparency/crypto.go
@@ -96,17 +96,16 @@ func (t *Tree) getVersion(label []byte, ver uint32) (*structs.OpeningAndValue, e
 	return labelValue, nil
 }
 
-// putVersion generates a new commitment opening and sets the given
-// label-version pair to the given value. It returns the new commitment.
-func (t *Tree) putVersion(label []byte, ver uint32, value structs.UpdateValue) ([]byte, error) {
+// newVersion generates a new commitment opening for setting the given
+// label-version pair to the given value. It returns the new commitment and the
+// data to store for the label-version pair.
+func (t *Tree) newVersion(label []byte, ver uint32, value structs.UpdateValue) (commitment, labelValue []byte, err error) {
 	opening := commitments.GenerateOpening(t.config.Suite)
 
-	// Serialize opening and UpdateValue structure. Write to database.
-	labelValue, err := structs.Marshal(&structs.OpeningAndValue{Opening: opening, Value: value})
+	// Serialize opening and UpdateValue structure.
+	labelValue, err = structs.Marshal(&structs.OpeningAndValue{Opening: opening, Value: value})
 	if err != nil {
-		return nil, err
-	} else if err := t.tx.PutVersion(label, ver, labelValue); err != nil {
-		return nil, err
+		return nil, nil, err
 	}
 
 	// Serialize the data that will be committed to and compute the commitment.
@@ -116,9 +115,9 @@ func (t *Tree) putVersion(label []byte, ver uint32, value structs.UpdateValue) (
 		Update:  value,
 	})
 	if err != nil {
-		return nil, err
+		return nil, nil, err
 	}
-	return commitments.Commit(t.config.Suite, opening, commitmentValue), nil
+	return commitments.Commit(t.config.Suite, opening, commitmentValue), labelValue, nil
 }
 
 // computeVrfOutput returns the VRF output for the requested label-version pair
diff --git a/tree/transparency/mutate.go b/tree/transparency/mutate.go
index a4d293f..fb60324 100644
--- a/tree/transparency/mutate.go
+++ b/tree/transparency/mutate.go
@@ -58,14 +58,16 @@ func (t *Tree) Mutate(add []LabelValue, remove [][]byte) (*structs.AuditorUpdate
 	var (
 		prefixAdd    []prefix.Entry
 		prefixRemove [][]byte
+		writes       []func() error
 	)
 	for _, mutation := range mutations {
-		pa, pr, err := t.mutateLabel(n, prevDLE, mutation)
+		pa, pr, w, err := t.mutateLabel(n, prevDLE, mutation)
 		if err != nil {
 			return nil, err
 		}
 		prefixAdd = append(prefixAdd, pa...)
 		prefixRemove = append(prefixRemove, pr...)
+		writes = append(writes, w...)
 	}
 
 	// Sort the new additions and removals by VRF output to avoid accidentally
@@ -82,6 +84,13 @@ func (t *Tree) Mutate(add []LabelValue, remove [][]byte) (*structs.AuditorUpdate
 		return nil, err
 	}
 
+	// Now that all requested mutations are known to be valid, write the labels.
+	for _, write := range writes {
+		if err := write(); err != nil {
+			return nil, err
+		}
+	}
+
 	// Issue new tree head.
 	if err := t.issueTreeHead(n, timestamp, prefixRoot); err != nil {
 		return nil, err
@@ -157,11 +166,13 @@ func (t *Tree) groupByLabel(add []LabelValue, remove [][]byte) ([]labelMutation,
 }
 
 // mutateLabel performs the requested additions and removals for a single label.
-// Version counters are assigned sequentially.
-func (t *Tree) mutateLabel(n uint64, prevDLE *uint64, mut labelMutation) ([]prefix.Entry, [][]byte, error) {
+// Version counters are assigned sequentially. The database writes that are
+// required are returned, to be done only if all mutations succeed.
+func (t *Tree) mutateLabel(n uint64, prevDLE *uint64, mut labelMutation) ([]prefix.Entry, [][]byte, []func() error, error) {
 	var (
 		add    []prefix.Entry
 		remove [][]byte
+		writes []func() error
 
 		label, index = mut.label, mut.index
 	)
@@ -170,22 +181,18 @@ func (t *Tree) mutateLabel(n uint64, prevDLE *uint64, mut labelMutation) ([]pref
 		// The label is not eligible for deletion if it has been modified since
 		// the last distinguished log entry was created.
 		if prevDLE == nil || index[len(index)-1] > *prevDLE {
-			return nil, nil, fmt.Errorf("unable to delete label that was modified recently: %s", label)
+			return nil, nil, nil, fmt.Errorf("unable to delete label that was modified recently: %s", label)
 		}
 
 		// Delete the label's index.
-		if err := t.tx.DeleteIndex(label); err != nil {
-			return nil, nil, err
-		}
+		writes = append(writes, func() error { return t.tx.DeleteIndex(label) })
 
 		// Delete the value and VRF output of each version.
 		for ver := range index {
-			if err := t.tx.DeleteVersion(label, uint32(ver)); err != nil {
-				return nil, nil, err
-			}
+			writes = append(writes, func() error { return t.tx.DeleteVersion(label, uint32(ver)) })
 			vrfOutput, _, err := t.computeVrfOutput(label, uint32(ver))
 			if err != nil {
-				return nil, nil, err
+				return nil, nil, nil, err
 			}
 			remove = append(remove, vrfOutput)
 		}
@@ -198,23 +205,22 @@ func (t *Tree) mutateLabel(n uint64, prevDLE *uint64, mut labelMutation) ([]pref
 
 		vrfOutput, _, err := t.computeVrfOutput(pair.Label, ver)
 		if err != nil {
-			return nil, nil, err
+			return nil, nil, nil, err
 		}
-		commitment, err := t.putVersion(pair.Label, ver, pair.Value)
+		commitment, labelValue, err := t.newVersion(pair.Label, ver, pair.Value)
 		if err != nil {
-			return nil, nil, err
+			return nil, nil, nil, err
 		}
+		writes = append(writes, func() error { return t.tx.PutVersion(pair.Label, ver, labelValue) })
 
 		add = append(add, prefix.Entry{VrfOutput: vrfOutput, Commitment: commitment})
 		index = append(index, n)
 	}
 	if len(mut.add) > 0 {
-		if err := t.putIndex(mut.add[0].Label, index); err != nil {
-			return nil, nil, err
-		}
+		writes = append(writes, func() error { return t.putIndex(mut.add[0].Label, index) })
 	}
 
-	return add, remove, nil
+	return add, remove, writes, nil
 }
 
 // issueTreeHead takes as input the current tree size, the new rightmost
-- 
2.43.0


From f415057238beb361f4b9a95687270f3fd785dab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:06 +0000
Subject: [PATCH 24/36] fix: searching a label that was removed is an error
 instead of a contradictory proof

---
 tree/transparency/algorithms/proof_handle.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tree/transparency/algorithms/proof_handle.go b/tree/transparency/algorithms/proof_handle.go
index 3a1c626..4e086f8 100644
--- a/tree/transparency/algorithms/proof_handle.go
+++ b/tree/transparency/algorithms/proof_handle.go
@@ -462,11 +462,15 @@ func (pph *ProducedProofHandle) Output(leaves []uint64, n uint64, nP, m *uint64)
 	for i, result := range res {
 		proofs[i] = result.Proof
 
+		greatest := pph.greatestAt(pph.proofs[i].pos)
 		for j, commitment := range result.Commitments {
+			ver := pph.proofs[i].vers[j]
+			if (commitment != nil) != (int(ver) <= greatest) {
+				return nil, errors.New("log entry is not consistent with current versions of label")
+			}
 			if commitment == nil {
 				continue
 			}
-			ver := pph.proofs[i].vers[j]
 			entry := pph.versions[ver]
 			if entry.Commitment == nil {
 				pph.versions[ver] = prefix.Entry{VrfOutput: entry.VrfOutput, Commitment: commitment}
-- 
2.43.0


From c7f9641ef99bdcc536b88bb83993e85e2eaefd60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:08 +0000
Subject: [PATCH 25/36] fix: the auditor remembers entries inserted since the
 last distinguished log entry

---
 tree/transparency/auditor/auditor.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tree/transparency/auditor/auditor.go b/tree/transparency/auditor/auditor.go
index 0688b54..90b509e 100644
--- a/tree/transparency/auditor/auditor.go
+++ b/tree/transparency/auditor/auditor.go
@@ -107,6 +107,7 @@ func (a *Auditor) updateState(
 	if a.state != nil {
 		n = a.state.TreeHead.TreeSize
 		fullSubtrees = a.state.FullSubtrees
+		inserted = a.state.Inserted
 	}
 
 	// Compute the new set of full subtrees of the log tree.
-- 
2.43.0


From 5165188e6b223440e723dd9081f1f9b0571899f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:10 +0000
Subject: [PATCH 26/36] fix: the auditor's first update has to start from an
 empty prefix tree

---
 tree/transparency/auditor/auditor.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tree/transparency/auditor/auditor.go b/tree/transparency/auditor/auditor.go
index 90b509e..6601884 100644
--- a/tree/transparency/auditor/auditor.go
+++ b/tree/transparency/auditor/auditor.go
@@ -228,10 +228,14 @@ func (a *Auditor) Process(update *structs.AuditorUpdate) error {
 	// Compute the root value of the previous prefix tree. Verify that it
 	// matches the auditor's state. Compute the new root value for the prefix
 	// tree.
+	expected := make([]byte, a.config.Suite.HashSize()) // Root of an empty prefix tree.
+	if a.state != nil {
+		expected = a.state.PrefixTree
+	}
 	before, after, err := prefix.EvaluateBeforeAfter(a.config.Suite, update.Added, update.Removed, &update.Proof)
 	if err != nil {
 		return err
-	} else if a.state != nil && !bytes.Equal(before, a.state.PrefixTree) {
+	} else if !bytes.Equal(before, expected) {
 		return errors.New("prefix tree root does not match expected")
 	}
 
-- 
2.43.0


From 9251ea906d7e994e8cf8fa70954f457c02113656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:12 +0000
Subject: [PATCH 27/36] fix: an auditor tree head that could not be stored is
 not issued by the next commit

---
 tree/transparency/auditor/auditor.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tree/transparency/auditor/auditor.go b/tree/transparency/auditor/auditor.go
index 6601884..e6a1e64 100644
--- a/tree/transparency/auditor/auditor.go
+++ b/tree/transparency/auditor/auditor.go
@@ -267,18 +267,20 @@ func (a *Auditor) Commit() (*structs.AuditorTreeHead, error) {
 	if err != nil {
 		return nil, err
 	}
-	a.state.TreeHead.Signature, err = a.auditorKey.Sign(tbs)
+	signed := *a.state
+	signed.TreeHead.Signature, err = a.auditorKey.Sign(tbs)
 	if err != nil {
 		return nil, err
 	}
 
 	// Serialize the auditor's state and commit it to the database.
-	raw, err := a.state.Marshal()
+	raw, err := signed.Marshal()
 	if err != nil {
 		return nil, err
 	} else if err := a.tx.PutState(raw); err != nil {
 		return nil, err
 	}
+	a.state = &signed
 
 	return &a.state.TreeHead, nil
 }
-- 
2.43.0


From cb02ddd1f2657c9d2d7115ab466ed6c5a68a7f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:14 +0000
Subject: [PATCH 28/36] fix: the second update of a managed label does not skip
 a version

---
 db/memory/memory.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/db/memory/memory.go b/db/memory/memory.go
index 051fb76..6a029d4 100644
--- a/db/memory/memory.go
+++ b/db/memory/memory.go
@@ -229,9 +229,9 @@ func (mls *ManagedLogStore) IncrementGreatestVersion(label []byte, count int) (i
 	labelStr := fmt.Sprintf("%x", label)
 
 	ver, ok := mls.Data[labelStr]
-	mls.Data[labelStr] += count
 	if !ok {
-		return -1, nil
+		ver = -1
 	}
+	mls.Data[labelStr] = ver + count
 	return ver, nil
 }
-- 
2.43.0


From 2f9ccaf6a408b70d2dabf80c73afcc3e1cd55ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:18 +0000
Subject: [PATCH 29/36] fix: LevelDB commits are atomic

---
 db/leveldb.go | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/db/leveldb.go b/db/leveldb.go
index a060261..d83ac20 100644
--- a/db/leveldb.go
+++ b/db/leveldb.go
@@ -54,9 +54,7 @@ func (c *ldbConn) Commit() error {
 
 	b := new(leveldb.Batch)
 	for key, value := range c.batch {
-		if key == leveldbTreeHeadKey {
-			continue
-		} else if value == nil {
+		if value == nil {
 			b.Delete([]byte(key))
 		} else {
 			b.Put([]byte(key), value)
@@ -65,11 +63,6 @@ func (c *ldbConn) Commit() error {
 	if err := c.conn.Write(b, nil); err != nil {
 		return err
 	}
-	if value, ok := c.batch[leveldbTreeHeadKey]; ok {
-		if err := c.conn.Put([]byte(leveldbTreeHeadKey), value, nil); err != nil {
-			return err
-		}
-	}
 
 	c.batch = make(map[string][]byte)
 	return nil
-- 
2.43.0


From ca62c469a21c9c10b0528cc8e89f3ac3117be3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:34 +0000
Subject: [PATCH 30/36] fix: clones of the in-memory store are read-only

---
 db/memory/memory.go | 54 +++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 50 insertions(+), 4 deletions(-)

diff --git a/db/memory/memory.go b/db/memory/memory.go
index 6a029d4..760e0d4 100644
--- a/db/memory/memory.go
+++ b/db/memory/memory.go
@@ -50,10 +50,10 @@ func (ts *TransparencyStore) Clone() db.TransparencyStore {
 		Versions:   ts.Versions,
 		LogEntries: ts.LogEntries,
 
-		logStore:    ts.logStore,
-		prefixStore: ts.prefixStore,
+		logStore:    &LogStore{Data: ts.logStore.Data, readOnly: true},
+		prefixStore: &PrefixStore{Data: ts.prefixStore.Data, readOnly: true},
 
-		ReadOnly: false,
+		ReadOnly: true,
 	}
 }
 
@@ -62,11 +62,17 @@ func (ts *TransparencyStore) GetTreeHead() ([]byte, []byte, error) {
 }
 
 func (ts *TransparencyStore) PutTreeHead(raw []byte) error {
+	if ts.ReadOnly {
+		panic("store is readonly")
+	}
 	ts.TreeHead = dup(raw)
 	return nil
 }
 
 func (ts *TransparencyStore) PutAuditorTreeHead(raw []byte) error {
+	if ts.ReadOnly {
+		panic("store is readonly")
+	}
 	ts.Auditor = dup(raw)
 	return nil
 }
@@ -80,6 +86,9 @@ func (ts *TransparencyStore) BatchGetIndex(labels [][]byte) ([][]byte, error) {
 }
 
 func (ts *TransparencyStore) PutIndex(label []byte, data []byte) error {
+	if ts.ReadOnly {
+		panic("store is readonly")
+	}
 	if data == nil {
 		return errors.New("unable to store nil index")
 	}
@@ -88,6 +97,9 @@ func (ts *TransparencyStore) PutIndex(label []byte, data []byte) error {
 }
 
 func (ts *TransparencyStore) DeleteIndex(label []byte) error {
+	if ts.ReadOnly {
+		panic("store is readonly")
+	}
 	delete(ts.Indices, fmt.Sprintf("%x", label))
 	return nil
 }
@@ -97,6 +109,9 @@ func (ts *TransparencyStore) GetVersion(label []byte, ver uint32) ([]byte, error
 }
 
 func (ts *TransparencyStore) PutVersion(label []byte, ver uint32, data []byte) error {
+	if ts.ReadOnly {
+		panic("store is readonly")
+	}
 	if data == nil {
 		return errors.New("unable to store nil version")
 	}
@@ -105,6 +120,9 @@ func (ts *TransparencyStore) PutVersion(label []byte, ver uint32, data []byte) e
 }
 
 func (ts *TransparencyStore) DeleteVersion(label []byte, ver uint32) error {
+	if ts.ReadOnly {
+		panic("store is readonly")
+	}
 	delete(ts.Versions, fmt.Sprintf("%x:%v", label, ver))
 	return nil
 }
@@ -120,6 +138,9 @@ func (ts *TransparencyStore) BatchGet(keys []uint64) (map[uint64][]byte, error)
 }
 
 func (ts *TransparencyStore) Put(key uint64, data []byte) error {
+	if ts.ReadOnly {
+		panic("store is readonly")
+	}
 	if data == nil {
 		return errors.New("unable to store nil log entry")
 	}
@@ -128,16 +149,27 @@ func (ts *TransparencyStore) Put(key uint64, data []byte) error {
 }
 
 func (ts *TransparencyStore) Delete(key uint64) error {
+	if ts.ReadOnly {
+		panic("store is readonly")
+	}
 	delete(ts.LogEntries, key)
 	return nil
 }
 
 func (ts *TransparencyStore) LogStore() db.LogStore       { return ts.logStore }
 func (ts *TransparencyStore) PrefixStore() db.PrefixStore { return ts.prefixStore }
-func (ts *TransparencyStore) Commit() error               { return nil }
+
+func (ts *TransparencyStore) Commit() error {
+	if ts.ReadOnly {
+		panic("store is readonly")
+	}
+	return nil
+}
 
 type LogStore struct {
 	Data map[uint64][]byte
+
+	readOnly bool
 }
 
 func NewLogStore() *LogStore {
@@ -157,6 +189,9 @@ func (ls *LogStore) BatchGet(keys []uint64) (map[uint64][]byte, error) {
 }
 
 func (ls *LogStore) Put(key uint64, value []byte) error {
+	if ls.readOnly {
+		panic("store is readonly")
+	}
 	if value == nil {
 		return errors.New("unable to store nil value")
 	}
@@ -165,6 +200,9 @@ func (ls *LogStore) Put(key uint64, value []byte) error {
 }
 
 func (ls *LogStore) Delete(key uint64) error {
+	if ls.readOnly {
+		panic("store is readonly")
+	}
 	delete(ls.Data, key)
 	return nil
 }
@@ -172,6 +210,8 @@ func (ls *LogStore) Delete(key uint64) error {
 type PrefixStore struct {
 	Data    map[string][]byte
 	Lookups [][]string
+
+	readOnly bool
 }
 
 func NewPrefixStore() *PrefixStore {
@@ -192,6 +232,9 @@ func (ps *PrefixStore) BatchGet(keys []string) (map[string][]byte, error) {
 }
 
 func (ps *PrefixStore) Put(key string, value []byte) error {
+	if ps.readOnly {
+		panic("store is readonly")
+	}
 	if value == nil {
 		return errors.New("unable to store nil value")
 	}
@@ -200,6 +243,9 @@ func (ps *PrefixStore) Put(key string, value []byte) error {
 }
 
 func (ps *PrefixStore) Delete(key string) error {
+	if ps.readOnly {
+		panic("store is readonly")
+	}
 	delete(ps.Data, key)
 	return nil
 }
-- 
2.43.0


From 073212973313650afc2d69a45f9d235917e29253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:19 +0000
Subject: [PATCH 31/36] fix: a managed label whose version counters ran out is
 an error instead of reusing them

---
 tree/transparency/managed/managed.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tree/transparency/managed/managed.go b/tree/transparency/managed/managed.go
index ff27725..65372f9 100644
--- a/tree/transparency/managed/managed.go
+++ b/tree/transparency/managed/managed.go
@@ -6,6 +6,7 @@ import (
 	"bytes"
 	"context"
 	"errors"
+	"math"
 
 	"github.com/Bren2010/katie/crypto/suites"
 	"github.com/Bren2010/katie/db"
@@ -78,6 +79,8 @@ func (ml *ManagedLog) Update(
 	prev, err := ml.tx.IncrementGreatestVersion(req.Label, len(req.Values))
 	if err != nil {
 		return nil, err
+	} else if int64(prev)+int64(len(req.Values)) > math.MaxUint32 {
+		return nil, errors.New("label has no version counters left")
 	}
 
 	// Sign new versions of the label.
-- 
2.43.0


From da7988977b412d413a59c340a946763f24e23578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:56 +0000
Subject: [PATCH 32/36] fix: the answer for a label that does not exist has the
 binary ladder the client expects

---
 tree/transparency/transparency.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tree/transparency/transparency.go b/tree/transparency/transparency.go
index 3acacde..a07384b 100644
--- a/tree/transparency/transparency.go
+++ b/tree/transparency/transparency.go
@@ -191,7 +191,7 @@ func (t *Tree) Search(
 	)
 	if req.Version == nil {
 		if greatest < 0 {
-			ladder = []uint32{0}
+			ladder = math.SearchBinaryLadder(0, 0, nil, nil)
 			openingAndValue, err = t.getVersion(req.Label, 0)
 		} else {
 			ladder = math.SearchBinaryLadder(uint32(greatest), uint32(greatest), nil, nil)
-- 
2.43.0


From 9c01c3fbf71425343ce1a14bc0f2cdac9e54a9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:56 +0000
Subject: [PATCH 33/36] fix: a fixed-version search provides the commitments
 needed to monitor the version

---
 tree/transparency/transparency.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/tree/transparency/transparency.go b/tree/transparency/transparency.go
index a07384b..8e5df3d 100644
--- a/tree/transparency/transparency.go
+++ b/tree/transparency/transparency.go
@@ -235,6 +235,7 @@ func (t *Tree) Search(
 	if err != nil && err != algorithms.ErrLabelNotFound {
 		return nil, err
 	}
+	found := err == nil
 	combinedProof, err := provider.Output(n, nP, m)
 	if err != nil {
 		return nil, err
@@ -250,6 +251,27 @@ func (t *Tree) Search(
 		}
 	}
 
+	// A fixed-version search doesn't necessarily look up every version below
+	// the target, but the user needs their commitments to monitor the label.
+	if req.Version != nil && found {
+		var positions []int
+		var missing []uint32
+		for i, ver := range ladder {
+			if ver < *req.Version && steps[i].Commitment == nil {
+				positions, missing = append(positions, i), append(missing, ver)
+			}
+		}
+		if len(missing) > 0 {
+			extra, err := t.getBinaryLadder(req.Label, missing, greatest, n)
+			if err != nil {
+				return nil, err
+			}
+			for j, i := range positions {
+				steps[i].Commitment = extra[j].Commitment
+			}
+		}
+	}
+
 	// Put together final SearchResponse structure.
 	var outputVer *uint32
 	if req.Version == nil {
-- 
2.43.0


From 03c8b94ea5fe8de9dc8533c7dda0f33153580426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:39 +0000
Subject: [PATCH 34/36] fix: the same version of a label is not monitored from
 two log entries on one path

---
 tree/transparency/client_crypto.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/tree/transparency/client_crypto.go b/tree/transparency/client_crypto.go
index 963ac23..dcce481 100644
--- a/tree/transparency/client_crypto.go
+++ b/tree/transparency/client_crypto.go
@@ -368,7 +368,17 @@ func simplifyMonitoringMap(ptrs map[uint64]uint32, n uint64) {
 		}
 
 		if !modified {
-			return
+			break
+		}
+	}
+
+	// An entry with a version that is already monitored from further down the
+	// same path adds nothing, and would make the versions not ascend.
+	for pos, ver := range ptrs {
+		for _, parent := range math.RightDirectPath(pos, n) {
+			if parentVer, ok := ptrs[parent]; ok && parentVer <= ver {
+				delete(ptrs, parent)
+			}
 		}
 	}
 }
-- 
2.43.0


From 57745a2bc5fd3aa3834d297ebfc865562634ff68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:37 +0000
Subject: [PATCH 35/36] fix: an owner's new versions are verified with their
 commitments

---
 tree/transparency/client.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/tree/transparency/client.go b/tree/transparency/client.go
index 51d4335..8d858f1 100644
--- a/tree/transparency/client.go
+++ b/tree/transparency/client.go
@@ -585,6 +585,17 @@ func (sv *StreamVerifier) Verify(res *structs.UpdateResponse) error {
 		return err
 	}
 
+	// New versions that were looked up before they existed aren't part of the
+	// ladder, only their VRF outputs were retained.
+	for ver, commitment := range commitments {
+		entry, ok := v.handle.GetVersion(ver)
+		if !ok {
+			return errors.New("required version not known")
+		} else if err := v.handle.AddVersion(ver, entry.VrfOutput, commitment); err != nil {
+			return err
+		}
+	}
+
 	// Verify the proof.
 	if err := v.updateView(); err != nil {
 		return err
-- 
2.43.0


From bcda4664dd5048c13f45cd18b6b34e81ee49217a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:44 +0000
Subject: [PATCH 36/36] fix: contact monitoring does not replace a monitored
 version with a smaller one

---
 tree/transparency/algorithms/monitor.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tree/transparency/algorithms/monitor.go b/tree/transparency/algorithms/monitor.go
index 7e835fe..242051f 100644
--- a/tree/transparency/algorithms/monitor.go
+++ b/tree/transparency/algorithms/monitor.go
@@ -265,7 +265,11 @@ func (m *Monitor) ContactMonitor() error {
 		if err != nil {
 			return err
 		} else if updated != nil {
-			ptrs[*updated] = ver
+			// Log entries to the right of `x` may have been updated to the
+			// same position. Keep the greatest version.
+			if other, ok := ptrs[*updated]; !ok || ver > other {
+				ptrs[*updated] = ver
+			}
 		}
 	}
 
-- 
2.43.0

