From a8469b7b74f81b702109704818ece37e8611db51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:45 +0000
Subject: [PATCH 01/30] fix: advance the DAG reader's offset by what a failing
 writer accepted

---
 io/dagreader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/io/dagreader.go b/io/dagreader.go
index 7284bdc..a38ca63 100644
--- a/io/dagreader.go
+++ b/io/dagreader.go
@@ -265,6 +265,7 @@ func (dr *dagReader) readNodeDataBuffer(out []byte) int {
 func (dr *dagReader) writeNodeDataBuffer(w io.Writer) (int64, error) {
 
 	n, err := dr.currentNodeData.WriteTo(w)
+	dr.offset += n
 	if err != nil {
 		return n, err
 	}
@@ -276,7 +277,6 @@ func (dr *dagReader) writeNodeDataBuffer(w io.Writer) (int64, error) {
 		// single node's data, not the entire DAG.
 	}
 
-	dr.offset += int64(n)
 	return n, nil
 }
 
-- 
2.43.0


From 8fa088531b6e6dde20d4df3b442c0cd0273644b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:45 +0000
Subject: [PATCH 02/30] fix: rewind the DAG reader after a failed seek

---
 io/dagreader.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/io/dagreader.go b/io/dagreader.go
index a38ca63..1239cb9 100644
--- a/io/dagreader.go
+++ b/io/dagreader.go
@@ -462,6 +462,9 @@ func (dr *dagReader) Seek(offset int64, whence int) (int64, error) {
 		})
 
 		if err != nil {
+			// The walker stopped somewhere inside the DAG, leave the reader
+			// at a known position (the start) instead.
+			dr.resetPosition()
 			return 0, err
 		}
 
-- 
2.43.0


From 50b9638c747af89650c15ce7ec7cde7875ee5d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:12 +0000
Subject: [PATCH 03/30] fix: keep the node expandSparse produced

---
 mod/dagmodifier.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mod/dagmodifier.go b/mod/dagmodifier.go
index 6cc484a..9791437 100644
--- a/mod/dagmodifier.go
+++ b/mod/dagmodifier.go
@@ -138,7 +138,11 @@ func (dm *DagModifier) expandSparse(size int64) error {
 		return err
 	}
 	err = dm.dagserv.Add(dm.ctx, nnode)
-	return err
+	if err != nil {
+		return err
+	}
+	dm.curNode = nnode
+	return nil
 }
 
 // Write continues writing to the dag at the current offset
-- 
2.43.0


From 7928d15bdb5a2d20ad9e0a81fd90ae2475b20db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:43 +0000
Subject: [PATCH 04/30] fix: trickle.Append does not fill a last child that is
 a leaf

---
 importer/trickle/trickledag.go | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/importer/trickle/trickledag.go b/importer/trickle/trickledag.go
index c2e6d03..2e533e3 100644
--- a/importer/trickle/trickledag.go
+++ b/importer/trickle/trickledag.go
@@ -163,25 +163,29 @@ func appendFillLastChild(ctx context.Context, fsn *h.FSNodeOverDag, depth int, r
 	// Recursive step, grab last child
 	last := fsn.NumChildren() - 1
 	lastChild, err := fsn.GetChild(ctx, last, db.GetDagServ())
-	if err != nil {
+	if err != nil && err != dag.ErrNotProtobuf {
 		return err
 	}
 
-	// Fill out last child (may not be full tree)
-	newChild, nchildSize, err := appendRec(ctx, lastChild, db, depth-1)
-	if err != nil {
-		return err
-	}
+	// If the base was built with another number of links its last child
+	// may be a leaf (possibly raw), which cannot be filled any further.
+	if err == nil && lastChild.NumChildren() > 0 {
+		// Fill out last child (may not be full tree)
+		newChild, nchildSize, err := appendRec(ctx, lastChild, db, depth-1)
+		if err != nil {
+			return err
+		}
 
-	// Update changed child in parent node
-	fsn.RemoveChild(last, db)
-	filledNode, err := newChild.Commit()
-	if err != nil {
-		return err
-	}
-	err = fsn.AddChild(filledNode, nchildSize, db)
-	if err != nil {
-		return err
+		// Update changed child in parent node
+		fsn.RemoveChild(last, db)
+		filledNode, err := newChild.Commit()
+		if err != nil {
+			return err
+		}
+		err = fsn.AddChild(filledNode, nchildSize, db)
+		if err != nil {
+			return err
+		}
 	}
 
 	// Partially filled depth layer
-- 
2.43.0


From fa4912e1b6d1cbdf1444b2b6dbd2bea07d53c323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:57 +0000
Subject: [PATCH 05/30] fix: trickle.Append keeps the content of a leaf base

---
 importer/trickle/trickledag.go | 48 ++++++++++++++++++++++++++++------
 1 file changed, 40 insertions(+), 8 deletions(-)

diff --git a/importer/trickle/trickledag.go b/importer/trickle/trickledag.go
index 2e533e3..07dff87 100644
--- a/importer/trickle/trickledag.go
+++ b/importer/trickle/trickledag.go
@@ -92,14 +92,7 @@ func fillTrickleRec(db *h.DagBuilderHelper, node *h.FSNodeOverDag, maxDepth int)
 //
 // Deprecated: use github.com/ipfs/boxo/ipld/unixfs/importer/trickle.Append
 func Append(ctx context.Context, basen ipld.Node, db *h.DagBuilderHelper) (out ipld.Node, errOut error) {
-	base, ok := basen.(*dag.ProtoNode)
-	if !ok {
-		return nil, dag.ErrNotProtobuf
-	}
-
-	// Convert to unixfs node for working with easily
-
-	fsn, err := h.NewFSNFromDag(base)
+	fsn, err := appendRoot(basen, db)
 	if err != nil {
 		return nil, err
 	}
@@ -153,6 +146,45 @@ func Append(ctx context.Context, basen ipld.Node, db *h.DagBuilderHelper) (out i
 	return fsn.GetDagNode()
 }
 
+// appendRoot converts the base of an `Append` to the UnixFS node that will
+// be the root of the extended DAG.
+func appendRoot(basen ipld.Node, db *h.DagBuilderHelper) (*h.FSNodeOverDag, error) {
+	var data []byte
+	switch base := basen.(type) {
+	case *dag.ProtoNode:
+		fsn, err := h.NewFSNFromDag(base)
+		if err != nil {
+			return nil, err
+		}
+		data, err = ft.ReadUnixFSNodeData(base)
+		if err != nil {
+			return nil, err
+		}
+		if len(data) == 0 || fsn.NumChildren() > 0 {
+			return fsn, nil
+		}
+	case *dag.RawNode:
+		data = base.RawData()
+	default:
+		return nil, dag.ErrNotProtobuf
+	}
+
+	// The base is a leaf: inner nodes don't carry data, so its content has
+	// to become the first child of a new root.
+	root := db.NewFSNodeOverDag(ft.TFile)
+	if len(data) == 0 {
+		return root, nil
+	}
+	leaf, err := db.NewLeafNode(data, ft.TRaw)
+	if err != nil {
+		return nil, err
+	}
+	if err := root.AddChild(leaf, uint64(len(data)), db); err != nil {
+		return nil, err
+	}
+	return root, nil
+}
+
 func appendFillLastChild(ctx context.Context, fsn *h.FSNodeOverDag, depth int, repeatNumber int, db *h.DagBuilderHelper) error {
 	if fsn.NumChildren() <= db.Maxlinks() {
 		return nil
-- 
2.43.0


From 47420ece315d8adecddcf68f1d87794a63ab4a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:08 +0000
Subject: [PATCH 06/30] fix: trickle.Append puts sub-tries at the depth their
 position allows

---
 importer/trickle/trickledag.go | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/importer/trickle/trickledag.go b/importer/trickle/trickledag.go
index 07dff87..05684e2 100644
--- a/importer/trickle/trickledag.go
+++ b/importer/trickle/trickledag.go
@@ -116,12 +116,12 @@ func Append(ctx context.Context, basen ipld.Node, db *h.DagBuilderHelper) (out i
 	}
 
 	// Last child in this node may not be a full tree, lets fill it up.
-	if err := appendFillLastChild(ctx, fsn, depth-1, repeatNumber, db); err != nil {
+	if err := appendFillLastChild(ctx, fsn, depth, repeatNumber, db); err != nil {
 		return nil, err
 	}
 
-	// after appendFillLastChild, our depth is now increased by one
-	if !db.Done() {
+	// appendFillLastChild completed the layer if it was partially filled
+	if repeatNumber != 0 {
 		depth++
 	}
 
@@ -202,8 +202,13 @@ func appendFillLastChild(ctx context.Context, fsn *h.FSNodeOverDag, depth int, r
 	// If the base was built with another number of links its last child
 	// may be a leaf (possibly raw), which cannot be filled any further.
 	if err == nil && lastChild.NumChildren() > 0 {
-		// Fill out last child (may not be full tree)
-		newChild, nchildSize, err := appendRec(ctx, lastChild, db, depth-1)
+		// Fill out last child (may not be full tree), which belongs to the
+		// previous layer if that one is complete.
+		lastDepth := depth
+		if repeatNumber == 0 {
+			lastDepth--
+		}
+		newChild, nchildSize, err := appendRec(ctx, lastChild, db, lastDepth)
 		if err != nil {
 			return err
 		}
@@ -255,8 +260,8 @@ func appendRec(ctx context.Context, fsn *h.FSNodeOverDag, db *h.DagBuilderHelper
 	}
 	// TODO: Same as `appendFillLastChild`, when is this case possible?
 
-	// If at correct depth, no need to continue
-	if depth == maxDepth {
+	// If beyond the correct depth, no need to continue
+	if depth > maxDepth || depth == maxDepth && repeatNumber != 0 {
 		return fsn, fsn.FileSize(), nil
 	}
 
@@ -264,8 +269,8 @@ func appendRec(ctx context.Context, fsn *h.FSNodeOverDag, db *h.DagBuilderHelper
 		return nil, 0, err
 	}
 
-	// after appendFillLastChild, our depth is now increased by one
-	if !db.Done() {
+	// appendFillLastChild completed the layer if it was partially filled
+	if repeatNumber != 0 {
 		depth++
 	}
 
-- 
2.43.0


From 2d98a27421a04fe6ad1f256bd40a5ab5ea49ae68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:46 +0000
Subject: [PATCH 07/30] fix: a failed append leaves the modifier's current node
 alone

---
 mod/dagmodifier.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mod/dagmodifier.go b/mod/dagmodifier.go
index 9791437..0a780f8 100644
--- a/mod/dagmodifier.go
+++ b/mod/dagmodifier.go
@@ -374,7 +374,9 @@ func (dm *DagModifier) appendData(nd ipld.Node, spl chunker.Splitter) (ipld.Node
 		if err != nil {
 			return nil, err
 		}
-		return trickle.Append(dm.ctx, nd, db)
+		// Append extends the node it is given, which may also be the current
+		// one if anything fails, so give it a copy.
+		return trickle.Append(dm.ctx, nd.Copy(), db)
 	default:
 		return nil, ErrNotUnixfs
 	}
-- 
2.43.0


From 810f953186e8ffdecde3cc1448f32bd0012c0368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:46 +0000
Subject: [PATCH 08/30] fix: modifyDag does not write through link objects
 shared with other nodes

---
 mod/dagmodifier.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mod/dagmodifier.go b/mod/dagmodifier.go
index 0a780f8..9eb1bf0 100644
--- a/mod/dagmodifier.go
+++ b/mod/dagmodifier.go
@@ -319,6 +319,7 @@ func (dm *DagModifier) modifyDag(n ipld.Node, offset uint64) (cid.Cid, error) {
 	if !ok {
 		return cid.Cid{}, ErrNotUnixfs
 	}
+	node = node.Copy().(*mdag.ProtoNode)
 
 	fsn, err := ft.FSNodeFromBytes(node.Data())
 	if err != nil {
@@ -339,7 +340,10 @@ func (dm *DagModifier) modifyDag(n ipld.Node, offset uint64) (cid.Cid, error) {
 				return cid.Cid{}, err
 			}
 
-			node.Links()[i].Cid = k
+			// The link object is shared with the copies of this node.
+			lnk := *node.Links()[i]
+			lnk.Cid = k
+			node.Links()[i] = &lnk
 
 			// Recache serialized node
 			_, err = node.EncodeProtobuf(true)
-- 
2.43.0


From 77c1c295eba0af0879e3b06a47b3e3d19bc7cd56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:47 +0000
Subject: [PATCH 09/30] fix: dagTruncate works on copies so that a failure
 changes nothing

---
 mod/dagmodifier.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mod/dagmodifier.go b/mod/dagmodifier.go
index 9eb1bf0..58de3f8 100644
--- a/mod/dagmodifier.go
+++ b/mod/dagmodifier.go
@@ -544,6 +544,7 @@ func (dm *DagModifier) dagTruncate(ctx context.Context, n ipld.Node, size uint64
 			if err != nil {
 				return nil, err
 			}
+			nd = nd.Copy().(*mdag.ProtoNode)
 			nd.SetData(ft.WrapData(fsn.Data()[:size]))
 			return nd, nil
 		case *mdag.RawNode:
@@ -555,6 +556,7 @@ func (dm *DagModifier) dagTruncate(ctx context.Context, n ipld.Node, size uint64
 	if !ok {
 		return nil, ErrNotUnixfs
 	}
+	nd = nd.Copy().(*mdag.ProtoNode)
 
 	var cur uint64
 	end := 0
-- 
2.43.0


From e10b33c31ad17938135be3980fc61cd5a9a4d9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:01 +0000
Subject: [PATCH 10/30] fix: a failed Sync keeps the modifier's node and
 buffered data

---
 mod/dagmodifier.go | 37 ++++++++++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/mod/dagmodifier.go b/mod/dagmodifier.go
index 58de3f8..ca277e3 100644
--- a/mod/dagmodifier.go
+++ b/mod/dagmodifier.go
@@ -221,34 +221,49 @@ func (dm *DagModifier) Sync() error {
 		}
 	}
 
+	// The buffer is consumed while writing, keep its contents to be able to
+	// try again if that fails.
+	buffered := dm.wrBuf.Bytes()
+	nnode, err := dm.writeBuffer()
+	if err != nil {
+		dm.wrBuf = bytes.NewBuffer(buffered)
+		return err
+	}
+
+	dm.curNode = nnode
+	dm.writeStart += uint64(buflen)
+	dm.wrBuf = nil
+
+	return nil
+}
+
+// writeBuffer returns the current node with the buffered data written to it.
+func (dm *DagModifier) writeBuffer() (ipld.Node, error) {
 	// overwrite existing dag nodes
 	thisc, err := dm.modifyDag(dm.curNode, dm.writeStart)
 	if err != nil {
-		return err
+		return nil, err
 	}
 
-	dm.curNode, err = dm.dagserv.Get(dm.ctx, thisc)
+	nnode, err := dm.dagserv.Get(dm.ctx, thisc)
 	if err != nil {
-		return err
+		return nil, err
 	}
 
 	// need to write past end of current dag
 	if dm.wrBuf.Len() > 0 {
-		dm.curNode, err = dm.appendData(dm.curNode, dm.splitter(dm.wrBuf))
+		nnode, err = dm.appendData(nnode, dm.splitter(dm.wrBuf))
 		if err != nil {
-			return err
+			return nil, err
 		}
 
-		err = dm.dagserv.Add(dm.ctx, dm.curNode)
+		err = dm.dagserv.Add(dm.ctx, nnode)
 		if err != nil {
-			return err
+			return nil, err
 		}
 	}
 
-	dm.writeStart += uint64(buflen)
-	dm.wrBuf = nil
-
-	return nil
+	return nnode, nil
 }
 
 // modifyDag writes the data in 'dm.wrBuf' over the data in 'node' starting at 'offset'
-- 
2.43.0


From 5f803a1c49ef26aae4d71fcaa1ad15658262cafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:01 +0000
Subject: [PATCH 11/30] fix: the modifier does not read on from a node it has
 replaced

---
 mod/dagmodifier.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/mod/dagmodifier.go b/mod/dagmodifier.go
index ca277e3..d1895f0 100644
--- a/mod/dagmodifier.go
+++ b/mod/dagmodifier.go
@@ -142,14 +142,22 @@ func (dm *DagModifier) expandSparse(size int64) error {
 		return err
 	}
 	dm.curNode = nnode
+	dm.dropReader()
 	return nil
 }
 
-// Write continues writing to the dag at the current offset
-func (dm *DagModifier) Write(b []byte) (int, error) {
+// dropReader ends the active reader (if any), to be called whenever the node
+// it reads is not the current one anymore.
+func (dm *DagModifier) dropReader() {
 	if dm.read != nil {
 		dm.read = nil
+		dm.readCancel()
 	}
+}
+
+// Write continues writing to the dag at the current offset
+func (dm *DagModifier) Write(b []byte) (int, error) {
+	dm.dropReader()
 	if dm.wrBuf == nil {
 		dm.wrBuf = new(bytes.Buffer)
 	}
@@ -203,10 +211,7 @@ func (dm *DagModifier) Sync() error {
 	}
 
 	// If we have an active reader, kill it
-	if dm.read != nil {
-		dm.read = nil
-		dm.readCancel()
-	}
+	dm.dropReader()
 
 	// Number of bytes we're going to write
 	buflen := dm.wrBuf.Len()
@@ -546,6 +551,7 @@ func (dm *DagModifier) Truncate(size int64) error {
 	}
 
 	dm.curNode = nnode
+	dm.dropReader()
 	return nil
 }
 
-- 
2.43.0


From a74bcc43f5caf634afadd07625353dabaa23a723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:02 +0000
Subject: [PATCH 12/30] fix: modifier writes land at the cursor or at the
 offset given

---
 mod/dagmodifier.go | 26 ++++++++------------------
 1 file changed, 8 insertions(+), 18 deletions(-)

diff --git a/mod/dagmodifier.go b/mod/dagmodifier.go
index d1895f0..fe8b21b 100644
--- a/mod/dagmodifier.go
+++ b/mod/dagmodifier.go
@@ -91,30 +91,19 @@ func (dm *DagModifier) WriteAt(b []byte, offset int64) (int, error) {
 	// TODO: this is currently VERY inefficient
 	// each write that happens at an offset other than the current one causes a
 	// flush to disk, and dag rewrite
-	if offset == int64(dm.writeStart) && dm.wrBuf != nil {
-		// If we would overwrite the previous write
-		if len(b) >= dm.wrBuf.Len() {
-			dm.wrBuf.Reset()
-		}
+	if offset == int64(dm.writeStart) && dm.wrBuf != nil && len(b) >= dm.wrBuf.Len() {
+		// We would overwrite the previous write
+		dm.wrBuf.Reset()
 	} else if uint64(offset) != dm.curWrOff {
-		size, err := dm.Size()
-		if err != nil {
-			return 0, err
-		}
-		if offset > size {
-			err := dm.expandSparse(offset - size)
-			if err != nil {
-				return 0, err
-			}
-		}
-
-		err = dm.Sync()
+		// A gap between the end of the file and the offset is filled when
+		// the data is written out.
+		err := dm.Sync()
 		if err != nil {
 			return 0, err
 		}
-		dm.writeStart = uint64(offset)
 	}
 
+	dm.curWrOff = uint64(offset)
 	return dm.Write(b)
 }
 
@@ -160,6 +149,7 @@ func (dm *DagModifier) Write(b []byte) (int, error) {
 	dm.dropReader()
 	if dm.wrBuf == nil {
 		dm.wrBuf = new(bytes.Buffer)
+		dm.writeStart = dm.curWrOff
 	}
 
 	n, err := dm.wrBuf.Write(b)
-- 
2.43.0


From 893fbc6aeb87f986447579205b9968ee310b5f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:02 +0000
Subject: [PATCH 13/30] fix: the modifier rejects negative offsets and seeks
 from the end forward

---
 mod/dagmodifier.go | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/mod/dagmodifier.go b/mod/dagmodifier.go
index fe8b21b..39b0fec 100644
--- a/mod/dagmodifier.go
+++ b/mod/dagmodifier.go
@@ -29,6 +29,8 @@ var (
 	ErrNotUnixfs = errors.New("dagmodifier only supports unixfs nodes (proto or raw)")
 )
 
+var errNegativeOffset = errors.New("negative offset")
+
 // 2MB
 var writebufferSize = 1 << 21
 
@@ -91,6 +93,9 @@ func (dm *DagModifier) WriteAt(b []byte, offset int64) (int, error) {
 	// TODO: this is currently VERY inefficient
 	// each write that happens at an offset other than the current one causes a
 	// flush to disk, and dag rewrite
+	if offset < 0 {
+		return 0, errNegativeOffset
+	}
 	if offset == int64(dm.writeStart) && dm.wrBuf != nil && len(b) >= dm.wrBuf.Len() {
 		// We would overwrite the previous write
 		dm.wrBuf.Reset()
@@ -479,29 +484,33 @@ func (dm *DagModifier) Seek(offset int64, whence int) (int64, error) {
 		return 0, err
 	}
 
-	var newoffset uint64
+	var newoffset int64
 	switch whence {
 	case io.SeekCurrent:
-		newoffset = dm.curWrOff + uint64(offset)
+		newoffset = int64(dm.curWrOff) + offset
 	case io.SeekStart:
-		newoffset = uint64(offset)
+		newoffset = offset
 	case io.SeekEnd:
-		newoffset = uint64(fisize) - uint64(offset)
+		newoffset = fisize + offset
 	default:
 		return 0, ErrUnrecognizedWhence
 	}
+	if newoffset < 0 {
+		return 0, errNegativeOffset
+	}
 
-	if int64(newoffset) > fisize {
-		if err := dm.expandSparse(int64(newoffset) - fisize); err != nil {
+	if newoffset > fisize {
+		if err := dm.expandSparse(newoffset - fisize); err != nil {
 			return 0, err
 		}
 	}
-	dm.curWrOff = newoffset
-	dm.writeStart = newoffset
+	dm.curWrOff = uint64(newoffset)
+	dm.writeStart = uint64(newoffset)
 
 	if dm.read != nil {
-		_, err = dm.read.Seek(offset, whence)
+		_, err = dm.read.Seek(newoffset, io.SeekStart)
 		if err != nil {
+			dm.dropReader()
 			return 0, err
 		}
 	}
@@ -512,6 +521,10 @@ func (dm *DagModifier) Seek(offset int64, whence int) (int64, error) {
 // Truncate truncates the current Node to 'size' and replaces it with the
 // new one.
 func (dm *DagModifier) Truncate(size int64) error {
+	if size < 0 {
+		return errNegativeOffset
+	}
+
 	err := dm.Sync()
 	if err != nil {
 		return err
-- 
2.43.0


From 16df05fc2c92452b4fcaeaa021e1e1e382aa877d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:23 +0000
Subject: [PATCH 14/30] fix: wait for the size enumeration of a sharded
 directory to end

---
 io/directory.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/io/directory.go b/io/directory.go
index a0ec307..1d3efff 100644
--- a/io/directory.go
+++ b/io/directory.go
@@ -516,10 +516,17 @@ func (d *HAMTDirectory) sizeBelowThreshold(ctx context.Context, sizeChange int)
 	partialSize := 0
 
 	// We stop the enumeration once we have enough information and exit this function.
-	ctx, cancel := context.WithCancel(ctx)
-	defer cancel()
+	// The enumeration reads the shard in the background, so wait for it to end:
+	// the caller is about to change the shard.
+	enumCtx, cancel := context.WithCancel(ctx)
+	linkResults := d.EnumLinksAsync(enumCtx)
+	defer func() {
+		cancel()
+		for range linkResults {
+		}
+	}()
 
-	for linkResult := range d.EnumLinksAsync(ctx) {
+	for linkResult := range linkResults {
 		if linkResult.Err != nil {
 			return false, linkResult.Err
 		}
-- 
2.43.0


From 2ea50626894268ae18c0bc7fff4253c50bc29680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:23 +0000
Subject: [PATCH 15/30] fix: a cancelled size enumeration is not taken for a
 small directory

---
 io/directory.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/io/directory.go b/io/directory.go
index 1d3efff..69266b4 100644
--- a/io/directory.go
+++ b/io/directory.go
@@ -539,6 +539,11 @@ func (d *HAMTDirectory) sizeBelowThreshold(ctx context.Context, sizeChange int)
 		}
 	}
 
+	// The enumeration also ends early, without an error, if it is canceled.
+	if err := ctx.Err(); err != nil {
+		return false, err
+	}
+
 	// We enumerated *all* links in all shards and didn't reach the threshold.
 	return true, nil
 }
-- 
2.43.0


From 316a22b17f9638aca78f2696bc0697be754536c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:23 +0000
Subject: [PATCH 16/30] fix: count the size change of a sharded directory from
 after the switch

---
 io/directory.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/io/directory.go b/io/directory.go
index 69266b4..5846251 100644
--- a/io/directory.go
+++ b/io/directory.go
@@ -605,6 +605,9 @@ func (d *DynamicDirectory) AddChild(ctx context.Context, name string, nd ipld.No
 	if err != nil {
 		return err
 	}
+	// The size change is relative to a directory known to be at or above the
+	// threshold, which includes the entry just added.
+	hamtDir.sizeChange = 0
 	d.Directory = hamtDir
 	return nil
 }
-- 
2.43.0


From 4129ccba0f0036e3c9eb81a72c81e556687853f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:24 +0000
Subject: [PATCH 17/30] fix: EnumLinks reports a cancelled enumeration

---
 hamt/hamt.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hamt/hamt.go b/hamt/hamt.go
index e789aa8..7cbc642 100644
--- a/hamt/hamt.go
+++ b/hamt/hamt.go
@@ -398,7 +398,8 @@ func (ds *Shard) EnumLinks(ctx context.Context) ([]*ipld.Link, error) {
 		}
 		links = append(links, linkResult.Link)
 	}
-	return links, nil
+	// The enumeration just stops if it is canceled.
+	return links, ctx.Err()
 }
 
 // ForEachLink walks the Shard and calls the given function.
-- 
2.43.0


From 6d076f75f764564ca94f4c69032daeb342be684c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:31 +0000
Subject: [PATCH 18/30] fix: MetadataFromBytes returns the recorded size

---
 unixfs.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/unixfs.go b/unixfs.go
index f5020e0..643dbf6 100644
--- a/unixfs.go
+++ b/unixfs.go
@@ -365,6 +365,7 @@ func MetadataFromBytes(b []byte) (*Metadata, error) {
 	}
 	md := new(Metadata)
 	md.MimeType = pbm.GetMimeType()
+	md.Size = pbd.GetFilesize()
 	return md, nil
 }
 
-- 
2.43.0


From 09fc6444cfd1204d484ec96da279101bbc2721c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:31 +0000
Subject: [PATCH 19/30] fix: Links of a basic directory is not the list the
 directory edits

---
 io/directory.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/io/directory.go b/io/directory.go
index 5846251..c1bb9f0 100644
--- a/io/directory.go
+++ b/io/directory.go
@@ -290,7 +290,8 @@ func (d *BasicDirectory) ForEachLink(_ context.Context, f func(*ipld.Link) error
 
 // Links implements the `Directory` interface.
 func (d *BasicDirectory) Links(ctx context.Context) ([]*ipld.Link, error) {
-	return d.node.Links(), nil
+	// The node edits its list of links in place, so hand out a copy.
+	return append([]*ipld.Link(nil), d.node.Links()...), nil
 }
 
 // Find implements the `Directory` interface.
-- 
2.43.0


From 674d90a0c14983831c6757942fe0312b247afd6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:32 +0000
Subject: [PATCH 20/30] fix: GetNode of a basic directory is not the node the
 directory edits

---
 io/directory.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/io/directory.go b/io/directory.go
index c1bb9f0..aeecf03 100644
--- a/io/directory.go
+++ b/io/directory.go
@@ -331,7 +331,8 @@ func (d *BasicDirectory) RemoveChild(ctx context.Context, name string) error {
 
 // GetNode implements the `Directory` interface.
 func (d *BasicDirectory) GetNode() (ipld.Node, error) {
-	return d.node, nil
+	// A copy, as the directory goes on editing its own node.
+	return d.node.Copy(), nil
 }
 
 // GetCidBuilder implements the `Directory` interface.
-- 
2.43.0


From 77e25865a59f0ccd2e4f58e50727ef509811b9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:32 +0000
Subject: [PATCH 21/30] fix: a shard does not hand out the links it renames

---
 hamt/hamt.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/hamt/hamt.go b/hamt/hamt.go
index 7cbc642..379c1e0 100644
--- a/hamt/hamt.go
+++ b/hamt/hamt.go
@@ -315,7 +315,9 @@ func (ds *Shard) Find(ctx context.Context, name string) (*ipld.Link, error) {
 
 	var out *ipld.Link
 	err := ds.getValue(ctx, hv, name, func(sv *Shard) error {
-		out = sv.val
+		// A copy, as the link of an entry is renamed when the entry moves.
+		lnk := *sv.val
+		out = &lnk
 		return nil
 	})
 	if err != nil {
@@ -405,10 +407,10 @@ func (ds *Shard) EnumLinks(ctx context.Context) ([]*ipld.Link, error) {
 // ForEachLink walks the Shard and calls the given function.
 func (ds *Shard) ForEachLink(ctx context.Context, f func(*ipld.Link) error) error {
 	return ds.walkTrie(ctx, func(sv *Shard) error {
-		lnk := sv.val
+		lnk := *sv.val
 		lnk.Name = sv.key
 
-		return f(lnk)
+		return f(&lnk)
 	})
 }
 
-- 
2.43.0


From bc98b44642cc7d0a0eb2b9fa08e7c5f16ab02218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:32 +0000
Subject: [PATCH 22/30] fix: iterators of a file-tree directory do not share
 its shards

---
 file/unixfile.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/file/unixfile.go b/file/unixfile.go
index 00f8e25..3d89d88 100644
--- a/file/unixfile.go
+++ b/file/unixfile.go
@@ -19,7 +19,7 @@ const prefetchFiles = 4
 type ufsDirectory struct {
 	ctx   context.Context
 	dserv ipld.DAGService
-	dir   uio.Directory
+	nd    *dag.ProtoNode
 	size  int64
 }
 
@@ -93,8 +93,15 @@ func (d *ufsDirectory) Close() error {
 func (d *ufsDirectory) Entries() files.DirIterator {
 	fileCh := make(chan *ipld.Link, prefetchFiles)
 	errCh := make(chan error, 1)
+
+	// Listing loads shards into the directory, so each iterator gets its own.
+	dir, err := uio.NewDirectoryFromNode(d.dserv, d.nd)
+	if err != nil {
+		return &ufsIterator{err: err}
+	}
+
 	go func() {
-		errCh <- d.dir.ForEachLink(d.ctx, func(link *ipld.Link) error {
+		errCh <- dir.ForEachLink(d.ctx, func(link *ipld.Link) error {
 			if d.ctx.Err() != nil {
 				return d.ctx.Err()
 			}
@@ -131,7 +138,8 @@ func (f *ufsFile) Size() (int64, error) {
 }
 
 func newUnixfsDir(ctx context.Context, dserv ipld.DAGService, nd *dag.ProtoNode) (files.Directory, error) {
-	dir, err := uio.NewDirectoryFromNode(dserv, nd)
+	// Check that it is a directory that can be listed.
+	_, err := uio.NewDirectoryFromNode(dserv, nd)
 	if err != nil {
 		return nil, err
 	}
@@ -145,7 +153,7 @@ func newUnixfsDir(ctx context.Context, dserv ipld.DAGService, nd *dag.ProtoNode)
 		ctx:   ctx,
 		dserv: dserv,
 
-		dir:  dir,
+		nd:   nd,
 		size: int64(size),
 	}, nil
 }
-- 
2.43.0


From eaf9e7cd24075021424d86a5a6aaab73892155e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:33 +0000
Subject: [PATCH 23/30] fix: reject shards whose bitfield does not match their
 width or links

---
 hamt/hamt.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hamt/hamt.go b/hamt/hamt.go
index 379c1e0..6573674 100644
--- a/hamt/hamt.go
+++ b/hamt/hamt.go
@@ -165,7 +165,13 @@ func NewHamtFromDag(dserv ipld.DAGService, nd ipld.Node) (*Shard, error) {
 		return nil, err
 	}
 
+	if len(fsn.Data()) > len(ds.childer.bitfield) {
+		return nil, fmt.Errorf("bitfield of %d bytes is too long for a shard of width %d", len(fsn.Data()), size)
+	}
 	ds.childer.makeChilder(fsn.Data(), pbnd.Links())
+	if ones := ds.childer.bitfield.Ones(); ones != len(pbnd.Links()) {
+		return nil, fmt.Errorf("shard has %d links but %d bits set in its bitfield", len(pbnd.Links()), ones)
+	}
 
 	ds.hashFunc = fsn.HashType()
 	ds.builder = pbnd.CidBuilder()
-- 
2.43.0


From 96f01af7dd339c6e779ae806c29a021951873e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:33 +0000
Subject: [PATCH 24/30] fix: encoding a shard with a malformed link name is an
 error

---
 hamt/hamt.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hamt/hamt.go b/hamt/hamt.go
index 6573674..04b24b9 100644
--- a/hamt/hamt.go
+++ b/hamt/hamt.go
@@ -215,6 +215,9 @@ func (ds *Shard) Node() (ipld.Node, error) {
 		} else {
 			// child unloaded, just copy in link with updated name
 			lnk := ds.childer.link(sliceIndex)
+			if _, err := ds.childLinkType(lnk); err != nil {
+				return nil, err
+			}
 			label := lnk.Name[ds.maxpadlen:]
 
 			err := out.AddRawLink(ds.linkNamePrefix(childIndex)+label, lnk)
-- 
2.43.0


From d2a9cc1fa16b735591dfdeb921b03a32f460a221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:33 +0000
Subject: [PATCH 25/30] fix: resolving an empty path in a sharded directory is
 an error

---
 io/resolve.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/io/resolve.go b/io/resolve.go
index 0c2cb6e..6868269 100644
--- a/io/resolve.go
+++ b/io/resolve.go
@@ -2,6 +2,7 @@ package io
 
 import (
 	"context"
+	"fmt"
 
 	dag "github.com/ipfs/go-merkledag"
 	ft "github.com/ipfs/go-unixfs"
@@ -30,6 +31,10 @@ func ResolveUnixfsOnce(ctx context.Context, ds ipld.NodeGetter, nd ipld.Node, na
 				return nil, nil, err
 			}
 
+			if len(names) == 0 {
+				return nil, nil, fmt.Errorf("end of path, no more links to resolve")
+			}
+
 			out, err := s.Find(ctx, names[0])
 			if err != nil {
 				return nil, nil, err
-- 
2.43.0


From a77c8d975e2bed20c03e1bec69d3bfb40ac6eb9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:24 +0000
Subject: [PATCH 26/30] fix: the modifier rejects malformed file nodes instead
 of panicking

---
 mod/dagmodifier.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/mod/dagmodifier.go b/mod/dagmodifier.go
index 39b0fec..e0c2e5d 100644
--- a/mod/dagmodifier.go
+++ b/mod/dagmodifier.go
@@ -7,6 +7,7 @@ import (
 	"context"
 	"errors"
 	"io"
+	"math"
 
 	ft "github.com/ipfs/go-unixfs"
 	help "github.com/ipfs/go-unixfs/importer/helpers"
@@ -190,6 +191,9 @@ func fileSize(n ipld.Node) (uint64, error) {
 		if err != nil {
 			return 0, err
 		}
+		if fsn.FileSize() > math.MaxInt64 {
+			return 0, ft.ErrMalformedFileFormat
+		}
 		return fsn.FileSize(), nil
 	case *mdag.RawNode:
 		return uint64(len(nd.RawData())), nil
@@ -278,6 +282,10 @@ func (dm *DagModifier) modifyDag(n ipld.Node, offset uint64) (cid.Cid, error) {
 				return cid.Cid{}, err
 			}
 
+			if offset > uint64(len(fsn.Data())) {
+				return cid.Cid{}, ft.ErrMalformedFileFormat
+			}
+
 			_, err = dm.wrBuf.Read(fsn.Data()[offset:])
 			if err != nil && err != io.EOF {
 				return cid.Cid{}, err
@@ -300,6 +308,9 @@ func (dm *DagModifier) modifyDag(n ipld.Node, offset uint64) (cid.Cid, error) {
 			return nd.Cid(), nil
 		case *mdag.RawNode:
 			origData := nd0.RawData()
+			if offset > uint64(len(origData)) {
+				return cid.Cid{}, ft.ErrMalformedFileFormat
+			}
 			bytes := make([]byte, len(origData))
 
 			// copy orig data up to offset
@@ -341,6 +352,10 @@ func (dm *DagModifier) modifyDag(n ipld.Node, offset uint64) (cid.Cid, error) {
 		return cid.Cid{}, err
 	}
 
+	if len(fsn.BlockSizes()) != len(node.Links()) {
+		return cid.Cid{}, ft.ErrMalformedFileFormat
+	}
+
 	var cur uint64
 	for i, bs := range fsn.BlockSizes() {
 		// We found the correct child to write into
@@ -568,10 +583,16 @@ func (dm *DagModifier) dagTruncate(ctx context.Context, n ipld.Node, size uint64
 			if err != nil {
 				return nil, err
 			}
+			if size > uint64(len(fsn.Data())) {
+				return nil, ft.ErrMalformedFileFormat
+			}
 			nd = nd.Copy().(*mdag.ProtoNode)
 			nd.SetData(ft.WrapData(fsn.Data()[:size]))
 			return nd, nil
 		case *mdag.RawNode:
+			if size > uint64(len(nd.RawData())) {
+				return nil, ft.ErrMalformedFileFormat
+			}
 			return mdag.NewRawNodeWPrefix(nd.RawData()[:size], nd.Cid().Prefix())
 		}
 	}
@@ -619,6 +640,9 @@ func (dm *DagModifier) dagTruncate(ctx context.Context, n ipld.Node, size uint64
 		cur += childsize
 		ndata.AddBlockSize(childsize)
 	}
+	if modified == nil {
+		return nil, ft.ErrMalformedFileFormat
+	}
 
 	err = dm.dagserv.Add(ctx, modified)
 	if err != nil {
-- 
2.43.0


From cc6d78d68de0958bccf7d1c63137eb6610990c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:29 +0000
Subject: [PATCH 27/30] fix: nodes whose sizes and links differ in number are
 not appended to

---
 importer/helpers/dagbuilder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/importer/helpers/dagbuilder.go b/importer/helpers/dagbuilder.go
index f858c74..ab734d1 100644
--- a/importer/helpers/dagbuilder.go
+++ b/importer/helpers/dagbuilder.go
@@ -322,6 +322,9 @@ func NewFSNFromDag(nd *dag.ProtoNode) (*FSNodeOverDag, error) {
 	if err != nil {
 		return nil, err
 	}
+	if mb.NumChildren() != len(nd.Links()) {
+		return nil, ft.ErrMalformedFileFormat
+	}
 
 	return &FSNodeOverDag{
 		dag:  nd,
-- 
2.43.0


From eb3194cdf5cf56103d8234868b028d7fb74773e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:51 +0000
Subject: [PATCH 28/30] fix: reads after a malformed block skipped it and
 delivered the bytes behind it

When the data of a file block could not be decoded the failing call left the
walker past that block, so retrying the read went on with the next block at
the wrong position. Keep failing until the reader is moved.
---
 io/dagreader.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/io/dagreader.go b/io/dagreader.go
index 1239cb9..9359777 100644
--- a/io/dagreader.go
+++ b/io/dagreader.go
@@ -122,6 +122,11 @@ type dagReader struct {
 	// `readNodeDataBuffer` operation.
 	currentNodeData *bytes.Reader
 
+	// Error found extracting the data of the last node visited. The walker
+	// already stands on that node, iterating further would skip its part of
+	// the file: reads keep failing with it until the reader is moved (`Seek`).
+	currentNodeErr error
+
 	// Implements the `Size()` API.
 	size uint64
 
@@ -176,6 +181,11 @@ func (dr *dagReader) CtxReadFull(ctx context.Context, out []byte) (n int, err er
 		}
 	}
 
+	// The walker stands on a node that cannot be read, don't skip it.
+	if dr.currentNodeErr != nil {
+		return n, dr.currentNodeErr
+	}
+
 	// Iterate the DAG calling the passed `Visitor` function on every node
 	// to read its data into the `out` buffer, stop if there is an error or
 	// if the entire DAG is traversed (`EndOfDag`).
@@ -226,6 +236,7 @@ func (dr *dagReader) CtxReadFull(ctx context.Context, out []byte) (n int, err er
 func (dr *dagReader) saveNodeData(node ipld.Node) error {
 	extractedNodeData, err := unixfs.ReadUnixFSNodeData(node)
 	if err != nil {
+		dr.currentNodeErr = err
 		return err
 	}
 
@@ -301,6 +312,11 @@ func (dr *dagReader) WriteTo(w io.Writer) (n int64, err error) {
 		}
 	}
 
+	// The walker stands on a node that cannot be read, don't skip it.
+	if dr.currentNodeErr != nil {
+		return n, dr.currentNodeErr
+	}
+
 	// Iterate the DAG calling the passed `Visitor` function on every node
 	// to read its data into the `out` buffer, stop if there is an error or
 	// if the entire DAG is traversed (`EndOfDag`).
@@ -359,7 +375,7 @@ func (dr *dagReader) Seek(offset int64, whence int) (int64, error) {
 			return dr.offset, errors.New("invalid offset")
 		}
 
-		if offset == dr.offset {
+		if offset == dr.offset && dr.currentNodeErr == nil {
 			return offset, nil
 			// Already at the requested `offset`, nothing to do.
 		}
@@ -493,6 +509,7 @@ func (dr *dagReader) Seek(offset int64, whence int) (int64, error) {
 // in the `SeekStart` case.
 func (dr *dagReader) resetPosition() {
 	dr.currentNodeData = nil
+	dr.currentNodeErr = nil
 	dr.offset = 0
 
 	dr.dagWalker = ipld.NewWalker(dr.ctx, ipld.NewNavigableIPLDNode(dr.rootNode, dr.serv))
-- 
2.43.0


From 9227b17aee9cff3157f420e3661678bf94127d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:07 +0000
Subject: [PATCH 29/30] fix: replacing and removing entries of a sharded
 directory miscounted its size change

The link which the shard hands back carries its internal, prefixed name, so
each replacement made the directory appear smaller than it was. Directories
which had not shrunk were then measured anew, fetching their shards, on every
further update.
---
 io/directory.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/io/directory.go b/io/directory.go
index aeecf03..4cee409 100644
--- a/io/directory.go
+++ b/io/directory.go
@@ -375,7 +375,7 @@ func (d *HAMTDirectory) AddChild(ctx context.Context, name string, nd ipld.Node)
 	}
 
 	if oldChild != nil {
-		d.removeFromSizeChange(oldChild.Name, oldChild.Cid)
+		d.removeFromSizeChange(name, oldChild.Cid)
 	}
 	d.addToSizeChange(name, nd.Cid())
 	return nil
@@ -415,7 +415,7 @@ func (d *HAMTDirectory) RemoveChild(ctx context.Context, name string) error {
 	}
 
 	if oldChild != nil {
-		d.removeFromSizeChange(oldChild.Name, oldChild.Cid)
+		d.removeFromSizeChange(name, oldChild.Cid)
 	}
 
 	return nil
-- 
2.43.0


From cf1ad9b300cafce63736ead8c15cf379cc5618cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:01 +0000
Subject: [PATCH 30/30] fix: the modifier puts no bytes elsewhere when a
 child's recorded size is wrong

Overwriting or truncating a file in which a child holds more or fewer bytes
than its parent records shifted the written bytes into the neighbouring
children; such a file is malformed, and the operation now says so.
---
 mod/dagmodifier.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/mod/dagmodifier.go b/mod/dagmodifier.go
index e0c2e5d..953abfb 100644
--- a/mod/dagmodifier.go
+++ b/mod/dagmodifier.go
@@ -365,10 +365,19 @@ func (dm *DagModifier) modifyDag(n ipld.Node, offset uint64) (cid.Cid, error) {
 				return cid.Cid{}, err
 			}
 
+			// The child takes everything up to its recorded end.
+			rest := 0
+			if n := cur + bs - offset; n < uint64(dm.wrBuf.Len()) {
+				rest = dm.wrBuf.Len() - int(n)
+			}
+
 			k, err := dm.modifyDag(child, offset-cur)
 			if err != nil {
 				return cid.Cid{}, err
 			}
+			if dm.wrBuf.Len() != rest {
+				return cid.Cid{}, ft.ErrMalformedFileFormat
+			}
 
 			// The link object is shared with the copies of this node.
 			lnk := *node.Links()[i]
@@ -610,6 +619,11 @@ func (dm *DagModifier) dagTruncate(ctx context.Context, n ipld.Node, size uint64
 	if err != nil {
 		return nil, err
 	}
+	sizes := ndata.BlockSizes()
+	if len(sizes) != len(nd.Links()) {
+		return nil, ft.ErrMalformedFileFormat
+	}
+
 	// Reset the block sizes of the node to adjust them
 	// with the new values of the truncated children.
 	ndata.RemoveAllBlockSizes()
@@ -623,6 +637,9 @@ func (dm *DagModifier) dagTruncate(ctx context.Context, n ipld.Node, size uint64
 		if err != nil {
 			return nil, err
 		}
+		if childsize != sizes[i] {
+			return nil, ft.ErrMalformedFileFormat
+		}
 
 		// found the child we want to cut
 		if size < cur+childsize {
-- 
2.43.0

