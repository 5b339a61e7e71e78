From 4fc82cb90ac96988a77c3cd9cd4bc9ba12392729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:36 +0000
Subject: [PATCH 01/38] fix: tokenise the last character of a text

The final token ended at the start of the last rune, so the last word of a
text lost its last letter (or disappeared) and did not match the same word
elsewhere.
---
 token/t.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/token/t.go b/token/t.go
index b5ff4af..1c679d6 100644
--- a/token/t.go
+++ b/token/t.go
@@ -86,17 +86,17 @@ func Tokenize(dst []T, d []byte, offset uint32) []T {
 		}
 		inWord = false
 	}
-	if j < i {
+	if j < len(d) {
 		if inWord {
 			dst = append(dst,
 				T{
-					Lit: d[j:i],
+					Lit: d[j:],
 					Pos: offset + uint32(j),
 					Tag: Word})
 		} else {
 			dst = append(dst,
 				T{
-					Lit: d[j:i],
+					Lit: d[j:],
 					Pos: offset + uint32(j),
 					Tag: Other})
 		}
-- 
2.43.0


From 34e32284b96012b710dba9b874b4aca421df0aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:35 +0000
Subject: [PATCH 02/38] fix: read document records without moving the shared
 file position

Lookup used Seek followed by Read on the file shared by all queries of an
index, so concurrent queries could read each other's records.
---
 dmd/t.go | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/dmd/t.go b/dmd/t.go
index deeab69..507bae2 100644
--- a/dmd/t.go
+++ b/dmd/t.go
@@ -17,7 +17,6 @@ package dmd
 
 import (
 	"encoding/binary"
-	"io"
 	"os"
 	"path/filepath"
 )
@@ -48,13 +47,8 @@ func (t *T) NumDocs() (uint64, error) {
 }
 
 func (t *T) Lookup(did uint32) (fid, start, end uint32, err error) {
-	f := t.file
-	_, err = f.Seek(int64(did)*rcdSize, 0)
-	if err != nil {
-		return
-	}
 	var buf [rcdSize]byte
-	_, err = io.ReadFull(f, buf[:])
+	_, err = t.file.ReadAt(buf[:], int64(did)*rcdSize)
 	if err != nil {
 		return
 	}
-- 
2.43.0


From 8c90dda195f479e3260bcc7cdab525be655860ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:36 +0000
Subject: [PATCH 03/38] fix: do not count the placeholder record as a document

NumDocs was one more than the number of documents added.
---
 dmd/t.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dmd/t.go b/dmd/t.go
index 507bae2..23ee04f 100644
--- a/dmd/t.go
+++ b/dmd/t.go
@@ -43,7 +43,11 @@ func (t *T) NumDocs() (uint64, error) {
 	if err != nil {
 		return 0, err
 	}
-	return uint64(fi.Size()) / rcdSize, nil
+	n := uint64(fi.Size()) / rcdSize
+	if n > 0 {
+		n-- // record 0 is a placeholder, documents start at 1
+	}
+	return n, nil
 }
 
 func (t *T) Lookup(did uint32) (fid, start, end uint32, err error) {
-- 
2.43.0


From 3ed781b264c84340c5da27f24441cd02d27fbac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:37 +0000
Subject: [PATCH 04/38] fix: append to an index under the exclusive lock

OpenIndexer took the shared lock, so an appending session could run next to
readers and other appending sessions.
---
 indexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indexer.go b/indexer.go
index fdfceb9..fa014cc 100644
--- a/indexer.go
+++ b/indexer.go
@@ -121,7 +121,7 @@ func openFromConfig(cfg *Config) (*Indexer, error) {
 	if err != nil {
 		return nil, err
 	}
-	err = res.lock.LockShared()
+	err = res.lock.Lock()
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 7ad3beba4ed2e7a2811b8a5f4b0de518d978ba15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:38 +0000
Subject: [PATCH 05/38] fix: Unlock releases the lock

It converted the lock to a shared one, which kept writers out and could even
wait for another writer.
---
 lock/unix.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lock/unix.go b/lock/unix.go
index a083eba..b69323f 100644
--- a/lock/unix.go
+++ b/lock/unix.go
@@ -26,7 +26,7 @@ func (f *File) Lock() error {
 }
 
 func (f *File) Unlock() error {
-	return unix.Flock(int(f.handle.Fd()), unix.LOCK_SH)
+	return unix.Flock(int(f.handle.Fd()), unix.LOCK_UN)
 }
 
 func (f *File) LockShared() error {
-- 
2.43.0


From 1cb3ecbd10bb47ff631473909b6d34464ae67147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:39 +0000
Subject: [PATCH 06/38] fix: clear reused result entries

A Doc in a reused result buffer kept the data loaded for an earlier document,
so locating a fingerprint in it searched the wrong text.
---
 blot.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/blot.go b/blot.go
index 8bc4915..2770c1c 100644
--- a/blot.go
+++ b/blot.go
@@ -48,6 +48,7 @@ func (b *Blot) Next(lim bool) *Doc {
 	n := len(b.Docs)
 	if lim {
 		b.Docs = b.Docs[:n+1]
+		b.Docs[n] = Doc{}
 	} else {
 		b.Docs = append(b.Docs, Doc{})
 	}
-- 
2.43.0


From b8eb470cc7931aff352a88216f118a365a5bd37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:41 +0000
Subject: [PATCH 07/38] fix: FindBlots on documents that do not start at offset
 0

Token positions are file offsets, doc.Dat starts at doc.Start.
---
 index.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/index.go b/index.go
index d04621b..f100c16 100644
--- a/index.go
+++ b/index.go
@@ -220,7 +220,7 @@ func (x *Index) FindBlots(m map[uint32][]byte, doc *Doc) (map[uint32][]byte, err
 		}
 		start := toks[i-seqLen].Pos
 		end := tok.Pos + uint32(len(tok.Lit))
-		txt := doc.Dat[start:end]
+		txt := doc.Dat[start-doc.Start : end-doc.Start]
 		if bytes.Equal(m[blot], txt) {
 			res[blot] = txt
 		} else {
-- 
2.43.0


From 44b7d86c65e2b29efb298f2d4b9b23fe5959382f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:42 +0000
Subject: [PATCH 08/38] fix: FindBlot accepts any blot that a lookup accepts

Query.Get reduces a blot to the space of the index, and BlotDoc returns
unreduced blots, but FindBlot never found those.
---
 index.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/index.go b/index.go
index f100c16..1835b4b 100644
--- a/index.go
+++ b/index.go
@@ -249,6 +249,7 @@ func (x *Index) FindBlot(theBlot uint32, doc *Doc) (start, end uint32, err error
 	blotter := x.Blotter()
 	seqLen := x.SeqLen()
 	nShard := uint32(x.NumShards())
+	theBlot %= nShard * (1 << 16)
 	for i, tok := range toks[:j] {
 		blot := blotter.Blot(tok.Lit)
 		if i < seqLen {
-- 
2.43.0


From 18d970a09fcaa4ac86a38f8f399d27959bfc6c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:43 +0000
Subject: [PATCH 09/38] fix: end of Query.Next, and lists longer than the
 result buffer

Once exhausted, Next looped forever unless the end coincided with an empty
batch.  After the last piece of a list that did not fit into the caller's
buffer, the cursor of another shard was overwritten, so blots were skipped or
repeated, and a last piece of one document was dropped.
---
 query.go | 38 +++++++++++++++-----------------------
 1 file changed, 15 insertions(+), 23 deletions(-)

diff --git a/query.go b/query.go
index 115a5a7..a33ec2c 100644
--- a/query.go
+++ b/query.go
@@ -27,7 +27,6 @@ type qstate struct {
 	shardStates []*shard.ReadState
 	i           uint32
 	n           uint32
-	nilCount    uint32
 }
 
 func (s *qstate) setMax() {
@@ -91,33 +90,26 @@ func (q *Query) Next(dst []Blot) (n int, err error) {
 	state := q.state
 	for n < len(dst) {
 		dstBlot := &dst[n]
-		shardState := state.shardStates[state.i]
-		if shardState == nil {
-			state.nilCount++
-			if state.nilCount == state.n {
-				if n == 0 {
-					err = io.EOF
-					return
-				}
-				return
+		pos := state.i
+		shardState := state.shardStates[pos]
+		if shardState == nil || shardState.Total <= 1 {
+			// state.i is the shard with the longest list ahead,
+			// so no shard has duplicates left.
+			if n == 0 {
+				err = io.EOF
 			}
-			state.i++
-			if state.i == state.n {
-				state.i = 0
-			}
-			continue
+			return
 		}
-		lim := dstBlot.Docs != nil
-		_, err = q.fillBlot(dstBlot, shardState, state.i)
+		var k int
+		k, err = q.fillBlot(dstBlot, shardState, pos)
 		if err != nil {
 			return
 		}
-		if len(dstBlot.Docs) <= 1 {
-			q.advance(shardState, state.i)
-			if lim {
-				dstBlot.Docs = dstBlot.Docs[:0]
-			} else {
-				dstBlot.Docs = nil
+		if k == 0 {
+			// the list was complete already, or there is no
+			// room for any of it: go on with the next one.
+			if state.shardStates[pos] == shardState {
+				q.advance(shardState, pos)
 			}
 			continue
 		}
-- 
2.43.0


From 7d6cda2b79d3ab543befbfb581fbbac868f6558a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:44 +0000
Subject: [PATCH 10/38] fix: NewConfig accepts sequence lengths other than 10

The blotter's sequence length stayed at its default, so the consistency check
rejected every other value (dupi index -t).
---
 config.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/config.go b/config.go
index 36ded45..2bbba69 100644
--- a/config.go
+++ b/config.go
@@ -68,6 +68,7 @@ func NewConfig(root string, nbuckets, seqLen int) (*Config, error) {
 	}
 	cfg.NumShards = nbuckets
 	cfg.SeqLen = seqLen
+	cfg.BlotConfig.SeqLen = seqLen
 	err = cfg.check()
 	if err != nil {
 		return nil, err
-- 
2.43.0


From cae0da573ccede312f1fc33bec4d0fae81e66b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:46 +0000
Subject: [PATCH 11/38] fix: reject configurations that cannot work

Zero or negative shards, shatters, flush rates and sequence lengths were
accepted and made indexing panic or hang; an unknown tokenizer was noticed
only after the index directory had been made.
---
 config.go  | 16 +++++++++++++++-
 indexer.go |  5 ++++-
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/config.go b/config.go
index 2bbba69..c852913 100644
--- a/config.go
+++ b/config.go
@@ -18,6 +18,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"io"
+	"math"
 	"os"
 	"path/filepath"
 
@@ -77,10 +78,23 @@ func NewConfig(root string, nbuckets, seqLen int) (*Config, error) {
 }
 
 func (cfg *Config) check() error {
+	if cfg.NumShards < 1 || cfg.NumShards > math.MaxUint16 {
+		return fmt.Errorf("invalid number of shards: %d", cfg.NumShards)
+	}
+	if cfg.NumShatters < 1 {
+		return fmt.Errorf("invalid number of shatters: %d", cfg.NumShatters)
+	}
+	if cfg.DocFlushRate < 1 {
+		return fmt.Errorf("invalid doc flush rate: %d", cfg.DocFlushRate)
+	}
+	if cfg.SeqLen < 1 || cfg.BlotConfig.Interleave < 1 {
+		return fmt.Errorf("invalid sequence config")
+	}
 	if cfg.SeqLen != cfg.BlotConfig.Interleave*cfg.BlotConfig.SeqLen {
 		return fmt.Errorf("inconsistent sequence config")
 	}
-	return nil
+	_, err := token.FromConfig(&cfg.TokenConfig)
+	return err
 }
 
 func (cfg *Config) Path() string {
diff --git a/indexer.go b/indexer.go
index fa014cc..e23c066 100644
--- a/indexer.go
+++ b/indexer.go
@@ -40,7 +40,10 @@ type Indexer struct {
 }
 
 func IndexerFromConfig(cfg *Config) (*Indexer, error) {
-	var err error
+	err := cfg.check()
+	if err != nil {
+		return nil, err
+	}
 	res := &Indexer{config: cfg}
 	res.lock, err = lock.New(cfg.LockPath())
 	if err != nil {
-- 
2.43.0


From 892a287bc6df9954ab505055444e8d9d7fed0bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:15 +0000
Subject: [PATCH 12/38] fix: release the lock when opening or creating an index
 fails

A failed CreateIndexer, OpenIndexer or OpenIndex kept the lock file locked, so
that, for example, falling back from create to append blocked forever.
---
 index.go   |  8 ++++++--
 indexer.go | 18 +++++++++++++-----
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/index.go b/index.go
index 1835b4b..b9db2a3 100644
--- a/index.go
+++ b/index.go
@@ -36,14 +36,18 @@ type Index struct {
 	shards []shard.Index
 }
 
-func OpenIndex(root string) (*Index, error) {
-	var err error
+func OpenIndex(root string) (idx *Index, err error) {
 	cfg := &Config{IndexRoot: root}
 	res := &Index{config: cfg}
 	res.lock, err = lock.New(cfg.LockPath())
 	if err != nil {
 		return nil, err
 	}
+	defer func() {
+		if err != nil {
+			res.lock.Close()
+		}
+	}()
 	if err := res.lock.LockShared(); err != nil {
 		return nil, err
 	}
diff --git a/indexer.go b/indexer.go
index e23c066..48b7350 100644
--- a/indexer.go
+++ b/indexer.go
@@ -39,9 +39,8 @@ type Indexer struct {
 	fnames  *fnames
 }
 
-func IndexerFromConfig(cfg *Config) (*Indexer, error) {
-	err := cfg.check()
-	if err != nil {
+func IndexerFromConfig(cfg *Config) (idxr *Indexer, err error) {
+	if err = cfg.check(); err != nil {
 		return nil, err
 	}
 	res := &Indexer{config: cfg}
@@ -49,6 +48,11 @@ func IndexerFromConfig(cfg *Config) (*Indexer, error) {
 	if err != nil {
 		return nil, err
 	}
+	defer func() {
+		if err != nil {
+			res.lock.Close()
+		}
+	}()
 	err = res.lock.Lock()
 	if err != nil {
 		return nil, err
@@ -116,14 +120,18 @@ func CreateIndexer(root string, nbuckets, seqLen int) (*Indexer, error) {
 // opens an index from a config.  cfg
 // actually is read from the index as a first
 // step, and this completes opening.
-func openFromConfig(cfg *Config) (*Indexer, error) {
-	var err error
+func openFromConfig(cfg *Config) (idxr *Indexer, err error) {
 	res := &Indexer{config: cfg}
 	// lock file
 	res.lock, err = lock.New(cfg.LockPath())
 	if err != nil {
 		return nil, err
 	}
+	defer func() {
+		if err != nil {
+			res.lock.Close()
+		}
+	}()
 	err = res.lock.Lock()
 	if err != nil {
 		return nil, err
-- 
2.43.0


From c7f064de76ba6c8c4dede22f28b0605923dd5480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:55 +0000
Subject: [PATCH 13/38] fix: open the index at the given root

A moved or copied index was opened, appended to and removed at the path it was
created at, and a root spelled differently (trailing slash) used another lock
file.
---
 config.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/config.go b/config.go
index c852913..b4a6bcc 100644
--- a/config.go
+++ b/config.go
@@ -102,7 +102,12 @@ func (cfg *Config) Path() string {
 }
 
 func (cfg *Config) LockPath() string {
-	return cfg.IndexRoot + ".lock"
+	root := cfg.IndexRoot
+	// the same file for every spelling of the root.
+	if abs, err := filepath.Abs(root); err == nil {
+		root = abs
+	}
+	return root + ".lock"
 }
 
 func (cfg *Config) DmdPath() string {
@@ -122,11 +127,17 @@ func (cfg *Config) PostPath(i int) string {
 }
 
 func ReadConfigFromRoot(root string) (*Config, error) {
-	cfg, err := DefaultConfig(root)
+	dflt, err := DefaultConfig(root)
+	if err != nil {
+		return nil, err
+	}
+	cfg, err := ReadConfig(dflt.Path())
 	if err != nil {
 		return nil, err
 	}
-	return ReadConfig(cfg.Path())
+	// the index may have been moved or copied since it was created.
+	cfg.IndexRoot = dflt.IndexRoot
+	return cfg, nil
 }
 
 func ReadConfig(path string) (*Config, error) {
-- 
2.43.0


From 44f4cc70e7646c3df39291c33e5f04bd51d175c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:56 +0000
Subject: [PATCH 14/38] fix: report posts that could not be written

An error writing posts while documents were added was only logged; Close then
reported success although documents were missing from their lists.
---
 internal/shard/indexer.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/internal/shard/indexer.go b/internal/shard/indexer.go
index e41b2d0..fb0ed51 100644
--- a/internal/shard/indexer.go
+++ b/internal/shard/indexer.go
@@ -31,6 +31,8 @@ type Indexer struct {
 	ind     [1 << 16]poster
 
 	postFile *os.File
+
+	err error // first error adding a post
 }
 
 func (x *Indexer) initCommon(id uint32, root string, flushRate uint32) {
@@ -111,6 +113,10 @@ func (x *Indexer) readIix() error {
 // delta, delta, delta fileid, start-lastend, end-start
 // this assumes the postChn is closed.
 func (x *Indexer) Close() error {
+	if x.err != nil {
+		x.postFile.Close()
+		return fmt.Errorf("posts were lost: %w", x.err)
+	}
 	if err := x.flushInd(); err != nil {
 		return err
 	}
@@ -170,6 +176,9 @@ func (x *Indexer) Serve() {
 			err := x.ind[hash].AddPost(docid, x.postFile)
 			if err != nil {
 				log.Printf("couldn't add post: %s", err)
+				if x.err == nil {
+					x.err = err
+				}
 			}
 		}
 		x.postChn <- nil
-- 
2.43.0


From 83e3eeb82f5207fdc13e5c4da584e25d079c5030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:56 +0000
Subject: [PATCH 15/38] fix: blot -offsets counts words only

The offsets were taken from the token list with separators, so they did not
belong to the printed blots.
---
 cmd/dupi/blot.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmd/dupi/blot.go b/cmd/dupi/blot.go
index e53e1f3..21734a2 100644
--- a/cmd/dupi/blot.go
+++ b/cmd/dupi/blot.go
@@ -71,7 +71,11 @@ func (bc *blotCmd) doFilename(fname string, idx *dupi.Index) error {
 	blots := idx.BlotDoc(nil, doc)
 	var toks []token.T
 	if *bc.offsets {
-		toks = idx.TokenFunc()(nil, doc.Dat, 0)
+		for _, tok := range idx.TokenFunc()(nil, doc.Dat, 0) {
+			if tok.Tag == token.Word {
+				toks = append(toks, tok)
+			}
+		}
 	}
 	N := uint32(idx.NumShards()) * (1 << 16)
 	seqLen := idx.SeqLen()
-- 
2.43.0


From 662988881b4412ef4d2b1a307be76a0a8caa74c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:57 +0000
Subject: [PATCH 16/38] fix: index goes on after a file that cannot be read

An unreadable file ended the walk of its argument, and if it could not even be
opened (a dangling link) this was not reported; "dupi index .." indexed
nothing.
---
 cmd/dupi/index.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/cmd/dupi/index.go b/cmd/dupi/index.go
index 2211487..0965173 100644
--- a/cmd/dupi/index.go
+++ b/cmd/dupi/index.go
@@ -109,7 +109,7 @@ func (x *indexCmd) mkWalkFn(perr *error) func(path string, entry fs.DirEntry, er
 			*perr = err
 			return fs.SkipDir
 		}
-		if strings.HasPrefix(entry.Name(), ".") && len(entry.Name()) > 1 {
+		if strings.HasPrefix(entry.Name(), ".") && len(entry.Name()) > 1 && entry.Name() != ".." {
 			if entry.IsDir() {
 				return fs.SkipDir
 			}
@@ -121,19 +121,26 @@ func (x *indexCmd) mkWalkFn(perr *error) func(path string, entry fs.DirEntry, er
 
 		f, e := os.Open(path)
 		if e != nil {
-			return e
+			log.Printf("error %s", e)
+			*perr = e
+			return nil
 		}
 		defer f.Close()
 		dat, err := ioutil.ReadAll(f)
 		if err != nil {
+			log.Printf("error %s", err)
 			*perr = err
-			return err
+			return nil
 		}
 		doc := &dupi.Doc{Path: path, Dat: dat, End: uint32(len(dat))}
 		if *x.verbose {
 			log.Printf("indexing %s %d:%d\n", path, 0, doc.End)
 		}
-		return x.indexer.Add(doc)
+		if err := x.indexer.Add(doc); err != nil {
+			*perr = err
+			return err
+		}
+		return nil
 	}
 }
 
-- 
2.43.0


From a237962b009b6cb3151f3c108e71db86278d87ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:46 +0000
Subject: [PATCH 17/38] fix: like compares all passages that have the same blot

Only the last passage of the file with a given blot was compared, so documents
sharing an earlier one (repeated or reordered words) were not found.
---
 cmd/dupi/like.go | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/cmd/dupi/like.go b/cmd/dupi/like.go
index 73f5f7e..a1fb9db 100644
--- a/cmd/dupi/like.go
+++ b/cmd/dupi/like.go
@@ -15,6 +15,7 @@
 package main
 
 import (
+	"bytes"
 	"flag"
 	"fmt"
 	"io/ioutil"
@@ -92,11 +93,20 @@ func doFilename(idx *dupi.Index, fname string) error {
 	}
 	N := uint32(idx.NumShards()) * (1 << 16)
 	seqLen := idx.SeqLen()
-	bm := make(map[uint32][]byte, len(blots))
+	// several passages may have the same blot, each map holds one of them.
+	var bms []map[uint32][]byte
 	for i, b := range blots {
 		beg := toks[i].Pos
 		end := toks[i+seqLen].Pos + uint32(len(toks[i+seqLen].Lit))
-		bm[b%N] = dat[beg:end]
+		txt := dat[beg:end]
+		k := 0
+		for k < len(bms) && bms[k][b%N] != nil && !bytes.Equal(bms[k][b%N], txt) {
+			k++
+		}
+		if k == len(bms) {
+			bms = append(bms, make(map[uint32][]byte))
+		}
+		bms[k][b%N] = txt
 	}
 	query := idx.StartQuery(dupi.QueryMaxBlot)
 	var db dupi.Blot
@@ -114,14 +124,16 @@ func doFilename(idx *dupi.Index, fname string) error {
 			if found[dk] != 0 {
 				continue
 			}
-			rm, err := idx.FindBlots(bm, doc)
-			if err != nil {
-				return err
-			}
-			if len(rm) == 0 {
-				continue
+			for _, bm := range bms {
+				rm, err := idx.FindBlots(bm, doc)
+				if err != nil {
+					return err
+				}
+				if len(rm) != 0 {
+					found[dk]++
+					break
+				}
 			}
-			found[dk]++
 		}
 	}
 	keys := make([]docKey, 0, len(found))
-- 
2.43.0


From 593278c602de204bd6ee45df858d1dc34079d024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:46 +0000
Subject: [PATCH 18/38] fix: replace cfg.json as a whole

It was overwritten without truncation, so the end of a longer file (a
reformatted one) stayed behind and made the index unreadable.
---
 config.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/config.go b/config.go
index b4a6bcc..af8b6bf 100644
--- a/config.go
+++ b/config.go
@@ -164,7 +164,8 @@ func ReadConfig(path string) (*Config, error) {
 }
 
 func (cfg *Config) Write() error {
-	f, err := os.OpenFile(cfg.Path(), os.O_CREATE|os.O_WRONLY, 0644)
+	tmp := cfg.Path() + ".tmp"
+	f, err := os.OpenFile(tmp, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0644)
 	if err != nil {
 		return err
 	}
@@ -182,5 +183,5 @@ func (cfg *Config) Write() error {
 	if err != nil {
 		return err
 	}
-	return nil
+	return os.Rename(tmp, cfg.Path())
 }
-- 
2.43.0


From b6d4aca0540e30608b9e2b11594f9b6beab6183f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:47 +0000
Subject: [PATCH 19/38] fix: replace the path and shard tables as a whole

Close truncated files.fnm and the .iix files before writing them again, so an
index that was appended to could not be opened any more if the process died
meanwhile.
---
 indexer.go                | 8 ++++++--
 internal/shard/indexer.go | 7 ++++---
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/indexer.go b/indexer.go
index 48b7350..cdfd767 100644
--- a/indexer.go
+++ b/indexer.go
@@ -173,12 +173,16 @@ func openFromConfig(cfg *Config) (idxr *Indexer, err error) {
 // write the files that apeared in added documents.
 func (x *Indexer) writeFiles() error {
 	docPath := x.config.FnamesPath()
-	f, e := os.OpenFile(docPath, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0644)
+	tmp := docPath + ".tmp"
+	f, e := os.OpenFile(tmp, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0644)
 	if e != nil {
 		return e
 	}
 	defer f.Close()
-	return x.fnames.write(f)
+	if e = x.fnames.write(f); e != nil {
+		return e
+	}
+	return os.Rename(tmp, docPath)
 }
 
 // Root returns the path to the root of the index 'x'.
diff --git a/internal/shard/indexer.go b/internal/shard/indexer.go
index fb0ed51..550c7a9 100644
--- a/internal/shard/indexer.go
+++ b/internal/shard/indexer.go
@@ -124,8 +124,9 @@ func (x *Indexer) Close() error {
 }
 
 func (x *Indexer) flushIix() error {
-	iix, err := os.OpenFile(fmt.Sprintf("%s.iix", x.root),
-		os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0644)
+	iixName := fmt.Sprintf("%s.iix", x.root)
+	tmp := iixName + ".tmp"
+	iix, err := os.OpenFile(tmp, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0644)
 	if err != nil {
 		return err
 	}
@@ -147,7 +148,7 @@ func (x *Indexer) flushIix() error {
 			return err
 		}
 	}
-	return nil
+	return os.Rename(tmp, iixName)
 }
 
 func (x *Indexer) flushInd() error {
-- 
2.43.0


From 03de7170b69a8f771987f487439c05df7a47caa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:48 +0000
Subject: [PATCH 20/38] fix: ignore posts of a session that was not closed

Chunks that a session wrote before it died were read as part of their lists,
though their documents may be unknown, and a later session continued after
them with deltas relative to the last committed document.
---
 internal/shard/poster.go     | 10 +++++++++-
 internal/shard/read_state.go |  7 +++++++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/internal/shard/poster.go b/internal/shard/poster.go
index 43c557b..4631a0d 100644
--- a/internal/shard/poster.go
+++ b/internal/shard/poster.go
@@ -113,6 +113,7 @@ func (p *poster) readToLink(f *os.File) error {
 	}
 	buf := make([]byte, flushRate+binary.MaxVarintLen64+8+10)
 	head := p.head
+	seen := uint32(0)
 	for {
 		v, n, err := readVarintAt(f, head)
 		if err != nil {
@@ -128,8 +129,15 @@ func (p *poster) readToLink(f *os.File) error {
 		if err != nil {
 			return err
 		}
+		for _, b := range buf[:v-8] {
+			if b < 0x80 { // last byte of a varint
+				seen++
+			}
+		}
 		link := int64(binary.BigEndian.Uint64(buf[v-8 : v]))
-		if link == -1 {
+		// chunks after the total were not committed by closing the
+		// indexer, they are cut off.
+		if link == -1 || seen >= p.total {
 			p.link = head + n + v - 8
 			return nil
 		} else {
diff --git a/internal/shard/read_state.go b/internal/shard/read_state.go
index 38bfc90..980acd9 100644
--- a/internal/shard/read_state.go
+++ b/internal/shard/read_state.go
@@ -24,10 +24,17 @@ type ReadState struct {
 	Posts *Posts
 	Error error
 	rdr   io.ReaderAt
+	n     uint32 // docids read
 }
 
 func (s *ReadState) Next() (uint32, error) {
+	if s.n == s.Total {
+		// what follows was not committed by closing the indexer.
+		s.Error = io.EOF
+		return 0, s.Error
+	}
 	var docid uint32
 	docid, s.Error = s.Posts.next(s.rdr)
+	s.n++
 	return docid, s.Error
 }
-- 
2.43.0


From 2267e142b749d6fef090d069d2ad09138068ea71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:39 +0000
Subject: [PATCH 21/38] fix: hold the lock while an index is removed

---
 index.go   | 10 +++++++---
 indexer.go |  5 +++++
 remove.go  | 10 ++++++++--
 3 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/index.go b/index.go
index b9db2a3..58f5c27 100644
--- a/index.go
+++ b/index.go
@@ -80,9 +80,13 @@ func OpenIndex(root string) (idx *Index, err error) {
 }
 
 func (x *Index) Close() error {
-	var err error
-	defer func() { err = x.lock.Close() }()
-	err = x.dmd.Close()
+	defer x.lock.Close()
+	return x.close()
+}
+
+// close closes everything but the lock.
+func (x *Index) close() error {
+	err := x.dmd.Close()
 	for i := range x.shards {
 		s := &x.shards[i]
 		serr := s.Close()
diff --git a/indexer.go b/indexer.go
index cdfd767..39fd230 100644
--- a/indexer.go
+++ b/indexer.go
@@ -210,6 +210,11 @@ func (x *Indexer) readfiles() error {
 // with the index to disk.
 func (x *Indexer) Close() error {
 	defer x.lock.Close()
+	return x.close()
+}
+
+// close does what Close does but keeps the lock.
+func (x *Indexer) close() error {
 	for i := 0; i < x.config.NumShatters; i++ {
 		x.shatter <- &shatterReq{shutdown: true}
 		// no more shatters running, each waits
diff --git a/remove.go b/remove.go
index 2939bcb..b19f478 100644
--- a/remove.go
+++ b/remove.go
@@ -16,8 +16,11 @@ package dupi
 
 import "os"
 
+// RemoveIndex closes and removes an index.  The lock is
+// held until the index is gone.
 func RemoveIndex(idx *Index) error {
-	errc := idx.Close()
+	defer idx.lock.Close()
+	errc := idx.close()
 	errrm := os.RemoveAll(idx.Root())
 	if errc == nil {
 		return errrm
@@ -25,8 +28,11 @@ func RemoveIndex(idx *Index) error {
 	return errc
 }
 
+// RemoveIndexer closes and removes an index being written.
+// The lock is held until the index is gone.
 func RemoveIndexer(idx *Indexer) error {
-	errc := idx.Close()
+	defer idx.lock.Close()
+	errc := idx.close()
 	errrm := os.RemoveAll(idx.Root())
 	if errc == nil {
 		return errrm
-- 
2.43.0


From 9509e6b80897c329c6c3da47ae1559b58b16ea0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:34 +0000
Subject: [PATCH 22/38] fix: read the configuration of an appended index under
 its lock

---
 indexer.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/indexer.go b/indexer.go
index 39fd230..c84a848 100644
--- a/indexer.go
+++ b/indexer.go
@@ -136,6 +136,12 @@ func openFromConfig(cfg *Config) (idxr *Indexer, err error) {
 	if err != nil {
 		return nil, err
 	}
+	// the index may have been replaced while waiting for the lock.
+	cfg, err = ReadConfigFromRoot(cfg.IndexRoot)
+	if err != nil {
+		return nil, err
+	}
+	res.config = cfg
 	// internal setup
 	res.shards = make([]shard.Indexer, cfg.NumShards)
 	res.dmds, err = dmd.NewAdder(cfg.IndexRoot, cfg.DocFlushRate)
-- 
2.43.0


From 756f22cec4f32c6d801497c605fa5560376fc3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:12 +0000
Subject: [PATCH 23/38] fix: release files and goroutines when opening or
 creating fails

---
 index.go                  |  6 ++++++
 indexer.go                |  9 +++++++++
 internal/shard/indexer.go | 11 +++++++++++
 3 files changed, 26 insertions(+)

diff --git a/index.go b/index.go
index 58f5c27..c8f71fb 100644
--- a/index.go
+++ b/index.go
@@ -45,6 +45,12 @@ func OpenIndex(root string) (idx *Index, err error) {
 	}
 	defer func() {
 		if err != nil {
+			if res.dmd != nil {
+				res.dmd.Close()
+			}
+			for i := range res.shards {
+				res.shards[i].Close()
+			}
 			res.lock.Close()
 		}
 	}()
diff --git a/indexer.go b/indexer.go
index c84a848..8b4d33b 100644
--- a/indexer.go
+++ b/indexer.go
@@ -50,6 +50,7 @@ func IndexerFromConfig(cfg *Config) (idxr *Indexer, err error) {
 	}
 	defer func() {
 		if err != nil {
+			res.abort()
 			res.lock.Close()
 		}
 	}()
@@ -129,6 +130,7 @@ func openFromConfig(cfg *Config) (idxr *Indexer, err error) {
 	}
 	defer func() {
 		if err != nil {
+			res.abort()
 			res.lock.Close()
 		}
 	}()
@@ -176,6 +178,13 @@ func openFromConfig(cfg *Config) (idxr *Indexer, err error) {
 	return res, nil
 }
 
+// abort releases the shards when opening or creating fails.
+func (x *Indexer) abort() {
+	for i := range x.shards {
+		x.shards[i].Abort()
+	}
+}
+
 // write the files that apeared in added documents.
 func (x *Indexer) writeFiles() error {
 	docPath := x.config.FnamesPath()
diff --git a/internal/shard/indexer.go b/internal/shard/indexer.go
index 550c7a9..d1e2596 100644
--- a/internal/shard/indexer.go
+++ b/internal/shard/indexer.go
@@ -123,6 +123,17 @@ func (x *Indexer) Close() error {
 	return x.flushIix()
 }
 
+// Abort releases an indexer that was initialised, maybe not
+// completely, but not used.
+func (x *Indexer) Abort() {
+	if x.postChn != nil {
+		close(x.postChn)
+	}
+	if x.postFile != nil {
+		x.postFile.Close()
+	}
+}
+
 func (x *Indexer) flushIix() error {
 	iixName := fmt.Sprintf("%s.iix", x.root)
 	tmp := iixName + ".tmp"
-- 
2.43.0


From 8785c66abb526faae752af4c1a03a33380e5df0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:12 +0000
Subject: [PATCH 24/38] fix: remove what a failed creation made

---
 indexer.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/indexer.go b/indexer.go
index 8b4d33b..897afd7 100644
--- a/indexer.go
+++ b/indexer.go
@@ -48,9 +48,17 @@ func IndexerFromConfig(cfg *Config) (idxr *Indexer, err error) {
 	if err != nil {
 		return nil, err
 	}
+	made := false
 	defer func() {
 		if err != nil {
 			res.abort()
+			if made {
+				for i := range res.shards {
+					os.Remove(cfg.PostPath(i) + ".iix")
+					os.Remove(cfg.PostPath(i))
+				}
+				os.Remove(res.Root())
+			}
 			res.lock.Close()
 		}
 	}()
@@ -63,6 +71,7 @@ func IndexerFromConfig(cfg *Config) (idxr *Indexer, err error) {
 	if err := os.Mkdir(res.Root(), 0755); err != nil {
 		return nil, err
 	}
+	made = true
 	tokfn, err := token.FromConfig(&cfg.TokenConfig)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 2dd5a6fe492e58d13ba2b53092386c538ea1faa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:24 +0000
Subject: [PATCH 25/38] fix: adding to a Bloom-filter set after an intersection
 is not skipped

---
 attic/bposts.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/attic/bposts.go b/attic/bposts.go
index f7cd69a..332d0f3 100644
--- a/attic/bposts.go
+++ b/attic/bposts.go
@@ -83,11 +83,11 @@ func (t *bposts) Ones(dst []int) []int {
 }
 
 func (t *bposts) AddPost(post uint32) error {
-	if t.Post == post && t.Total != 0 {
-		return nil
+	if t.Post != post || t.Total == 0 {
+		t.Post = post
+		t.Total++
 	}
-	t.Post = post
-	t.Total++
+	// the last post may be no longer there, after Intersect
 	t.Bloomer.Add(t.Set, post)
 	return nil
 }
-- 
2.43.0


From da71a5e199f2e2c20b8533c895b599fbcefcf4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:48 +0000
Subject: [PATCH 26/38] fix: write document records where they belong

A write cut short (the process died, the disk was full) left a part of a record
at the end of the table; records appended after it were all misread.
---
 dmd/adder.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dmd/adder.go b/dmd/adder.go
index 275ae3f..c511434 100644
--- a/dmd/adder.go
+++ b/dmd/adder.go
@@ -75,12 +75,13 @@ func (t *Adder) Close() error {
 }
 
 func (t *Adder) flush() error {
-	f, err := os.OpenFile(t.path, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0644)
+	f, err := os.OpenFile(t.path, os.O_CREATE|os.O_WRONLY, 0644)
 	if err != nil {
 		return err
 	}
 	defer f.Close()
-	_, err = f.Seek(0, io.SeekEnd)
+	// a session that died may have left a part of a record.
+	_, err = f.Seek(int64(t.flushed)*rcdSize, io.SeekStart)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 846a7c38d21022f1c5c96fcef1175cfa87762e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:55 +0000
Subject: [PATCH 27/38] fix: report errors of closing files that were written

A storage failure that shows only when a file is closed was dropped, and the
close of the session succeeded.
---
 config.go                 | 3 +++
 dmd/adder.go              | 3 +++
 indexer.go                | 3 +++
 internal/shard/indexer.go | 5 ++++-
 4 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/config.go b/config.go
index af8b6bf..560c6b2 100644
--- a/config.go
+++ b/config.go
@@ -183,5 +183,8 @@ func (cfg *Config) Write() error {
 	if err != nil {
 		return err
 	}
+	if err := f.Close(); err != nil {
+		return err
+	}
 	return os.Rename(tmp, cfg.Path())
 }
diff --git a/dmd/adder.go b/dmd/adder.go
index c511434..c0fcee8 100644
--- a/dmd/adder.go
+++ b/dmd/adder.go
@@ -92,6 +92,9 @@ func (t *Adder) flush() error {
 			return err
 		}
 	}
+	if err := f.Close(); err != nil {
+		return err
+	}
 	t.flushed += uint32(len(t.buf))
 	t.buf = t.buf[:0]
 	return nil
diff --git a/indexer.go b/indexer.go
index 897afd7..5256615 100644
--- a/indexer.go
+++ b/indexer.go
@@ -206,6 +206,9 @@ func (x *Indexer) writeFiles() error {
 	if e = x.fnames.write(f); e != nil {
 		return e
 	}
+	if err := f.Close(); err != nil {
+		return err
+	}
 	return os.Rename(tmp, docPath)
 }
 
diff --git a/internal/shard/indexer.go b/internal/shard/indexer.go
index d1e2596..2971754 100644
--- a/internal/shard/indexer.go
+++ b/internal/shard/indexer.go
@@ -159,6 +159,9 @@ func (x *Indexer) flushIix() error {
 			return err
 		}
 	}
+	if err := iix.Close(); err != nil {
+		return err
+	}
 	return os.Rename(tmp, iixName)
 }
 
@@ -172,7 +175,7 @@ func (x *Indexer) flushInd() error {
 			return err
 		}
 	}
-	return nil
+	return x.postFile.Close()
 }
 
 func (x *Indexer) Serve() {
-- 
2.43.0


From ecae8a47751db2e1e643968b383fe4a616e3c535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:18 +0000
Subject: [PATCH 28/38] fix: opening an index with a damaged table of paths
 fails instead of panicking

---
 fnames.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/fnames.go b/fnames.go
index 8205c2c..4d9d54f 100644
--- a/fnames.go
+++ b/fnames.go
@@ -124,10 +124,14 @@ func breadFnames(r *bufio.Reader) (*fnames, error) {
 	if err != nil {
 		return nil, err
 	}
+	if v == 0 {
+		return nil, fmt.Errorf("no root in file names")
+	}
 	s := &fnames{}
-	s.d = make([]fname, v)
+	n := v
 	var buf []byte
-	for i := range s.d {
+	for i := uint32(0); i < n; i++ {
+		s.d = append(s.d, fname{})
 		v, err = readUvarint32(r)
 		if err != nil {
 			return nil, err
@@ -145,12 +149,15 @@ func breadFnames(r *bufio.Reader) (*fnames, error) {
 		if err != nil {
 			return nil, err
 		}
+		if v > i {
+			return nil, fmt.Errorf("invalid parent of file name %d: %d", i, v)
+		}
 		fname.parent = v
 		pname := &s.d[fname.parent]
 		if pname.children == nil {
 			pname.children = make(map[string]uint32)
 		}
-		pname.children[fname.name] = uint32(i)
+		pname.children[fname.name] = i
 	}
 	return s, nil
 }
-- 
2.43.0


From 0c3cc7bf50f4001c7d7f226c41f264ba83befb0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:19 +0000
Subject: [PATCH 29/38] fix: appending to an index with a damaged length of a
 block fails instead of panicking

---
 internal/shard/poster.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/internal/shard/poster.go b/internal/shard/poster.go
index 4631a0d..f8efaf4 100644
--- a/internal/shard/poster.go
+++ b/internal/shard/poster.go
@@ -119,12 +119,19 @@ func (p *poster) readToLink(f *os.File) error {
 		if err != nil {
 			return err
 		}
-		if v > int64(len(buf)) {
-			buf = make([]byte, v*2)
-		}
 		if v <= 8 {
 			return fmt.Errorf("%s: invalid length of flushed post buffer: %d", p, v)
 		}
+		if v > int64(len(buf)) {
+			fi, err := f.Stat()
+			if err != nil {
+				return err
+			}
+			if v > fi.Size() {
+				return fmt.Errorf("%s: invalid length of flushed post buffer: %d", p, v)
+			}
+			buf = make([]byte, v*2)
+		}
 		_, err = f.ReadAt(buf[:v], head+n)
 		if err != nil {
 			return err
-- 
2.43.0


From 433f9ba7ec12f0a7d883f2a7fac11968f8f4a600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:12 +0000
Subject: [PATCH 30/38] fix: the index command does not wait for pipes below
 the directories it is given

---
 cmd/dupi/index.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/cmd/dupi/index.go b/cmd/dupi/index.go
index 0965173..bef967f 100644
--- a/cmd/dupi/index.go
+++ b/cmd/dupi/index.go
@@ -102,7 +102,7 @@ func (x *indexCmd) Run(args []string) error {
 	return reterr
 }
 
-func (x *indexCmd) mkWalkFn(perr *error) func(path string, entry fs.DirEntry, err error) error {
+func (x *indexCmd) mkWalkFn(root string, perr *error) func(path string, entry fs.DirEntry, err error) error {
 	return func(path string, entry fs.DirEntry, err error) error {
 		if err != nil {
 			log.Printf("error %s", err)
@@ -118,6 +118,11 @@ func (x *indexCmd) mkWalkFn(perr *error) func(path string, entry fs.DirEntry, er
 		if entry.IsDir() {
 			return nil
 		}
+		// opening a pipe waits for a writer, and there may be no end to a device.
+		if fi, e := os.Stat(path); e == nil && path != root && fi.Mode()&(fs.ModeNamedPipe|fs.ModeDevice) != 0 {
+			log.Printf("skipping %s: %s", path, fi.Mode())
+			return nil
+		}
 
 		f, e := os.Open(path)
 		if e != nil {
@@ -146,6 +151,6 @@ func (x *indexCmd) mkWalkFn(perr *error) func(path string, entry fs.DirEntry, er
 
 func (x *indexCmd) doPath(fpath string) error {
 	var err error
-	filepath.WalkDir(fpath, x.mkWalkFn(&err))
+	filepath.WalkDir(fpath, x.mkWalkFn(fpath, &err))
 	return err
 }
-- 
2.43.0


From 47a26da9f14eb770c8354bb651d48e89abaafdbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:23 +0000
Subject: [PATCH 31/38] fix: a large buffer rate is accepted without memory for
 all of it

---
 dmd/adder.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dmd/adder.go b/dmd/adder.go
index c0fcee8..ab50e9a 100644
--- a/dmd/adder.go
+++ b/dmd/adder.go
@@ -34,7 +34,7 @@ func NewAdder(root string, fr int) (*Adder, error) {
 	adder := &Adder{path: path, flushRate: ufr}
 	fi, err := os.Stat(path)
 	if os.IsNotExist(err) {
-		adder.buf = make([]fields, 1, fr)
+		adder.buf = make([]fields, 1)
 		adder.flushed = 0
 		return adder, nil
 	}
@@ -43,9 +43,9 @@ func NewAdder(root string, fr int) (*Adder, error) {
 	}
 	adder.flushed = uint32(fi.Size() / rcdSize)
 	if adder.flushed == 0 {
-		adder.buf = make([]fields, 1, fr)
+		adder.buf = make([]fields, 1)
 	} else {
-		adder.buf = make([]fields, 0, fr)
+		adder.buf = nil
 	}
 	return adder, nil
 }
-- 
2.43.0


From 0ce7c1d3a1d5649b2bb836237763a01027a7137f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:55 +0000
Subject: [PATCH 32/38] fix: the list of trigrams of a text of fewer than two
 trigrams is empty instead of a panic

---
 attic/trigram/t.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/attic/trigram/t.go b/attic/trigram/t.go
index 0756b1f..ac1f16f 100644
--- a/attic/trigram/t.go
+++ b/attic/trigram/t.go
@@ -109,6 +109,9 @@ func FromTokens(dst []T, toks []token.T) []T {
 	for _, tok := range toks {
 		tri, dst = FromToken(dst, tri, tok)
 	}
+	if len(dst) < 2 {
+		return dst[:0]
+	}
 	return dst[2:]
 }
 
-- 
2.43.0


From 0fc9aa48c647637d4588cd9b87f9795faedde56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:55 +0000
Subject: [PATCH 33/38] fix: an index whose name is that of a command can be
 named with -r

---
 cmd/dupi/dupi.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmd/dupi/dupi.go b/cmd/dupi/dupi.go
index 97f6311..93102e7 100644
--- a/cmd/dupi/dupi.go
+++ b/cmd/dupi/dupi.go
@@ -96,7 +96,9 @@ func main() {
 	}); err != nil {
 		log.Fatal(err)
 	}
-	gargs, largs := splitArgs(os.Args[1:])
+	gFlags.Usage = func() { usageFatal(os.Stderr) }
+	gFlags.Parse(os.Args[1:])
+	_, largs := splitArgs(gFlags.Args())
 	if len(largs) == 0 {
 		usageFatal(os.Stderr)
 	}
@@ -104,8 +106,6 @@ func main() {
 	if sc == nil {
 		usageFatal(os.Stderr)
 	}
-	gFlags.Usage = func() { usageFatal(os.Stderr) }
-	gFlags.Parse(gargs)
 	if err := sc.Run(largs[1:]); err != nil {
 		log.Fatal(err)
 	}
-- 
2.43.0


From 1a8e98667106fa82fff2c037bbf953dba08e1457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:55 +0000
Subject: [PATCH 34/38] fix: an index created by a relative name stays where it
 is when the working directory changes

---
 indexer.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/indexer.go b/indexer.go
index 5256615..1d244a9 100644
--- a/indexer.go
+++ b/indexer.go
@@ -17,6 +17,7 @@ package dupi
 import (
 	"log"
 	"os"
+	"path/filepath"
 
 	"github.com/go-air/dupi/dmd"
 	"github.com/go-air/dupi/internal/shard"
@@ -43,6 +44,14 @@ func IndexerFromConfig(cfg *Config) (idxr *Indexer, err error) {
 	if err = cfg.check(); err != nil {
 		return nil, err
 	}
+	// the index stays where it is when the working directory changes.
+	abs, err := filepath.Abs(cfg.IndexRoot)
+	if err != nil {
+		return nil, err
+	}
+	absCfg := *cfg
+	absCfg.IndexRoot = abs
+	cfg = &absCfg
 	res := &Indexer{config: cfg}
 	res.lock, err = lock.New(cfg.LockPath())
 	if err != nil {
-- 
2.43.0


From 141162d57094514f6e32a62a66d63ffbe99e9a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:55 +0000
Subject: [PATCH 35/38] fix: dupenron -o prints all of the records and reports
 errors

---
 cmd/dupenron/main.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/dupenron/main.go b/cmd/dupenron/main.go
index 353b337..707881c 100644
--- a/cmd/dupenron/main.go
+++ b/cmd/dupenron/main.go
@@ -50,7 +50,9 @@ func csvReader(fname string) (*csv.Reader, func() error, error) {
 func main() {
 	flag.Parse()
 	if *O {
-		oEnron(flag.Args()[0])
+		if err := oEnron(flag.Args()[0]); err != nil {
+			log.Fatal(err)
+		}
 		return
 	}
 	if err := agent.Listen(agent.Options{
@@ -79,6 +81,7 @@ func oEnron(fname string) error {
 	defer closer()
 	writer := csv.NewWriter(os.Stdout)
 	writer.Comma = rdr.Comma
+	defer writer.Flush()
 	for i := 0; i < *N; i++ {
 		rcd, err := rdr.Read()
 		if err != nil {
-- 
2.43.0


From 5751fcf88b9d6e1a007400fb6efb841b1fd5fe00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:55 +0000
Subject: [PATCH 36/38] fix: dupenron reports a document that could not be
 added

---
 cmd/dupenron/main.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmd/dupenron/main.go b/cmd/dupenron/main.go
index 707881c..1d0a22f 100644
--- a/cmd/dupenron/main.go
+++ b/cmd/dupenron/main.go
@@ -126,7 +126,9 @@ func indexEnron(index *dupi.Indexer, fname string) error {
 			Start: offset + uint32(ibody) + 2 + uint32(len(rcd[0]))}
 		doc.End = offset + uint32(len(doc.Dat))
 		offset = doc.End
-		index.Add(doc)
+		if err := index.Add(doc); err != nil {
+			return err
+		}
 		rcds++
 		if rcds%10000 == 0 {
 			fmt.Printf("%d rcds\n", rcds)
-- 
2.43.0


From a48174cd6a2504934feee2e78789195848e8e1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:59 +0000
Subject: [PATCH 37/38] fix: extract prints nothing when the threshold exceeds
 what an integer holds

---
 cmd/dupi/extract.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/dupi/extract.go b/cmd/dupi/extract.go
index 91f924b..a80ab60 100644
--- a/cmd/dupi/extract.go
+++ b/cmd/dupi/extract.go
@@ -63,7 +63,7 @@ func (x *extractCmd) Run(args []string) error {
 		log.Fatal(err)
 	}
 	σ := *x.sigma
-	N := int(math.Round(st.BlotMean + σ*st.BlotSigma))
+	N := math.Round(st.BlotMean + σ*st.BlotSigma)
 	query := x.index.StartQuery(dupi.QueryMaxBlot)
 	shape := []dupi.Blot{{Blot: 0}}
 	for {
@@ -80,7 +80,7 @@ func (x *extractCmd) Run(args []string) error {
 		if n == 0 {
 			return fmt.Errorf("Query.Next gave 0 and no error")
 		}
-		if len(shape[0].Docs) < N {
+		if float64(len(shape[0].Docs)) < N {
 			return nil
 		}
 		if *x.json {
-- 
2.43.0


From 35db4c2c4180286579699a6afc61cc2e0b688ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:59 +0000
Subject: [PATCH 38/38] fix: like takes the files after its options

---
 cmd/dupi/like.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/dupi/like.go b/cmd/dupi/like.go
index a1fb9db..638f241 100644
--- a/cmd/dupi/like.go
+++ b/cmd/dupi/like.go
@@ -49,7 +49,7 @@ func (lc *likeCmd) Run(args []string) error {
 		log.Fatalf("couldn't open dupi index at '%s': %s", root, err)
 	}
 	defer idx.Close()
-	for _, fname := range args {
+	for _, fname := range lc.flags.Args() {
 		if err := doFilename(idx, fname); err != nil {
 			return err
 		}
-- 
2.43.0

