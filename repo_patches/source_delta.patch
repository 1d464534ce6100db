From 178772c5d814a1c99ff2dc601d2b954077cfb803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:11 +0000
Subject: [PATCH 01/50] fix: tokenizer dropped the last character of every text

---
 token/t.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/token/t.go b/token/t.go
index b5ff4af..2030347 100644
--- a/token/t.go
+++ b/token/t.go
@@ -86,6 +86,7 @@ func Tokenize(dst []T, d []byte, offset uint32) []T {
 		}
 		inWord = false
 	}
+	i = len(d) // the last token extends to the end of the text
 	if j < i {
 		if inWord {
 			dst = append(dst,
-- 
2.43.0


From ba9fb33dce7404baf6fc2ec11618ed6a212a2954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:12 +0000
Subject: [PATCH 02/50] fix: NewConfig refused every sequence length but the
 default

---
 config.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/config.go b/config.go
index 36ded45..2bbba69 100644
--- a/config.go
+++ b/config.go
@@ -68,6 +68,7 @@ func NewConfig(root string, nbuckets, seqLen int) (*Config, error) {
 	}
 	cfg.NumShards = nbuckets
 	cfg.SeqLen = seqLen
+	cfg.BlotConfig.SeqLen = seqLen
 	err = cfg.check()
 	if err != nil {
 		return nil, err
-- 
2.43.0


From e0b7759d7af30465159028606d0913a61800f95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:13 +0000
Subject: [PATCH 03/50] fix: writing a configuration over a longer one left its
 end behind

---
 config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/config.go b/config.go
index 2bbba69..e28e1ba 100644
--- a/config.go
+++ b/config.go
@@ -157,5 +157,5 @@ func (cfg *Config) Write() error {
 	if err != nil {
 		return err
 	}
-	return nil
+	return f.Truncate(int64(len(d)) + 1)
 }
-- 
2.43.0


From 20f5ad0fd195a1ee1b90025452a41e7eeb503aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:13 +0000
Subject: [PATCH 04/50] fix: unlocking a lock file took a shared lock instead
 of releasing it

---
 lock/unix.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lock/unix.go b/lock/unix.go
index a083eba..b69323f 100644
--- a/lock/unix.go
+++ b/lock/unix.go
@@ -26,7 +26,7 @@ func (f *File) Lock() error {
 }
 
 func (f *File) Unlock() error {
-	return unix.Flock(int(f.handle.Fd()), unix.LOCK_SH)
+	return unix.Flock(int(f.handle.Fd()), unix.LOCK_UN)
 }
 
 func (f *File) LockShared() error {
-- 
2.43.0


From ef9515513297eeab7dda8a7e47895adf789e12e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:14 +0000
Subject: [PATCH 05/50] fix: concurrent document lookups moved each other's
 file offset

---
 dmd/t.go | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/dmd/t.go b/dmd/t.go
index deeab69..507bae2 100644
--- a/dmd/t.go
+++ b/dmd/t.go
@@ -17,7 +17,6 @@ package dmd
 
 import (
 	"encoding/binary"
-	"io"
 	"os"
 	"path/filepath"
 )
@@ -48,13 +47,8 @@ func (t *T) NumDocs() (uint64, error) {
 }
 
 func (t *T) Lookup(did uint32) (fid, start, end uint32, err error) {
-	f := t.file
-	_, err = f.Seek(int64(did)*rcdSize, 0)
-	if err != nil {
-		return
-	}
 	var buf [rcdSize]byte
-	_, err = io.ReadFull(f, buf[:])
+	_, err = t.file.ReadAt(buf[:], int64(did)*rcdSize)
 	if err != nil {
 		return
 	}
-- 
2.43.0


From badc0e463bfc177c382101ed6dc7b321c66afd4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:15 +0000
Subject: [PATCH 06/50] fix: number of documents counted the placeholder record

---
 dmd/t.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dmd/t.go b/dmd/t.go
index 507bae2..bfe6534 100644
--- a/dmd/t.go
+++ b/dmd/t.go
@@ -43,7 +43,11 @@ func (t *T) NumDocs() (uint64, error) {
 	if err != nil {
 		return 0, err
 	}
-	return uint64(fi.Size()) / rcdSize, nil
+	n := uint64(fi.Size()) / rcdSize
+	if n > 0 {
+		n-- // the first record is a placeholder, document ids start at 1
+	}
+	return n, nil
 }
 
 func (t *T) Lookup(did uint32) (fid, start, end uint32, err error) {
-- 
2.43.0


From 9e5c762dd628c60755f8ab55956468564b56caa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:15 +0000
Subject: [PATCH 07/50] fix: FindBlots failed for documents that do not start
 at 0

---
 index.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/index.go b/index.go
index d04621b..f100c16 100644
--- a/index.go
+++ b/index.go
@@ -220,7 +220,7 @@ func (x *Index) FindBlots(m map[uint32][]byte, doc *Doc) (map[uint32][]byte, err
 		}
 		start := toks[i-seqLen].Pos
 		end := tok.Pos + uint32(len(tok.Lit))
-		txt := doc.Dat[start:end]
+		txt := doc.Dat[start-doc.Start : end-doc.Start]
 		if bytes.Equal(m[blot], txt) {
 			res[blot] = txt
 		} else {
-- 
2.43.0


From 4af8a9c6bccc6901ca10786b470da1fe8729e73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:16 +0000
Subject: [PATCH 08/50] fix: documents returned in spare capacity kept stale
 data

---
 blot.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/blot.go b/blot.go
index 8bc4915..2770c1c 100644
--- a/blot.go
+++ b/blot.go
@@ -48,6 +48,7 @@ func (b *Blot) Next(lim bool) *Doc {
 	n := len(b.Docs)
 	if lim {
 		b.Docs = b.Docs[:n+1]
+		b.Docs[n] = Doc{}
 	} else {
 		b.Docs = append(b.Docs, Doc{})
 	}
-- 
2.43.0


From 2ed874c27fe382483ff05913f8cdf74e4bbcd494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:17 +0000
Subject: [PATCH 09/50] fix: Query.Next did not return when called again after
 the end

---
 query.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/query.go b/query.go
index 115a5a7..e19c01c 100644
--- a/query.go
+++ b/query.go
@@ -94,7 +94,7 @@ func (q *Query) Next(dst []Blot) (n int, err error) {
 		shardState := state.shardStates[state.i]
 		if shardState == nil {
 			state.nilCount++
-			if state.nilCount == state.n {
+			if state.nilCount >= state.n {
 				if n == 0 {
 					err = io.EOF
 					return
-- 
2.43.0


From 1e9fbbaa206ca7a20b0b7e0dcecf780cede27ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:17 +0000
Subject: [PATCH 10/50] fix: Query.Next advanced the wrong shard after a partly
 returned blot

---
 query.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/query.go b/query.go
index e19c01c..2577900 100644
--- a/query.go
+++ b/query.go
@@ -108,12 +108,15 @@ func (q *Query) Next(dst []Blot) (n int, err error) {
 			continue
 		}
 		lim := dstBlot.Docs != nil
-		_, err = q.fillBlot(dstBlot, shardState, state.i)
+		pos := state.i
+		_, err = q.fillBlot(dstBlot, shardState, pos)
 		if err != nil {
 			return
 		}
 		if len(dstBlot.Docs) <= 1 {
-			q.advance(shardState, state.i)
+			if state.shardStates[pos] == shardState {
+				q.advance(shardState, pos)
+			}
 			if lim {
 				dstBlot.Docs = dstBlot.Docs[:0]
 			} else {
-- 
2.43.0


From d6acfc03f446800cc308e98a2ed5e1e8cb040a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:10 +0000
Subject: [PATCH 11/50] fix: lookups read posts of a session that was not
 completed

---
 internal/shard/read_state.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/shard/read_state.go b/internal/shard/read_state.go
index 38bfc90..b1670cd 100644
--- a/internal/shard/read_state.go
+++ b/internal/shard/read_state.go
@@ -24,10 +24,17 @@ type ReadState struct {
 	Posts *Posts
 	Error error
 	rdr   io.ReaderAt
+	n     uint32
 }
 
 func (s *ReadState) Next() (uint32, error) {
 	var docid uint32
+	if s.n == s.Total {
+		// what follows is not committed
+		s.Error = io.EOF
+		return 0, s.Error
+	}
+	s.n++
 	docid, s.Error = s.Posts.next(s.rdr)
 	return docid, s.Error
 }
-- 
2.43.0


From dcaa85d96fb13ad0b60e504e3bea5f967d13d12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:11 +0000
Subject: [PATCH 12/50] fix: a read error of a posting count was dropped

---
 internal/shard/poster.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/shard/poster.go b/internal/shard/poster.go
index 43c557b..576d868 100644
--- a/internal/shard/poster.go
+++ b/internal/shard/poster.go
@@ -66,6 +66,9 @@ func (p *poster) initAppend(r io.ByteReader, blot uint16) error {
 	}
 	var ttl int64
 	ttl, err = binary.ReadVarint(r)
+	if err != nil {
+		return err
+	}
 	if uint64(ttl)&0xffffffff != uint64(ttl) {
 		return fmt.Errorf("invalid total: %d", ttl)
 	}
-- 
2.43.0


From 419bfb3a1ef8334543d5d630ff0a70df14bb2b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:11 +0000
Subject: [PATCH 13/50] fix: an index with lost posts was closed without an
 error

---
 internal/shard/indexer.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/internal/shard/indexer.go b/internal/shard/indexer.go
index e41b2d0..d36c8d7 100644
--- a/internal/shard/indexer.go
+++ b/internal/shard/indexer.go
@@ -29,6 +29,7 @@ type Indexer struct {
 	root    string
 	postChn chan []post.T
 	ind     [1 << 16]poster
+	err     error // first error adding posts
 
 	postFile *os.File
 }
@@ -114,7 +115,10 @@ func (x *Indexer) Close() error {
 	if err := x.flushInd(); err != nil {
 		return err
 	}
-	return x.flushIix()
+	if err := x.flushIix(); err != nil {
+		return err
+	}
+	return x.err
 }
 
 func (x *Indexer) flushIix() error {
@@ -170,6 +174,9 @@ func (x *Indexer) Serve() {
 			err := x.ind[hash].AddPost(docid, x.postFile)
 			if err != nil {
 				log.Printf("couldn't add post: %s", err)
+				if x.err == nil {
+					x.err = err
+				}
 			}
 		}
 		x.postChn <- nil
-- 
2.43.0


From 9f0a330ab50cd0697ac9d2960b6be96eabe5c74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:12 +0000
Subject: [PATCH 14/50] fix: FromTokens panicked on fewer than two trigrams

---
 attic/trigram/t.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/attic/trigram/t.go b/attic/trigram/t.go
index 0756b1f..0a97969 100644
--- a/attic/trigram/t.go
+++ b/attic/trigram/t.go
@@ -109,6 +109,9 @@ func FromTokens(dst []T, toks []token.T) []T {
 	for _, tok := range toks {
 		tri, dst = FromToken(dst, tri, tok)
 	}
+	if len(dst) < 2 {
+		return dst[len(dst):]
+	}
 	return dst[2:]
 }
 
-- 
2.43.0


From ba01d77835b51d71d6f337900d72ac57ab2b8899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:12 +0000
Subject: [PATCH 15/50] fix: an index that was moved or copied was read at its
 old place

---
 config.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/config.go b/config.go
index e28e1ba..0f5e7b2 100644
--- a/config.go
+++ b/config.go
@@ -112,7 +112,14 @@ func ReadConfigFromRoot(root string) (*Config, error) {
 	if err != nil {
 		return nil, err
 	}
-	return ReadConfig(cfg.Path())
+	abs := cfg.IndexRoot
+	cfg, err = ReadConfig(cfg.Path())
+	if err != nil {
+		return nil, err
+	}
+	// the index may have been moved or copied
+	cfg.IndexRoot = abs
+	return cfg, nil
 }
 
 func ReadConfig(path string) (*Config, error) {
-- 
2.43.0


From 81182e60b875c1001e5d6a693e738d86b2780d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:13 +0000
Subject: [PATCH 16/50] fix: OpenIndex locked another file than the indexer
 when the root was not spelled as an absolute path

---
 index.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/index.go b/index.go
index f100c16..01a2077 100644
--- a/index.go
+++ b/index.go
@@ -37,8 +37,10 @@ type Index struct {
 }
 
 func OpenIndex(root string) (*Index, error) {
-	var err error
-	cfg := &Config{IndexRoot: root}
+	cfg, err := DefaultConfig(root) // for the absolute path
+	if err != nil {
+		return nil, err
+	}
 	res := &Index{config: cfg}
 	res.lock, err = lock.New(cfg.LockPath())
 	if err != nil {
-- 
2.43.0


From 074e5cba9284876e70b493f82491c6aa84cc96c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:14 +0000
Subject: [PATCH 17/50] fix: unusable configurations were accepted (hang or
 panic later)

---
 config.go  | 15 +++++++++++++++
 indexer.go |  5 ++++-
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/config.go b/config.go
index 0f5e7b2..a3091c5 100644
--- a/config.go
+++ b/config.go
@@ -80,6 +80,21 @@ func (cfg *Config) check() error {
 	if cfg.SeqLen != cfg.BlotConfig.Interleave*cfg.BlotConfig.SeqLen {
 		return fmt.Errorf("inconsistent sequence config")
 	}
+	if cfg.SeqLen < 1 || cfg.BlotConfig.Interleave < 1 {
+		return fmt.Errorf("invalid sequence length %d, interleave %d", cfg.SeqLen, cfg.BlotConfig.Interleave)
+	}
+	if cfg.NumShards < 1 || cfg.NumShards >= 1<<16 {
+		return fmt.Errorf("invalid number of shards: %d", cfg.NumShards)
+	}
+	if cfg.NumShatters < 1 {
+		return fmt.Errorf("invalid number of shatterers: %d", cfg.NumShatters)
+	}
+	if cfg.DocFlushRate < 1 {
+		return fmt.Errorf("invalid document flush rate: %d", cfg.DocFlushRate)
+	}
+	if _, err := token.FromConfig(&cfg.TokenConfig); err != nil {
+		return err
+	}
 	return nil
 }
 
diff --git a/indexer.go b/indexer.go
index fdfceb9..b01ceb6 100644
--- a/indexer.go
+++ b/indexer.go
@@ -40,7 +40,10 @@ type Indexer struct {
 }
 
 func IndexerFromConfig(cfg *Config) (*Indexer, error) {
-	var err error
+	err := cfg.check()
+	if err != nil {
+		return nil, err
+	}
 	res := &Indexer{config: cfg}
 	res.lock, err = lock.New(cfg.LockPath())
 	if err != nil {
-- 
2.43.0


From 1352c42e090a1aa84895bf0bcd469e3685fbadc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:48 +0000
Subject: [PATCH 18/50] fix: failed opens and creates kept the lock and open
 files

---
 index.go                  | 18 ++++++++++++++++++
 indexer.go                | 22 ++++++++++++++++++++++
 internal/shard/indexer.go | 10 ++++++++++
 3 files changed, 50 insertions(+)

diff --git a/index.go b/index.go
index 01a2077..34bf63e 100644
--- a/index.go
+++ b/index.go
@@ -46,6 +46,12 @@ func OpenIndex(root string) (*Index, error) {
 	if err != nil {
 		return nil, err
 	}
+	opened := false
+	defer func() {
+		if !opened {
+			res.release()
+		}
+	}()
 	if err := res.lock.LockShared(); err != nil {
 		return nil, err
 	}
@@ -74,9 +80,21 @@ func OpenIndex(root string) (*Index, error) {
 			return nil, fmt.Errorf("error initializing shard %d: %w", i, err)
 		}
 	}
+	opened = true
 	return res, nil
 }
 
+// release gives up what a failed OpenIndex holds.
+func (x *Index) release() {
+	for i := range x.shards {
+		x.shards[i].Close() // fails harmlessly if not opened
+	}
+	if x.dmd != nil {
+		x.dmd.Close()
+	}
+	x.lock.Close()
+}
+
 func (x *Index) Close() error {
 	var err error
 	defer func() { err = x.lock.Close() }()
diff --git a/indexer.go b/indexer.go
index b01ceb6..30b1e63 100644
--- a/indexer.go
+++ b/indexer.go
@@ -49,6 +49,12 @@ func IndexerFromConfig(cfg *Config) (*Indexer, error) {
 	if err != nil {
 		return nil, err
 	}
+	opened := false
+	defer func() {
+		if !opened {
+			res.release()
+		}
+	}()
 	err = res.lock.Lock()
 	if err != nil {
 		return nil, err
@@ -83,9 +89,18 @@ func IndexerFromConfig(cfg *Config) (*Indexer, error) {
 		return nil, err
 	}
 
+	opened = true
 	return res, nil
 }
 
+// release gives up what a failed create or open holds.
+func (x *Indexer) release() {
+	for i := range x.shards {
+		x.shards[i].Release()
+	}
+	x.lock.Close()
+}
+
 func OpenIndexer(root string) (*Indexer, error) {
 	cfg, err := ReadConfigFromRoot(root)
 	if err != nil {
@@ -124,6 +139,12 @@ func openFromConfig(cfg *Config) (*Indexer, error) {
 	if err != nil {
 		return nil, err
 	}
+	opened := false
+	defer func() {
+		if !opened {
+			res.release()
+		}
+	}()
 	err = res.lock.LockShared()
 	if err != nil {
 		return nil, err
@@ -159,6 +180,7 @@ func openFromConfig(cfg *Config) (*Indexer, error) {
 	if err != nil {
 		return nil, err
 	}
+	opened = true
 	return res, nil
 }
 
diff --git a/internal/shard/indexer.go b/internal/shard/indexer.go
index d36c8d7..07c46e6 100644
--- a/internal/shard/indexer.go
+++ b/internal/shard/indexer.go
@@ -121,6 +121,16 @@ func (x *Indexer) Close() error {
 	return x.err
 }
 
+// Release stops serving and closes the files without writing anything.
+// It may be called at any time after a failed initialization.
+func (x *Indexer) Release() {
+	if x.postFile == nil {
+		return // not initialized, not served
+	}
+	close(x.postChn)
+	x.postFile.Close()
+}
+
 func (x *Indexer) flushIix() error {
 	iix, err := os.OpenFile(fmt.Sprintf("%s.iix", x.root),
 		os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0644)
-- 
2.43.0


From daf00ee79cb702deb8e5c568620e9f0715c4afdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:49 +0000
Subject: [PATCH 19/50] fix: appending to an index did not exclude readers and
 other indexers

---
 indexer.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/indexer.go b/indexer.go
index 30b1e63..873e649 100644
--- a/indexer.go
+++ b/indexer.go
@@ -102,7 +102,7 @@ func (x *Indexer) release() {
 }
 
 func OpenIndexer(root string) (*Indexer, error) {
-	cfg, err := ReadConfigFromRoot(root)
+	cfg, err := DefaultConfig(root) // for the path of the lock
 	if err != nil {
 		return nil, err
 	}
@@ -128,9 +128,8 @@ func CreateIndexer(root string, nbuckets, seqLen int) (*Indexer, error) {
 	return IndexerFromConfig(cfg)
 }
 
-// opens an index from a config.  cfg
-// actually is read from the index as a first
-// step, and this completes opening.
+// opens the index at cfg.IndexRoot.  Its config
+// is read from the index once that is locked.
 func openFromConfig(cfg *Config) (*Indexer, error) {
 	var err error
 	res := &Indexer{config: cfg}
@@ -145,10 +144,15 @@ func openFromConfig(cfg *Config) (*Indexer, error) {
 			res.release()
 		}
 	}()
-	err = res.lock.LockShared()
+	err = res.lock.Lock()
+	if err != nil {
+		return nil, err
+	}
+	cfg, err = ReadConfigFromRoot(cfg.IndexRoot)
 	if err != nil {
 		return nil, err
 	}
+	res.config = cfg
 	// internal setup
 	res.shards = make([]shard.Indexer, cfg.NumShards)
 	res.dmds, err = dmd.NewAdder(cfg.IndexRoot, cfg.DocFlushRate)
-- 
2.43.0


From 863bc9ade054e8adfbc22a2212b2aba4ed632f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:49 +0000
Subject: [PATCH 20/50] fix: OpenIndexer started numbering documents anew if
 their records were missing

---
 indexer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/indexer.go b/indexer.go
index 873e649..7943b9e 100644
--- a/indexer.go
+++ b/indexer.go
@@ -155,6 +155,9 @@ func openFromConfig(cfg *Config) (*Indexer, error) {
 	res.config = cfg
 	// internal setup
 	res.shards = make([]shard.Indexer, cfg.NumShards)
+	if _, err = os.Stat(cfg.DmdPath()); err != nil {
+		return nil, err
+	}
 	res.dmds, err = dmd.NewAdder(cfg.IndexRoot, cfg.DocFlushRate)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From a54d64c8bc7c37d7034885904d4daaf891c4e305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:50 +0000
Subject: [PATCH 21/50] fix: blot -offsets counted separators as words

---
 cmd/dupi/blot.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmd/dupi/blot.go b/cmd/dupi/blot.go
index e53e1f3..21734a2 100644
--- a/cmd/dupi/blot.go
+++ b/cmd/dupi/blot.go
@@ -71,7 +71,11 @@ func (bc *blotCmd) doFilename(fname string, idx *dupi.Index) error {
 	blots := idx.BlotDoc(nil, doc)
 	var toks []token.T
 	if *bc.offsets {
-		toks = idx.TokenFunc()(nil, doc.Dat, 0)
+		for _, tok := range idx.TokenFunc()(nil, doc.Dat, 0) {
+			if tok.Tag == token.Word {
+				toks = append(toks, tok)
+			}
+		}
 	}
 	N := uint32(idx.NumShards()) * (1 << 16)
 	seqLen := idx.SeqLen()
-- 
2.43.0


From a16f694afdb8cceac67c8eba77b91410cc9d61e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:50 +0000
Subject: [PATCH 22/50] fix: the index command skipped a path like '..' as
 hidden

---
 cmd/dupi/index.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmd/dupi/index.go b/cmd/dupi/index.go
index 2211487..037e97d 100644
--- a/cmd/dupi/index.go
+++ b/cmd/dupi/index.go
@@ -102,14 +102,14 @@ func (x *indexCmd) Run(args []string) error {
 	return reterr
 }
 
-func (x *indexCmd) mkWalkFn(perr *error) func(path string, entry fs.DirEntry, err error) error {
+func (x *indexCmd) mkWalkFn(root string, perr *error) func(path string, entry fs.DirEntry, err error) error {
 	return func(path string, entry fs.DirEntry, err error) error {
 		if err != nil {
 			log.Printf("error %s", err)
 			*perr = err
 			return fs.SkipDir
 		}
-		if strings.HasPrefix(entry.Name(), ".") && len(entry.Name()) > 1 {
+		if path != root && strings.HasPrefix(entry.Name(), ".") {
 			if entry.IsDir() {
 				return fs.SkipDir
 			}
@@ -139,6 +139,6 @@ func (x *indexCmd) mkWalkFn(perr *error) func(path string, entry fs.DirEntry, er
 
 func (x *indexCmd) doPath(fpath string) error {
 	var err error
-	filepath.WalkDir(fpath, x.mkWalkFn(&err))
+	filepath.WalkDir(fpath, x.mkWalkFn(fpath, &err))
 	return err
 }
-- 
2.43.0


From a9b5027f838a01fed241947822b7e65fc484fcd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:51 +0000
Subject: [PATCH 23/50] fix: the index command stopped silently at the first
 unreadable file

---
 cmd/dupi/index.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/cmd/dupi/index.go b/cmd/dupi/index.go
index 037e97d..9ac2bb6 100644
--- a/cmd/dupi/index.go
+++ b/cmd/dupi/index.go
@@ -121,19 +121,26 @@ func (x *indexCmd) mkWalkFn(root string, perr *error) func(path string, entry fs
 
 		f, e := os.Open(path)
 		if e != nil {
-			return e
+			log.Printf("error %s", e)
+			*perr = e
+			return nil
 		}
 		defer f.Close()
 		dat, err := ioutil.ReadAll(f)
 		if err != nil {
+			log.Printf("error %s", err)
 			*perr = err
-			return err
+			return nil
 		}
 		doc := &dupi.Doc{Path: path, Dat: dat, End: uint32(len(dat))}
 		if *x.verbose {
 			log.Printf("indexing %s %d:%d\n", path, 0, doc.End)
 		}
-		return x.indexer.Add(doc)
+		err = x.indexer.Add(doc)
+		if err != nil {
+			*perr = err
+		}
+		return err
 	}
 }
 
-- 
2.43.0


From 4cda7d8b964463bf357d1ae6db345d3d562eeef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:51 +0000
Subject: [PATCH 24/50] fix: like missed documents if several windows of the
 file had the same blot

---
 cmd/dupi/like.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/cmd/dupi/like.go b/cmd/dupi/like.go
index 73f5f7e..7c6a6f9 100644
--- a/cmd/dupi/like.go
+++ b/cmd/dupi/like.go
@@ -92,17 +92,14 @@ func doFilename(idx *dupi.Index, fname string) error {
 	}
 	N := uint32(idx.NumShards()) * (1 << 16)
 	seqLen := idx.SeqLen()
-	bm := make(map[uint32][]byte, len(blots))
-	for i, b := range blots {
-		beg := toks[i].Pos
-		end := toks[i+seqLen].Pos + uint32(len(toks[i+seqLen].Lit))
-		bm[b%N] = dat[beg:end]
-	}
 	query := idx.StartQuery(dupi.QueryMaxBlot)
 	var db dupi.Blot
 	found := make(map[docKey]int)
-	for _, blot := range blots {
+	for i, blot := range blots {
 		b := blot % N
+		beg := toks[i].Pos
+		end := toks[i+seqLen].Pos + uint32(len(toks[i+seqLen].Lit))
+		bm := map[uint32][]byte{b: dat[beg:end]}
 		db.Blot = b
 		db.Docs = nil
 		if err := query.Get(&db); err != nil {
-- 
2.43.0


From f5a3301915716a61091f244c9b3bb95811122e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:39 +0000
Subject: [PATCH 25/50] fix: a lookup panicked if a document record names an
 unknown path

---
 index.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/index.go b/index.go
index 34bf63e..2d4b84c 100644
--- a/index.go
+++ b/index.go
@@ -312,6 +312,9 @@ func (x *Index) docid2Doc(did uint32, doc *Doc) error {
 	if err != nil {
 		return fmt.Errorf("docid2Doc(%d) dmd gave %w", did, err)
 	}
+	if uint64(fid) >= uint64(len(x.fnames.d)) {
+		return fmt.Errorf("docid2Doc(%d) dmd gave unknown path %d", did, fid)
+	}
 	doc.Path = x.fnames.abs(fid)
 	doc.Start = start
 	doc.End = end
-- 
2.43.0


From bab686aa2a6c91da3a5891dc3ab6591c2d936149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:41 +0000
Subject: [PATCH 26/50] fix: a damaged path table made opening an index panic
 or lookups loop

---
 fnames.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fnames.go b/fnames.go
index 8205c2c..603d4b8 100644
--- a/fnames.go
+++ b/fnames.go
@@ -145,6 +145,9 @@ func breadFnames(r *bufio.Reader) (*fnames, error) {
 		if err != nil {
 			return nil, err
 		}
+		if v > uint32(i) || i > 0 && v == uint32(i) {
+			return nil, fmt.Errorf("path %d has parent %d", i, v)
+		}
 		fname.parent = v
 		pname := &s.d[fname.parent]
 		if pname.children == nil {
-- 
2.43.0


From f61c4852b1adaace32ce9f7133ca6a385b9953c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:09 +0000
Subject: [PATCH 27/50] fix: a damaged path table without entries or with a
 wrong count made opening an index panic or run out of memory

---
 fnames.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/fnames.go b/fnames.go
index 603d4b8..af6c5df 100644
--- a/fnames.go
+++ b/fnames.go
@@ -124,10 +124,12 @@ func breadFnames(r *bufio.Reader) (*fnames, error) {
 	if err != nil {
 		return nil, err
 	}
+	if v == 0 {
+		return nil, fmt.Errorf("path table without root")
+	}
 	s := &fnames{}
-	s.d = make([]fname, v)
 	var buf []byte
-	for i := range s.d {
+	for i, n := uint32(0), v; i < n; i++ {
 		v, err = readUvarint32(r)
 		if err != nil {
 			return nil, err
@@ -139,13 +141,13 @@ func breadFnames(r *bufio.Reader) (*fnames, error) {
 		if err != nil {
 			return nil, err
 		}
+		s.d = append(s.d, fname{name: string(buf[:v])})
 		fname := &s.d[i]
-		fname.name = string(buf[:v])
 		v, err = readUvarint32(r)
 		if err != nil {
 			return nil, err
 		}
-		if v > uint32(i) || i > 0 && v == uint32(i) {
+		if v > i || i > 0 && v == i {
 			return nil, fmt.Errorf("path %d has parent %d", i, v)
 		}
 		fname.parent = v
@@ -153,7 +155,7 @@ func breadFnames(r *bufio.Reader) (*fnames, error) {
 		if pname.children == nil {
 			pname.children = make(map[string]uint32)
 		}
-		pname.children[fname.name] = uint32(i)
+		pname.children[fname.name] = i
 	}
 	return s, nil
 }
-- 
2.43.0


From 37d29acd9af96f46798c53dccf2b5ead6183324b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:26 +0000
Subject: [PATCH 28/50] fix: an index root named like a verb was taken for the
 verb

---
 cmd/dupi/dupi.go | 20 +++-----------------
 1 file changed, 3 insertions(+), 17 deletions(-)

diff --git a/cmd/dupi/dupi.go b/cmd/dupi/dupi.go
index 97f6311..7656090 100644
--- a/cmd/dupi/dupi.go
+++ b/cmd/dupi/dupi.go
@@ -56,20 +56,6 @@ func getIndexRoot() string {
 	return filepath.Join(home, ".dupi")
 }
 
-// returns global argument list
-func splitArgs(args []string) ([]string, []string) {
-	var i int
-	var arg string
-	var sc Verb
-	for i, arg = range args {
-		sc = scMap[arg]
-		if sc != nil {
-			break
-		}
-	}
-	return args[:i], args[i:]
-}
-
 func usage(w io.Writer) {
 	fmt.Fprintf(w, "usage: dupi [global opts] <verb> <args>\n")
 	fmt.Fprintf(w, "verbs are:\n")
@@ -96,7 +82,9 @@ func main() {
 	}); err != nil {
 		log.Fatal(err)
 	}
-	gargs, largs := splitArgs(os.Args[1:])
+	gFlags.Usage = func() { usageFatal(os.Stderr) }
+	gFlags.Parse(os.Args[1:])
+	largs := gFlags.Args() // the verb and what follows it
 	if len(largs) == 0 {
 		usageFatal(os.Stderr)
 	}
@@ -104,8 +92,6 @@ func main() {
 	if sc == nil {
 		usageFatal(os.Stderr)
 	}
-	gFlags.Usage = func() { usageFatal(os.Stderr) }
-	gFlags.Parse(gargs)
 	if err := sc.Run(largs[1:]); err != nil {
 		log.Fatal(err)
 	}
-- 
2.43.0


From 25604aae0555a040501fe3a296b173e196f395f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:26 +0000
Subject: [PATCH 29/50] fix: dupi blot reported success when a file could not
 be read

---
 cmd/dupi/blot.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmd/dupi/blot.go b/cmd/dupi/blot.go
index 21734a2..4599580 100644
--- a/cmd/dupi/blot.go
+++ b/cmd/dupi/blot.go
@@ -49,12 +49,14 @@ func (b *blotCmd) Run(args []string) error {
 		log.Fatalf("couldn't open dupi index at '%s': %s", root, err)
 	}
 	defer idx.Close()
+	var reterr error
 	for _, fname := range b.flags.Args() {
 		if err = b.doFilename(fname, idx); err != nil {
 			log.Printf("error processing %s: %s", fname, err)
+			reterr = err
 		}
 	}
-	return nil
+	return reterr
 }
 
 func (bc *blotCmd) doFilename(fname string, idx *dupi.Index) error {
-- 
2.43.0


From b4d8324e0400e3cb1a61e21dd91c584348b6ad67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:28 +0000
Subject: [PATCH 30/50] fix: dupi unblot looked up another blot if an argument
 was none

---
 cmd/dupi/unblot.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cmd/dupi/unblot.go b/cmd/dupi/unblot.go
index b1827c6..c8f7cac 100644
--- a/cmd/dupi/unblot.go
+++ b/cmd/dupi/unblot.go
@@ -18,6 +18,7 @@ import (
 	"flag"
 	"fmt"
 	"log"
+	"strconv"
 
 	"github.com/go-air/dupi"
 )
@@ -48,10 +49,11 @@ func (ub *unblotCmd) Run(args []string) error {
 	defer idx.Close()
 	query := idx.StartQuery(dupi.QueryMaxBlot)
 	for _, arg := range ub.flags.Args() {
-		var hex uint32
-		if _, err := fmt.Sscanf(arg, "%x", &hex); err != nil {
+		v, err := strconv.ParseUint(arg, 16, 32)
+		if err != nil {
 			return err
 		}
+		hex := uint32(v)
 		blot := &dupi.Blot{Blot: hex}
 		if err := query.Get(blot); err != nil {
 			return err
-- 
2.43.0


From 92a5bd771c8b80c2a7e2583774b9f1d10297ef37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:34 +0000
Subject: [PATCH 31/50] fix: dupenron printed nothing with -o, and hid errors

---
 cmd/dupenron/main.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/cmd/dupenron/main.go b/cmd/dupenron/main.go
index 353b337..0164718 100644
--- a/cmd/dupenron/main.go
+++ b/cmd/dupenron/main.go
@@ -49,8 +49,13 @@ func csvReader(fname string) (*csv.Reader, func() error, error) {
 
 func main() {
 	flag.Parse()
+	if flag.NArg() == 0 {
+		log.Fatal("no csv file")
+	}
 	if *O {
-		oEnron(flag.Args()[0])
+		if err := oEnron(flag.Args()[0]); err != nil {
+			log.Fatal(err)
+		}
 		return
 	}
 	if err := agent.Listen(agent.Options{
@@ -83,8 +88,9 @@ func oEnron(fname string) error {
 		rcd, err := rdr.Read()
 		if err != nil {
 			if err == io.EOF {
-				return nil
+				break
 			}
+			writer.Flush()
 			return fmt.Errorf("error reading csv: %s", err)
 		}
 		err = writer.Write(rcd)
@@ -92,7 +98,8 @@ func oEnron(fname string) error {
 			return err
 		}
 	}
-	return nil
+	writer.Flush()
+	return writer.Error()
 }
 
 func indexEnron(index *dupi.Indexer, fname string) error {
@@ -123,7 +130,9 @@ func indexEnron(index *dupi.Indexer, fname string) error {
 			Start: offset + uint32(ibody) + 2 + uint32(len(rcd[0]))}
 		doc.End = offset + uint32(len(doc.Dat))
 		offset = doc.End
-		index.Add(doc)
+		if err := index.Add(doc); err != nil {
+			return err
+		}
 		rcds++
 		if rcds%10000 == 0 {
 			fmt.Printf("%d rcds\n", rcds)
-- 
2.43.0


From 516a6c0aa58c6b3592654beebbc0f6791ece7cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:57 +0000
Subject: [PATCH 32/50] fix: a failed Indexer.Close left the posting files open

---
 indexer.go                | 13 ++++++++++---
 internal/shard/indexer.go |  3 ++-
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/indexer.go b/indexer.go
index 7943b9e..758c41a 100644
--- a/indexer.go
+++ b/indexer.go
@@ -233,9 +233,12 @@ func (x *Indexer) Close() error {
 		// for all shards to complete before
 		// returning => shards are no longer busy.
 	}
-	for i := 0; i < x.config.NumShards; i++ {
-		close(x.shards[i].PostChan())
-	}
+	written := false
+	defer func() {
+		for i := 0; !written && i < len(x.shards); i++ {
+			x.shards[i].Release()
+		}
+	}()
 	if err := x.config.Write(); err != nil {
 		return err
 	}
@@ -245,6 +248,10 @@ func (x *Indexer) Close() error {
 	if err := x.dmds.Close(); err != nil {
 		return err
 	}
+	written = true
+	for i := 0; i < x.config.NumShards; i++ {
+		close(x.shards[i].PostChan())
+	}
 	errs := make(chan error, len(x.shards))
 	for i := range x.shards {
 		b := &x.shards[i]
diff --git a/internal/shard/indexer.go b/internal/shard/indexer.go
index 07c46e6..bac5100 100644
--- a/internal/shard/indexer.go
+++ b/internal/shard/indexer.go
@@ -122,7 +122,8 @@ func (x *Indexer) Close() error {
 }
 
 // Release stops serving and closes the files without writing anything.
-// It may be called at any time after a failed initialization.
+// It may be called at any time after a failed initialization,
+// and instead of Close.
 func (x *Indexer) Release() {
 	if x.postFile == nil {
 		return // not initialized, not served
-- 
2.43.0


From 870dc04264cc9c973a1bd43a02af0d3f7f38292c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:59 +0000
Subject: [PATCH 33/50] fix: loading a document that ends before it starts
 allocated gigabytes

---
 doc.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/doc.go b/doc.go
index f8df994..7cc003f 100644
--- a/doc.go
+++ b/doc.go
@@ -54,6 +54,8 @@ func (doc *Doc) Load() error {
 			return fmt.Errorf("readall: %w", err)
 		}
 		doc.End = uint32(len(doc.Dat))
+	} else if doc.End < doc.Start {
+		return fmt.Errorf("load %s: end %d is before start %d", doc.Path, doc.End, doc.Start)
 	} else {
 		_, err = f.Seek(int64(doc.Start), io.SeekStart)
 		if err != nil {
-- 
2.43.0


From 47894da05cee01f566c24a8cf01d06535d90f437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:41 +0000
Subject: [PATCH 34/50] fix: a damaged posting file made lookups panic or
 extraction endless

---
 internal/shard/poster.go | 12 ++++++------
 internal/shard/posts.go  | 10 +++++++++-
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/internal/shard/poster.go b/internal/shard/poster.go
index 576d868..0191dec 100644
--- a/internal/shard/poster.go
+++ b/internal/shard/poster.go
@@ -121,10 +121,7 @@ func (p *poster) readToLink(f *os.File) error {
 		if err != nil {
 			return err
 		}
-		if v > int64(len(buf)) {
-			buf = make([]byte, v*2)
-		}
-		if v <= 8 {
+		if v <= 8 || v > int64(len(buf)) {
 			return fmt.Errorf("%s: invalid length of flushed post buffer: %d", p, v)
 		}
 		_, err = f.ReadAt(buf[:v], head+n)
@@ -135,9 +132,12 @@ func (p *poster) readToLink(f *os.File) error {
 		if link == -1 {
 			p.link = head + n + v - 8
 			return nil
-		} else {
-			head = link
 		}
+		if link <= head {
+			// posts are only ever linked to posts written later
+			return fmt.Errorf("%s: invalid link of flushed post buffer: %d", p, link)
+		}
+		head = link
 	}
 }
 
diff --git a/internal/shard/posts.go b/internal/shard/posts.go
index f009769..b915d52 100644
--- a/internal/shard/posts.go
+++ b/internal/shard/posts.go
@@ -91,6 +91,9 @@ func (p *Posts) readNext(r io.ReaderAt) error {
 	if err != nil {
 		return fmt.Errorf("1 %w\n", err)
 	}
+	if v <= 8 || v > int64(len(p.buf)) {
+		return fmt.Errorf("invalid length of posts: %d", v)
+	}
 	_, err = r.ReadAt(p.buf[:v], p.nextpos+n)
 	if err != nil {
 		return fmt.Errorf("2 %w\n", err)
@@ -120,7 +123,12 @@ func (p *Posts) readNext(r io.ReaderAt) error {
 			break
 		}
 	}
-	p.nextpos = int64(binary.BigEndian.Uint64(buf[i:]))
+	next := int64(binary.BigEndian.Uint64(buf[i:]))
+	if next != -1 && next <= p.nextpos {
+		// posts are only ever linked to posts written later
+		return fmt.Errorf("invalid link of posts: %d", next)
+	}
+	p.nextpos = next
 	p.i = 0
 	return nil
 }
-- 
2.43.0


From 7248651e1b73597e2cb18677b643cbcb350ea660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:43 +0000
Subject: [PATCH 35/50] fix: a damaged path table could make opening allocate
 gigabytes

---
 fnames.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/fnames.go b/fnames.go
index af6c5df..d5eff06 100644
--- a/fnames.go
+++ b/fnames.go
@@ -128,20 +128,18 @@ func breadFnames(r *bufio.Reader) (*fnames, error) {
 		return nil, fmt.Errorf("path table without root")
 	}
 	s := &fnames{}
-	var buf []byte
+	var buf bytes.Buffer
 	for i, n := uint32(0), v; i < n; i++ {
 		v, err = readUvarint32(r)
 		if err != nil {
 			return nil, err
 		}
-		if v > uint32(len(buf)) {
-			buf = make([]byte, v)
-		}
-		_, err = io.ReadFull(r, buf[:v])
+		buf.Reset()
+		_, err = io.CopyN(&buf, r, int64(v))
 		if err != nil {
 			return nil, err
 		}
-		s.d = append(s.d, fname{name: string(buf[:v])})
+		s.d = append(s.d, fname{name: buf.String()})
 		fname := &s.d[i]
 		v, err = readUvarint32(r)
 		if err != nil {
-- 
2.43.0


From 188ef1e40bdbb54eab6f52d05bbca13982904dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:46 +0000
Subject: [PATCH 36/50] fix: a huge document flush rate made creating an index
 panic

---
 dmd/adder.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dmd/adder.go b/dmd/adder.go
index 275ae3f..e24e1ed 100644
--- a/dmd/adder.go
+++ b/dmd/adder.go
@@ -17,6 +17,7 @@ package dmd
 import (
 	"encoding/binary"
 	"io"
+	"math"
 	"os"
 	"path/filepath"
 )
@@ -30,8 +31,14 @@ type Adder struct {
 
 func NewAdder(root string, fr int) (*Adder, error) {
 	ufr := uint32(fr)
+	if uint64(fr) > math.MaxUint32 {
+		ufr = math.MaxUint32
+	}
 	path := filepath.Join(root, "dmd")
 	adder := &Adder{path: path, flushRate: ufr}
+	if fr > 1<<14 {
+		fr = 1 << 14 // from here on only the room to start with
+	}
 	fi, err := os.Stat(path)
 	if os.IsNotExist(err) {
 		adder.buf = make([]fields, 1, fr)
-- 
2.43.0


From 0f66f12b5e718969a609117051fa81ecc0c377aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:48 +0000
Subject: [PATCH 37/50] fix: opening an index whose configuration names too
 many shards ran out of memory

---
 index.go   | 4 ++++
 indexer.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/index.go b/index.go
index 2d4b84c..0225817 100644
--- a/index.go
+++ b/index.go
@@ -73,6 +73,10 @@ func OpenIndex(root string) (*Index, error) {
 	if err != nil {
 		return nil, err
 	}
+	// the tables are large, check that they exist before allocating them
+	if _, err := os.Stat(cfg.PostPath(cfg.NumShards - 1)); err != nil {
+		return nil, err
+	}
 	res.shards = make([]shard.Index, cfg.NumShards)
 	for i := range res.shards {
 		shard := &res.shards[i]
diff --git a/indexer.go b/indexer.go
index 758c41a..110551b 100644
--- a/indexer.go
+++ b/indexer.go
@@ -154,6 +154,10 @@ func openFromConfig(cfg *Config) (*Indexer, error) {
 	}
 	res.config = cfg
 	// internal setup
+	// the tables are large, check that they exist before allocating them
+	if _, err = os.Stat(cfg.PostPath(cfg.NumShards - 1)); err != nil {
+		return nil, err
+	}
 	res.shards = make([]shard.Indexer, cfg.NumShards)
 	if _, err = os.Stat(cfg.DmdPath()); err != nil {
 		return nil, err
-- 
2.43.0


From e2a3e31f3b069edc1623723491540e5279ecf35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:26 +0000
Subject: [PATCH 38/50] fix: a post can be added to a posting filter again
 after it was lost by an intersection

---
 attic/bposts.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/attic/bposts.go b/attic/bposts.go
index f7cd69a..58bc8a6 100644
--- a/attic/bposts.go
+++ b/attic/bposts.go
@@ -45,6 +45,7 @@ func (t *bposts) Intersect(o *bposts) *bposts {
 	for i := range t.Set {
 		t.Set[i] &= o.Set[i]
 	}
+	t.Total = 0 // the post added last may be gone, it can be added again
 	return t
 }
 
-- 
2.43.0


From c82a0870b2ae578ec11b2b672677eabb456dcd0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:29 +0000
Subject: [PATCH 39/50] fix: like handles the arguments left after its flags,
 as the other verbs do

---
 cmd/dupi/like.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/dupi/like.go b/cmd/dupi/like.go
index 7c6a6f9..5284429 100644
--- a/cmd/dupi/like.go
+++ b/cmd/dupi/like.go
@@ -48,7 +48,7 @@ func (lc *likeCmd) Run(args []string) error {
 		log.Fatalf("couldn't open dupi index at '%s': %s", root, err)
 	}
 	defer idx.Close()
-	for _, fname := range args {
+	for _, fname := range lc.flags.Args() {
 		if err := doFilename(idx, fname); err != nil {
 			return err
 		}
-- 
2.43.0


From 79408cf7159b57d1517b0164f6be86cea95e9c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:17 +0000
Subject: [PATCH 40/50] fix: extract with a huge sigma printed every blot
 instead of none

---
 cmd/dupi/extract.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/dupi/extract.go b/cmd/dupi/extract.go
index 91f924b..a80ab60 100644
--- a/cmd/dupi/extract.go
+++ b/cmd/dupi/extract.go
@@ -63,7 +63,7 @@ func (x *extractCmd) Run(args []string) error {
 		log.Fatal(err)
 	}
 	σ := *x.sigma
-	N := int(math.Round(st.BlotMean + σ*st.BlotSigma))
+	N := math.Round(st.BlotMean + σ*st.BlotSigma)
 	query := x.index.StartQuery(dupi.QueryMaxBlot)
 	shape := []dupi.Blot{{Blot: 0}}
 	for {
@@ -80,7 +80,7 @@ func (x *extractCmd) Run(args []string) error {
 		if n == 0 {
 			return fmt.Errorf("Query.Next gave 0 and no error")
 		}
-		if len(shape[0].Docs) < N {
+		if float64(len(shape[0].Docs)) < N {
 			return nil
 		}
 		if *x.json {
-- 
2.43.0


From cf7e329d1693cb9d41c8f97f456052bb98bc87ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:17 +0000
Subject: [PATCH 41/50] fix: a filter of 2^29 bytes or more panicked or used a
 part of its bits

---
 attic/ibloom/fnv32.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/attic/ibloom/fnv32.go b/attic/ibloom/fnv32.go
index db3db47..274a640 100644
--- a/attic/ibloom/fnv32.go
+++ b/attic/ibloom/fnv32.go
@@ -87,8 +87,8 @@ func (f *fnv32) PutOnes(dst []uint32, v uint32) {
 }
 
 func clamp(h, n uint32) uint32 {
-	bits := n * 8
-	return h % bits
+	bits := uint64(n) * 8
+	return uint32(uint64(h) % bits)
 }
 
 func (b *fnv32) Has(d []byte, v uint32) bool {
-- 
2.43.0


From 313a5c9e479fa1fce1269e4377a66f7843a4fc10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:18 +0000
Subject: [PATCH 42/50] fix: a filter with fewer than 8 bits in its config
 panicked

---
 attic/ibloom/config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/attic/ibloom/config.go b/attic/ibloom/config.go
index a82a562..1275f1d 100644
--- a/attic/ibloom/config.go
+++ b/attic/ibloom/config.go
@@ -24,7 +24,7 @@ type Config struct {
 func FromConfig(cfg *Config) (Filter, error) {
 	switch cfg.Name {
 	case "fnv32":
-		return NewFnv32(cfg.M/8, cfg.K), nil
+		return NewFnv32((cfg.M+7)/8, cfg.K), nil
 	default:
 		return nil, fmt.Errorf("unknown filter name: '%s'", cfg.Name)
 	}
-- 
2.43.0


From b5b298067dc0a6796524c5285471ef11daa379d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:18 +0000
Subject: [PATCH 43/50] fix: closing a created index wrote beside it after its
 config or the working directory changed

---
 indexer.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/indexer.go b/indexer.go
index 110551b..2289d7d 100644
--- a/indexer.go
+++ b/indexer.go
@@ -17,6 +17,7 @@ package dupi
 import (
 	"log"
 	"os"
+	"path/filepath"
 
 	"github.com/go-air/dupi/dmd"
 	"github.com/go-air/dupi/internal/shard"
@@ -44,6 +45,14 @@ func IndexerFromConfig(cfg *Config) (*Indexer, error) {
 	if err != nil {
 		return nil, err
 	}
+	// the config is the caller's, who may change it or the
+	// working directory before the index is closed.
+	own := *cfg
+	cfg = &own
+	cfg.IndexRoot, err = filepath.Abs(cfg.IndexRoot)
+	if err != nil {
+		return nil, err
+	}
 	res := &Indexer{config: cfg}
 	res.lock, err = lock.New(cfg.LockPath())
 	if err != nil {
-- 
2.43.0


From e2117967cedb0d296c16c700b8e6696842f09570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:02 +0000
Subject: [PATCH 44/50] fix: an append after a killed session continued its
 posting lists

---
 internal/shard/poster.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/internal/shard/poster.go b/internal/shard/poster.go
index 0191dec..a8c58db 100644
--- a/internal/shard/poster.go
+++ b/internal/shard/poster.go
@@ -116,6 +116,7 @@ func (p *poster) readToLink(f *os.File) error {
 	}
 	buf := make([]byte, flushRate+binary.MaxVarintLen64+8+10)
 	head := p.head
+	left := p.total
 	for {
 		v, n, err := readVarintAt(f, head)
 		if err != nil {
@@ -128,11 +129,18 @@ func (p *poster) readToLink(f *os.File) error {
 		if err != nil {
 			return err
 		}
-		link := int64(binary.BigEndian.Uint64(buf[v-8 : v]))
-		if link == -1 {
+		m := countPosts(buf[:v-8])
+		if m > left {
+			return fmt.Errorf("%s: more posts than there should be", p)
+		}
+		left -= m
+		if left == 0 {
+			// a link to posts of a session that was not completed
+			// is replaced
 			p.link = head + n + v - 8
 			return nil
 		}
+		link := int64(binary.BigEndian.Uint64(buf[v-8 : v]))
 		if link <= head {
 			// posts are only ever linked to posts written later
 			return fmt.Errorf("%s: invalid link of flushed post buffer: %d", p, link)
@@ -141,6 +149,16 @@ func (p *poster) readToLink(f *os.File) error {
 	}
 }
 
+// countPosts counts the numbers in the encoded posts d.
+func countPosts(d []byte) (n uint32) {
+	for _, b := range d {
+		if b < 0x80 {
+			n++
+		}
+	}
+	return n
+}
+
 func (p *poster) writeVarint64(w io.Writer, v int64) (int, error) {
 	n := binary.PutVarint(p.buf, v)
 	_, err := w.Write(p.buf[:n])
-- 
2.43.0


From 218a5987ea1c779f7f6902c27a02f7e4132cc8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:02 +0000
Subject: [PATCH 45/50] fix: records added after a killed or failed write of
 records were misaligned

---
 dmd/adder.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dmd/adder.go b/dmd/adder.go
index e24e1ed..0066167 100644
--- a/dmd/adder.go
+++ b/dmd/adder.go
@@ -82,11 +82,16 @@ func (t *Adder) Close() error {
 }
 
 func (t *Adder) flush() error {
-	f, err := os.OpenFile(t.path, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0644)
+	f, err := os.OpenFile(t.path, os.O_CREATE|os.O_WRONLY, 0644)
 	if err != nil {
 		return err
 	}
 	defer f.Close()
+	// what comes after the records was left by a write that was not completed
+	err = f.Truncate(int64(t.flushed) * rcdSize)
+	if err != nil {
+		return err
+	}
 	_, err = f.Seek(0, io.SeekEnd)
 	if err != nil {
 		return err
-- 
2.43.0


From a6383bd008196119fcb476eafc11827a7dee3921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:02 +0000
Subject: [PATCH 46/50] fix: failing to write posts damaged the posting lists
 of earlier sessions

---
 internal/shard/indexer.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/internal/shard/indexer.go b/internal/shard/indexer.go
index bac5100..84f801e 100644
--- a/internal/shard/indexer.go
+++ b/internal/shard/indexer.go
@@ -112,13 +112,15 @@ func (x *Indexer) readIix() error {
 // delta, delta, delta fileid, start-lastend, end-start
 // this assumes the postChn is closed.
 func (x *Indexer) Close() error {
-	if err := x.flushInd(); err != nil {
-		return err
+	if x.err != nil {
+		// the posts are not complete, those of earlier sessions stay
+		x.postFile.Close()
+		return x.err
 	}
-	if err := x.flushIix(); err != nil {
+	if err := x.flushInd(); err != nil {
 		return err
 	}
-	return x.err
+	return x.flushIix()
 }
 
 // Release stops serving and closes the files without writing anything.
-- 
2.43.0


From 8af6ec97d91ee54c3fbde751760790fef3a4b8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:42 +0000
Subject: [PATCH 47/50] fix: index refuses files that are too large for 32 bit
 offsets

---
 cmd/dupi/index.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/cmd/dupi/index.go b/cmd/dupi/index.go
index 9ac2bb6..74264f9 100644
--- a/cmd/dupi/index.go
+++ b/cmd/dupi/index.go
@@ -16,9 +16,11 @@ package main
 
 import (
 	"flag"
+	"fmt"
 	"io/fs"
 	"io/ioutil"
 	"log"
+	"math"
 	"os"
 	"path/filepath"
 	"strings"
@@ -126,6 +128,16 @@ func (x *indexCmd) mkWalkFn(root string, perr *error) func(path string, entry fs
 			return nil
 		}
 		defer f.Close()
+		fi, err := f.Stat()
+		if err == nil && fi.Size() > math.MaxUint32 {
+			// offsets in documents have 32 bits
+			err = fmt.Errorf("%s is too large", path)
+		}
+		if err != nil {
+			log.Printf("error %s", err)
+			*perr = err
+			return nil
+		}
 		dat, err := ioutil.ReadAll(f)
 		if err != nil {
 			log.Printf("error %s", err)
-- 
2.43.0


From 0452b2c09f457a3d4dd101c4b1461adc6d5ccccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:52 +0000
Subject: [PATCH 48/50] fix: loading a whole file fails if its length needs
 more than 32 bits

---
 doc.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/doc.go b/doc.go
index 7cc003f..8911568 100644
--- a/doc.go
+++ b/doc.go
@@ -20,6 +20,7 @@ import (
 	"fmt"
 	"io"
 	"io/ioutil"
+	"math"
 	"os"
 )
 
@@ -49,6 +50,13 @@ func (doc *Doc) Load() error {
 	defer f.Close()
 
 	if doc.Start == 0 && doc.End == 0 {
+		fi, err := f.Stat()
+		if err != nil {
+			return fmt.Errorf("stat: %w", err)
+		}
+		if fi.Size() > math.MaxUint32 {
+			return fmt.Errorf("load %s: too large", doc.Path)
+		}
 		doc.Dat, err = ioutil.ReadAll(f)
 		if err != nil {
 			return fmt.Errorf("readall: %w", err)
-- 
2.43.0


From 87eddc8369c27f2a0757770dd501d29a35f85263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:49 +0000
Subject: [PATCH 49/50] fix: query commands reported success when their output
 could not be written

---
 cmd/dupi/blot.go    |  7 +++++--
 cmd/dupi/extract.go | 17 +++++++++++++----
 cmd/dupi/inspect.go |  8 ++++----
 cmd/dupi/like.go    |  9 +++++++--
 cmd/dupi/unblot.go  |  9 +++++++--
 5 files changed, 36 insertions(+), 14 deletions(-)

diff --git a/cmd/dupi/blot.go b/cmd/dupi/blot.go
index 4599580..48331b3 100644
--- a/cmd/dupi/blot.go
+++ b/cmd/dupi/blot.go
@@ -85,9 +85,12 @@ func (bc *blotCmd) doFilename(fname string, idx *dupi.Index) error {
 		if *bc.offsets {
 			beg := toks[i].Pos
 			end := toks[i+seqLen].Pos + uint32(len(toks[i+seqLen].Lit))
-			fmt.Printf("%x %d:%d\n", b%N, beg, end)
+			_, err = fmt.Printf("%x %d:%d\n", b%N, beg, end)
 		} else {
-			fmt.Printf("%x\n", b%N)
+			_, err = fmt.Printf("%x\n", b%N)
+		}
+		if err != nil {
+			return err
 		}
 	}
 	return nil
diff --git a/cmd/dupi/extract.go b/cmd/dupi/extract.go
index a80ab60..b204688 100644
--- a/cmd/dupi/extract.go
+++ b/cmd/dupi/extract.go
@@ -107,15 +107,24 @@ func (x *extractCmd) Run(args []string) error {
 					continue
 				}
 				if *x.blotonly {
-					fmt.Printf("%x\n", blot.Blot)
+					if _, err := fmt.Printf("%x\n", blot.Blot); err != nil {
+						return err
+					}
 					continue
 				}
-				fmt.Printf("%x", blot.Blot)
+				if _, err := fmt.Printf("%x", blot.Blot); err != nil {
+					return err
+				}
 				for i := range blot.Docs {
 					doc := &blot.Docs[i]
-					fmt.Printf(" %s@%d:%d", doc.Path, doc.Start, doc.End)
+					_, err := fmt.Printf(" %s@%d:%d", doc.Path, doc.Start, doc.End)
+					if err != nil {
+						return err
+					}
+				}
+				if _, err := fmt.Printf("\n"); err != nil {
+					return err
 				}
-				fmt.Printf("\n")
 			}
 		}
 		for i := range shape {
diff --git a/cmd/dupi/inspect.go b/cmd/dupi/inspect.go
index 1a088e4..d410fd5 100644
--- a/cmd/dupi/inspect.go
+++ b/cmd/dupi/inspect.go
@@ -65,9 +65,9 @@ func (in *inspectCmd) Run(args []string) error {
 		if err != nil {
 			log.Fatal(err)
 		}
-		os.Stdout.Write(d)
-	} else {
-		fmt.Print(st)
+		_, err = os.Stdout.Write(d)
+		return err
 	}
-	return nil
+	_, err = fmt.Print(st)
+	return err
 }
diff --git a/cmd/dupi/like.go b/cmd/dupi/like.go
index 5284429..5fa0bd3 100644
--- a/cmd/dupi/like.go
+++ b/cmd/dupi/like.go
@@ -128,9 +128,14 @@ func doFilename(idx *dupi.Index, fname string) error {
 	sort.Slice(keys, func(i, j int) bool {
 		return found[keys[i]] < found[keys[j]]
 	})
-	fmt.Printf("like %s:\n", fname)
+	if _, err := fmt.Printf("like %s:\n", fname); err != nil {
+		return err
+	}
 	for _, dk := range keys {
-		fmt.Printf("\t%s %d:%d\n", dk.Path, dk.start, dk.end)
+		_, err := fmt.Printf("\t%s %d:%d\n", dk.Path, dk.start, dk.end)
+		if err != nil {
+			return err
+		}
 	}
 	return nil
 }
diff --git a/cmd/dupi/unblot.go b/cmd/dupi/unblot.go
index c8f7cac..66fc5b7 100644
--- a/cmd/dupi/unblot.go
+++ b/cmd/dupi/unblot.go
@@ -76,9 +76,14 @@ func (ub *unblotCmd) Run(args []string) error {
 			if !*ub.all && len(ds) < 2 {
 				continue
 			}
-			fmt.Printf("text:\n'''\n%s'''\n", k)
+			if _, err := fmt.Printf("text:\n'''\n%s'''\n", k); err != nil {
+				return err
+			}
 			for _, d := range ds {
-				fmt.Printf("\t%s %d:%d\n", d.Path, d.Start, d.End)
+				_, err := fmt.Printf("\t%s %d:%d\n", d.Path, d.Start, d.End)
+				if err != nil {
+					return err
+				}
 			}
 		}
 	}
-- 
2.43.0


From fafc1bdaff1cdb003ebe0a258eb92154ac2969e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:08 +0000
Subject: [PATCH 50/50] fix: indexing a tree with a named pipe never ended

---
 cmd/dupi/index.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/cmd/dupi/index.go b/cmd/dupi/index.go
index 74264f9..2c21ff9 100644
--- a/cmd/dupi/index.go
+++ b/cmd/dupi/index.go
@@ -120,6 +120,9 @@ func (x *indexCmd) mkWalkFn(root string, perr *error) func(path string, entry fs
 		if entry.IsDir() {
 			return nil
 		}
+		if path != root && !readable(path) {
+			return nil
+		}
 
 		f, e := os.Open(path)
 		if e != nil {
@@ -156,6 +159,13 @@ func (x *indexCmd) mkWalkFn(root string, perr *error) func(path string, entry fs
 	}
 }
 
+// readable reports whether what is at path is no pipe, socket or device:
+// reading those may never end.
+func readable(path string) bool {
+	fi, err := os.Stat(path)
+	return err != nil || fi.Mode()&(fs.ModeNamedPipe|fs.ModeSocket|fs.ModeDevice) == 0
+}
+
 func (x *indexCmd) doPath(fpath string) error {
 	var err error
 	filepath.WalkDir(fpath, x.mkWalkFn(fpath, &err))
-- 
2.43.0

