From 56d9fa7c7831c29c3d205078fe38d57e90efa029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:52 +0000
Subject: [PATCH 01/17] fix: gslice.Merge must not write into or alias the
 first slice's spare capacity

---
 gogenerics/gcontainers/gslice/slice.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gogenerics/gcontainers/gslice/slice.go b/gogenerics/gcontainers/gslice/slice.go
index 5e3a692..e30f18f 100644
--- a/gogenerics/gcontainers/gslice/slice.go
+++ b/gogenerics/gcontainers/gslice/slice.go
@@ -151,7 +151,7 @@ func Merge[T any](s1, s2 []T) []T {
 	if s2 == nil {
 		return Copy(s1)
 	}
-	return append(s1, s2...)
+	return append(Copy(s1), s2...)
 }
 
 // IsSorted reports whether x is sorted in ascending order
-- 
2.43.0


From 05c5f2e14832ec83ea0b1a107850723d2dae0c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:52 +0000
Subject: [PATCH 02/17] fix: gmap.Equal looks keys up in the second map

---
 gogenerics/gcontainers/gmap/map.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gogenerics/gcontainers/gmap/map.go b/gogenerics/gcontainers/gmap/map.go
index ab0d76f..24f99c8 100644
--- a/gogenerics/gcontainers/gmap/map.go
+++ b/gogenerics/gcontainers/gmap/map.go
@@ -81,7 +81,7 @@ func Equal[K, V comparable](m1, m2 map[K]V) bool {
 	}
 
 	for k, v1 := range m1 {
-		v2, ok := m1[k]
+		v2, ok := m2[k]
 		if !ok || v2 != v1 {
 			return false
 		}
-- 
2.43.0


From 873e7084655f09f42584ae1089d30ab52f8527f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:54 +0000
Subject: [PATCH 03/17] fix: AtomicError.Set no longer panics on a second
 concrete error type

---
 gogenerics/gconstraints/errors.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/gogenerics/gconstraints/errors.go b/gogenerics/gconstraints/errors.go
index 81c3bbd..47cac65 100644
--- a/gogenerics/gconstraints/errors.go
+++ b/gogenerics/gconstraints/errors.go
@@ -7,20 +7,25 @@ import (
 // AtomicError defines an atomic error.
 
 type AtomicError struct {
-	err atomic.Value // error
+	err atomic.Value // errorHolder
+}
+
+// errorHolder gives all stored errors the same concrete type, as atomic.Value requires.
+type errorHolder struct {
+	err error
 }
 
 // Set sets the error.
 func (ae *AtomicError) Set(err error) {
 	if err != nil {
-		ae.err.Store(err)
+		ae.err.Store(errorHolder{err: err})
 	}
 }
 
 // Load returns the error.
 func (ae *AtomicError) Load() error {
 	if v := ae.err.Load(); v != nil {
-		return v.(error)
+		return v.(errorHolder).err
 	}
 	return nil
 }
-- 
2.43.0


From 0f57b860f484cfd9f83709a2a40d1e1525380b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:56 +0000
Subject: [PATCH 04/17] fix: BitSet.Count and Sub within one byte, and the bit
 shifts of Sub

---
 library/bitset/bitset.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/library/bitset/bitset.go b/library/bitset/bitset.go
index 757c39f..9d6bfc4 100644
--- a/library/bitset/bitset.go
+++ b/library/bitset/bitset.go
@@ -131,6 +131,9 @@ func (b *BitSet) Count(start, end int) int {
 	if !valid {
 		return 0
 	}
+	if sgi == egi {
+		return bits.OnesCount8(b.set[sgi] << sbi >> (sbi + 7 - ebi))
+	}
 	var n int
 	n += bits.OnesCount8(b.set[sgi] << sbi)
 	for _, v := range b.set[sgi+1 : egi] {
@@ -349,14 +352,18 @@ func (b *BitSet) Sub(start, end int) *BitSet {
 	if !valid {
 		return newBitSet
 	}
+	if sgi == egi {
+		newBitSet.set = append(newBitSet.set, b.set[sgi]>>(7-ebi)<<(7-ebi)<<sbi)
+		return newBitSet
+	}
 	pre := b.set[sgi] << sbi
 	for _, v := range b.set[sgi+1 : egi] {
-		newBitSet.set = append(newBitSet.set, pre|v>>(7-sbi))
+		newBitSet.set = append(newBitSet.set, pre|v>>(8-sbi))
 		pre = v << sbi
 	}
 	last := b.set[egi] >> (7 - ebi) << (7 - ebi)
-	newBitSet.set = append(newBitSet.set, pre|last>>(7-sbi))
-	if sbi < ebi {
+	newBitSet.set = append(newBitSet.set, pre|last>>(8-sbi))
+	if sbi <= ebi {
 		newBitSet.set = append(newBitSet.set, last<<sbi)
 	}
 	return newBitSet
-- 
2.43.0


From 943960e73704e9d7f227a73b60a9ed58bec50741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:52 +0000
Subject: [PATCH 05/17] fix: take the lock in LRUCacheV2.MGet

MGet read and modified the map and the recency list without holding the
mutex, so it raced with every other operation.
---
 library/cachex/lrucache.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/library/cachex/lrucache.go b/library/cachex/lrucache.go
index 7b800be..5420a9a 100644
--- a/library/cachex/lrucache.go
+++ b/library/cachex/lrucache.go
@@ -96,6 +96,9 @@ func (lc *LRUCacheV2[K, V]) MGet(_ context.Context, keys ...K) ([]V, []bool, err
 	if len(keys) == 0 {
 		return nil, nil, nil
 	}
+	lc.mux.Lock()
+	defer lc.mux.Unlock()
+
 	values := make([]V, len(keys))
 	oks := make([]bool, len(keys))
 	for idx, key := range keys {
-- 
2.43.0


From 9b162b32fafa1e2fdca0a045d79a7db9d27a8a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:34 +0000
Subject: [PATCH 06/17] fix: Chain.MGet fills every position of a repeated key

---
 library/cachex/cache.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/library/cachex/cache.go b/library/cachex/cache.go
index c6ec8e5..1a6fb4c 100644
--- a/library/cachex/cache.go
+++ b/library/cachex/cache.go
@@ -157,9 +157,10 @@ func (c *Chain[K, V]) MGet(ctx context.Context, keys ...K) ([]V, []bool, error)
 		return nil, nil, nil
 	}
 	length := len(keys)
-	indexMap := make(map[K]int, length)
-	for i, k := range keys {
-		indexMap[k] = i
+	// positions[j] is the index in the result of keys[j], a key can be requested several times
+	positions := make([]int, length)
+	for i := range positions {
+		positions[i] = i
 	}
 	values := make([]V, length)
 	status := make([]bool, length)
@@ -174,13 +175,16 @@ func (c *Chain[K, V]) MGet(ctx context.Context, keys ...K) ([]V, []bool, error)
 		if err1 != nil && !c.ContinueOnReadErr {
 			return nil, nil, err1
 		}
-		for j := 0; j < len(oks); j++ {
-			if oks[j] {
-				keyIndex := indexMap[keys[j]]
+		missed := make([]int, 0, len(positions))
+		for j, keyIndex := range positions {
+			if j < len(oks) && oks[j] {
 				values[keyIndex] = vals[j]
 				status[keyIndex] = true
+			} else {
+				missed = append(missed, keyIndex)
 			}
 		}
+		positions = missed
 		// Set the content queried from the next-level cache to the upper-level cache
 		c.msetForMGet(ctx, c.Caches[:idx], keys, vals, oks)
 		keys = c.keysNotFound(keys, oks)
-- 
2.43.0


From 920363676c998b88f59a6cbfbc3c8209b5abd25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:06 +0000
Subject: [PATCH 07/17] fix: sync.Map CompareAndSwap and CompareAndDelete
 compare the current value with old

---
 gogenerics/gconcurrent/sync/map.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gogenerics/gconcurrent/sync/map.go b/gogenerics/gconcurrent/sync/map.go
index 7d64677..91c1596 100644
--- a/gogenerics/gconcurrent/sync/map.go
+++ b/gogenerics/gconcurrent/sync/map.go
@@ -166,7 +166,7 @@ func (m *Map[K, V]) Store(key K, value V) {
 // the entry unchanged.
 func (e *entry[V]) tryCompareAndSwap(old, new V) bool {
 	p := e.p.Load()
-	if p == nil || unsafe.Pointer(p) == expunged {
+	if p == nil || unsafe.Pointer(p) == expunged || any(*p) != any(old) {
 		return false
 	}
 
@@ -179,7 +179,7 @@ func (e *entry[V]) tryCompareAndSwap(old, new V) bool {
 			return true
 		}
 		p = e.p.Load()
-		if p == nil || unsafe.Pointer(p) == expunged {
+		if p == nil || unsafe.Pointer(p) == expunged || any(*p) != any(old) {
 			return false
 		}
 	}
@@ -434,7 +434,7 @@ func (m *Map[K, V]) CompareAndDelete(key K, old V) (deleted bool) {
 	}
 	for ok {
 		p := e.p.Load()
-		if p == nil || unsafe.Pointer(p) == expunged {
+		if p == nil || unsafe.Pointer(p) == expunged || any(*p) != any(old) {
 			return false
 		}
 		if e.p.CompareAndSwap(p, nil) {
-- 
2.43.0


From cb376bdd1d181bf2620192a513cfc68e0e3ee6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:51 +0000
Subject: [PATCH 08/17] fix: cryptox padding no longer writes into the spare
 capacity of the plaintext slice

---
 library/cryptox/cryptox.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/library/cryptox/cryptox.go b/library/cryptox/cryptox.go
index cb29f56..9eec80f 100644
--- a/library/cryptox/cryptox.go
+++ b/library/cryptox/cryptox.go
@@ -203,6 +203,8 @@ func mustNewCipher(cipherKey []byte) cipher.Block {
 
 func pkcs5Padding(plainText []byte, blockSize int) []byte {
 	n := byte(blockSize - len(plainText)%blockSize)
+	// Work on a copy, so that the padding never lands in the spare capacity of the caller's slice.
+	plainText = append(make([]byte, 0, len(plainText)+int(n)), plainText...)
 	for i := byte(0); i < n; i++ {
 		plainText = append(plainText, n)
 	}
-- 
2.43.0


From 0f5a228c804325e1a90ee3d154fe2f7ff86573fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:52 +0000
Subject: [PATCH 09/17] fix: cryptox decryption rejects partial blocks and
 invalid padding lengths instead of panicking or accepting them

---
 library/cryptox/cryptox.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/library/cryptox/cryptox.go b/library/cryptox/cryptox.go
index 9eec80f..2c10212 100644
--- a/library/cryptox/cryptox.go
+++ b/library/cryptox/cryptox.go
@@ -87,6 +87,10 @@ func AESDecrypt(cipherKey, ciphertext []byte, useBase64 ...bool) ([]byte, error)
 		return nil, err
 	}
 	blockSize := block.BlockSize()
+	// ECB mode always works in whole blocks.
+	if len(src)%blockSize != 0 {
+		return nil, errors.New("ciphertext is not a multiple of the block size")
+	}
 	r := make([]byte, len(src))
 	dst := r
 	for len(src) > 0 {
@@ -217,7 +221,7 @@ func pkcs5Unpadding(r []byte) ([]byte, error) {
 		return nil, errors.New("input padded bytes is empty")
 	}
 	last := int(r[l-1])
-	if l-last < 0 {
+	if last == 0 || last > aes.BlockSize || l-last < 0 {
 		return nil, errors.New("input padded bytes is invalid")
 	}
 	n := byte(last)
-- 
2.43.0


From 022503101262499abf7967b8353f453d6b5a83e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:25 +0000
Subject: [PATCH 10/17] fix: CodePointToUTF8 no longer decodes leading text
 that is not preceded by \u

---
 library/stringx/stringx.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/library/stringx/stringx.go b/library/stringx/stringx.go
index 2b90b6f..adca410 100644
--- a/library/stringx/stringx.go
+++ b/library/stringx/stringx.go
@@ -210,10 +210,8 @@ func HTMLEntityToUTF8(str string, base int) string {
 // e.g.: CodePointToUTF8(`{"info":[["color","\u5496\u5561\u8272\u7c\u7eff\u8272"]]｝`, 16)
 // => `{"info":[["color","咖啡色|绿色"]]｝`
 func CodePointToUTF8(str string, base int) string {
-	i := 0
-	if strings.Index(str, `\u`) > 0 {
-		i = 1
-	}
+	// the text before the first \u is no code point
+	i := 1
 	strSlice := strings.Split(str, `\u`)
 	last := len(strSlice) - 1
 	if len(strSlice[last]) > 4 {
-- 
2.43.0


From 8e991fc00d884ba96f53630b7b27ab9bafa6fe01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:33 +0000
Subject: [PATCH 11/17] fix: file cache cleaning leaves files alone that are
 not cache files

---
 library/cachex/file.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/cachex/file.go b/library/cachex/file.go
index be9cd26..93f46ad 100644
--- a/library/cachex/file.go
+++ b/library/cachex/file.go
@@ -221,7 +221,7 @@ func (f *FileStore[K, V]) scanExpire() {
 		if err != nil {
 			return nil
 		}
-		if d.IsDir() {
+		if d.IsDir() || !strings.HasSuffix(path, cacheFileExt) {
 			return nil
 		}
 		_, _, _ = f.readFile(path)
-- 
2.43.0


From 7ef682efb0e9ecc8497bfd3dd6f3d81941406aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:36 +0000
Subject: [PATCH 12/17] fix: a file cache entry with a very long lifetime does
 not expire at once

---
 library/cachex/file.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/library/cachex/file.go b/library/cachex/file.go
index 93f46ad..7e06355 100644
--- a/library/cachex/file.go
+++ b/library/cachex/file.go
@@ -8,6 +8,7 @@ import (
 	"errors"
 	"fmt"
 	"io/fs"
+	"math"
 	"os"
 	"path/filepath"
 	"strings"
@@ -95,11 +96,16 @@ func (f *FileStore[K, V]) Set(ctx context.Context, key K, value V, ttl time.Dura
 	defer f.gc()
 
 	fp := f.getFilePath(key)
+	// a lifetime that ends beyond the range of nanoseconds never ends
+	now, exp := time.Now().UnixNano(), int64(math.MaxInt64)
+	if int64(ttl) < exp-now {
+		exp = now + int64(ttl)
+	}
 	item := fileCacheItem[K, V]{
 		Data: value,
 		Key:  key,
 		TTL:  int64(ttl),
-		Exp:  time.Now().Add(ttl).UnixNano(),
+		Exp:  exp,
 	}
 	content, err := json.MarshalIndent(item, "", "  ")
 	if err != nil {
-- 
2.43.0


From 26c194d285c8cca6bc9b2577454e8242bf19dd7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:38 +0000
Subject: [PATCH 13/17] fix: purging the file cache leaves directories alone

---
 library/cachex/file.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/cachex/file.go b/library/cachex/file.go
index 7e06355..0e39cab 100644
--- a/library/cachex/file.go
+++ b/library/cachex/file.go
@@ -243,9 +243,9 @@ func (f *FileStore[K, V]) Purge() error {
 	var lastErr error
 	var errTotal int
 	_ = filepath.WalkDir(f.Dir, func(path string, d fs.DirEntry, err error) error {
-		if strings.HasSuffix(path, cacheFileExt) {
+		if err == nil && !d.IsDir() && strings.HasSuffix(path, cacheFileExt) {
 			e := os.Remove(path)
-			if e != nil && !os.IsNotExist(err) {
+			if e != nil && !os.IsNotExist(e) {
 				errTotal++
 				lastErr = e
 			}
-- 
2.43.0


From 0b9a8cdbd2ed0ec0084ab0b782b4da426cef3aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:45 +0000
Subject: [PATCH 14/17] fix: background cleaning no longer removes file cache
 entries that are being written

---
 library/cachex/file.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/library/cachex/file.go b/library/cachex/file.go
index 0e39cab..b1537cf 100644
--- a/library/cachex/file.go
+++ b/library/cachex/file.go
@@ -12,6 +12,7 @@ import (
 	"os"
 	"path/filepath"
 	"strings"
+	"sync"
 	"sync/atomic"
 	"time"
 )
@@ -39,6 +40,9 @@ type FileStore[K comparable, V any] struct {
 
 	lastGC   atomic.Int64
 	gcStatus atomic.Bool
+
+	// mu keeps a cache file as it is from reading it to removing it
+	mu sync.RWMutex
 }
 
 func (f *FileStore[K, V]) getFilePath(key K) string {
@@ -63,6 +67,8 @@ func (f *FileStore[K, V]) Get(_ context.Context, key K) (V, bool, error) {
 }
 
 func (f *FileStore[K, V]) readFile(fp string) (V, bool, error) {
+	f.mu.RLock()
+	defer f.mu.RUnlock()
 	content, err := os.ReadFile(fp)
 	if err != nil {
 		var emp V
@@ -116,6 +122,8 @@ func (f *FileStore[K, V]) Set(ctx context.Context, key K, value V, ttl time.Dura
 	if err != nil && os.IsNotExist(err) {
 		_ = os.MkdirAll(dir, 0777)
 	}
+	f.mu.Lock()
+	defer f.mu.Unlock()
 	return os.WriteFile(fp, content, 0666)
 }
 
-- 
2.43.0


From 5e1aed0bfbd8bf7652a61b2d1f80cd6148bf9baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:10 +0000
Subject: [PATCH 15/17] fix: MapReduce no longer hangs or loses a panic that
 comes after the result

With an unbuffered panic channel the reducer (or a mapper, or the generator)
that panics after a value was written waits forever for a receiver that is
already draining the output. The channel has room for the one panic now, and
it is looked at once more when everything has ended.
---
 gogenerics/gconcurrent/mr/mr.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/gogenerics/gconcurrent/mr/mr.go b/gogenerics/gconcurrent/mr/mr.go
index 2c7d316..52999b6 100644
--- a/gogenerics/gconcurrent/mr/mr.go
+++ b/gogenerics/gconcurrent/mr/mr.go
@@ -137,7 +137,7 @@ func ForEach[T any](generate GenerateFunc[T], mapper ForEachFunc[T], opts ...Opt
 // and reduces the output elements with given reducer.
 func MapReduce[T, U, V any](generate GenerateFunc[T], mapper MapperFunc[T, U], reducer ReducerFunc[U, V],
 	opts ...Option) (V, error) {
-	panicChan := &onceChan{channel: make(chan any)}
+	panicChan := &onceChan{channel: make(chan any, 1)}
 	source := buildSource(generate, panicChan)
 	return mapReduceWithPanicChan(source, panicChan, mapper, reducer, opts...)
 }
@@ -145,7 +145,7 @@ func MapReduce[T, U, V any](generate GenerateFunc[T], mapper MapperFunc[T, U], r
 // MapReduceChan maps all elements from source, and reduce the output elements with given reducer.
 func MapReduceChan[T, U, V any](source <-chan T, mapper MapperFunc[T, U], reducer ReducerFunc[U, V],
 	opts ...Option) (V, error) {
-	panicChan := &onceChan{channel: make(chan any)}
+	panicChan := &onceChan{channel: make(chan any, 1)}
 	return mapReduceWithPanicChan(source, panicChan, mapper, reducer, opts...)
 }
 
@@ -160,6 +160,15 @@ func mapReduceWithPanicChan[T, U, V any](source <-chan T, panicChan *onceChan, m
 		for range output {
 			panic("more than one element written in reducer")
 		}
+
+		// a panic that came after the result must not be lost
+		if err == nil || err == ErrReduceNoOutput {
+			select {
+			case v := <-panicChan.channel:
+				panic(v)
+			default:
+			}
+		}
 	}()
 
 	// collector is used to collect data from mapper, and consume in reducer
-- 
2.43.0


From 0cfd66bf3ee32da2ceac4f9bf61c144c9f6c3662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:10 +0000
Subject: [PATCH 16/17] fix: MapReduce keeps the first cancel error when the
 context ends as well

---
 gogenerics/gconcurrent/mr/mr.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gogenerics/gconcurrent/mr/mr.go b/gogenerics/gconcurrent/mr/mr.go
index 52999b6..00d1ac0 100644
--- a/gogenerics/gconcurrent/mr/mr.go
+++ b/gogenerics/gconcurrent/mr/mr.go
@@ -223,7 +223,8 @@ func mapReduceWithPanicChan[T, U, V any](source <-chan T, panicChan *onceChan, m
 	select {
 	case <-options.ctx.Done():
 		cancel(context.DeadlineExceeded)
-		err = context.DeadlineExceeded
+		// an earlier cancel comes first
+		err = retErr.Load()
 	case v := <-panicChan.channel:
 		// drain output here, otherwise for loop panic in defer
 		drain(output)
-- 
2.43.0


From d595c325b76fc1202759d7b3e1cc083b224d80fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:10 +0000
Subject: [PATCH 17/17] fix: ForEach waits for its mappers before it panics

---
 gogenerics/gconcurrent/mr/mr.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gogenerics/gconcurrent/mr/mr.go b/gogenerics/gconcurrent/mr/mr.go
index 00d1ac0..8eac95a 100644
--- a/gogenerics/gconcurrent/mr/mr.go
+++ b/gogenerics/gconcurrent/mr/mr.go
@@ -124,6 +124,8 @@ func ForEach[T any](generate GenerateFunc[T], mapper ForEachFunc[T], opts ...Opt
 	for {
 		select {
 		case v := <-panicChan.channel:
+			// no mapper may outlive the call
+			drain(collector)
 			panic(v)
 		case _, ok := <-collector:
 			if !ok {
-- 
2.43.0

