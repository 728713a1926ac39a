package os

// The files of the system by path: which exist, what they hold; which directories exist.
ghost var fsHas [string]bool
ghost var fsData [string]string
ghost var fsDir [string]bool
// reading or walking fails for other reasons than a missing file
ghost var ioFault bool
logic noFile(e error) bool

func ReadFile
params name
results b, err
trusted "the file system: os.ReadFile"
ensures err == nil ==> fsHas[name] && !fsDir[name] && str(b) == fsData[name]
ensures fsHas[name] && !ioFault ==> err == nil
ensures err != nil && noFile(err) ==> !fsHas[name]
ensures !fsHas[name] && !ioFault ==> noFile(err)

func IsNotExist
params err
trusted "os.IsNotExist"
ensures result <==> err != nil && noFile(err)

func Remove
params name
results err
trusted "the file system: os.Remove takes away a file or an empty directory, or nothing"
modifies fsHas
modifies fsDir
ensures err == nil ==> fsHas == old(fsHas)[name := false] && fsDir == old(fsDir)[name := false]
ensures err != nil ==> fsHas == old(fsHas) && fsDir == old(fsDir)
ensures err != nil && noFile(err) ==> !fsHas[name]

func Stat
params name
results fi, err
trusted "the file system: os.Stat changes nothing"

func MkdirAll
params path, perm
results err
trusted "the file system: os.MkdirAll only adds directories"
modifies fsDir
ensures forall q string :: { fsDir[q] } { old(fsDir)[q] } old(fsDir)[q] ==> fsDir[q]

func WriteFile
params name, data, perm
results err
trusted "the file system: os.WriteFile replaces what the file holds, or leaves something at that path when it fails"
modifies fsHas
modifies fsData
ensures err == nil ==> fsHas == old(fsHas)[name := true] && fsData == old(fsData)[name := str(data)]
ensures forall q string :: { fsHas[q] } { old(fsHas)[q] } q != name ==> (fsHas[q] <==> old(fsHas)[q])
ensures forall q string :: { fsData[q] } { old(fsData)[q] } q != name ==> fsData[q] == old(fsData)[q]

package path/filepath

// the path lies in the tree of the root
logic isUnder(root string, path string) bool
// a directory and six names joined
logic path7(dir string, a string, b string, c string, d string, e string, f string) string
logic nth7(p string, i int) string
axiom path7_parts(dir string, a string, b string, c string, d string, e string, f string)
trigger { path7(dir, a, b, c, d, e, f) }
ensures let p := path7(dir, a, b, c, d, e, f) :: nth7(p, 1) == a && nth7(p, 2) == b && nth7(p, 3) == c && nth7(p, 4) == d && nth7(p, 5) == e && nth7(p, 6) == f
trusted "paths below the same directory made of different names without separators differ"
logic isEntryDir(d any) bool

func Join
params elem
trusted "filepath.Join"
ensures len(elem) == 7 ==> result == path7(seq(elem)[0], seq(elem)[1], seq(elem)[2], seq(elem)[3], seq(elem)[4], seq(elem)[5], seq(elem)[6])

func Dir
params path
trusted "filepath.Dir"

func WalkDir
params root, fn
results err
trusted "filepath.WalkDir visits what lies in the tree: directories and files, every file that stays unless reading a directory fails"
iterates path, d, e
each isUnder(root, path)
each e == nil ==> d != nil && (isEntryDir(d) <==> fsDir[path])
each fsHas[path] ==> e == nil && !fsDir[path]
atend !ioFault ==> (forall q string :: { fsHas[q] } { $vis[q] } fsHas[q] && old(fsHas)[q] && isUnder(root, q) ==> $vis[q])

package io/fs
func DirEntry.IsDir
params d
trusted "io/fs: the kind of a directory entry"
ensures result <==> isEntryDir(d)

package crypto/md5
func New
results h
trusted "standard library: an empty MD5 hash"
modifies hashFed
ensures h != nil && hashKind(h) == 5 && hashFed == old(hashFed)[h := ""]

package hash
func Hash.Write
params h, p
results n, err
trusted "standard library: a hash takes all bytes and never fails"
modifies hashFed
ensures hashFed == old(hashFed)[h := fed(old(hashFed[h]), str(p))] && n == len(p) && err == nil
func Hash.Sum
params h, b
trusted "standard library: the digest of the bytes fed"
ensures hashKind(h) == 5 && len(b) == 0 ==> str(result) == md5Of(hashFed[h])

package cachex

// --- FileStore: an entry is a file at a path made of the digest of the key's text.
def keyHex(t string) string = hexTextOf(md5Of(t))
def cachePath(dir string, t string) string = let h := keyHex(t) :: path7(dir, h[0:3], h[3:6], h[6:9], h[9:12], h[12:15], h[16:32]) + cacheFileExt
def isCache(q string) bool = hasSuffix(q, cacheFileExt)
def expOf(t string) int = jsonField(t, Exp, ty(int64))
// a file the cache no longer needs: no record, or one past its time
def deadText(t string) bool = !jsonOK(t) || expOf(t) <= clock

lemma own_path(dir string, t string)
ensures [C25:own] hasSuffix(cachePath(dir, t), cacheFileExt)

lemma same_front(a string, b string, c string)
requires a + c == b + c
assert len(a + c) == len(a) + len(c) && len(b + c) == len(b) + len(c)
assert forall i int :: { a[i] } { b[i] } 0 <= i && i < len(a) ==> (a+c)[i] == a[i] && (b+c)[i] == b[i]
assert sameText(a, b)
ensures [C25:front] a == b

def dirPart(dir string, h string) string = path7(dir, h[0:3], h[3:6], h[6:9], h[9:12], h[12:15], h[16:32])
lemma key_dirs(dir string, h string, g string, i int)
requires len(h) == 32 && len(g) == 32 && dirPart(dir, h) == dirPart(dir, g) && 0 <= i && i < 32 && i != 15
assert nth7(dirPart(dir, h), 1) == h[0:3] && nth7(dirPart(dir, g), 1) == g[0:3]
assert nth7(dirPart(dir, h), 6) == h[16:32] && nth7(dirPart(dir, g), 6) == g[16:32]
assert i < 3 ==> h[0:3][i] == g[0:3][i]
assert 3 <= i && i < 6 ==> h[3:6][i-3] == g[3:6][i-3]
assert 6 <= i && i < 9 ==> h[6:9][i-6] == g[6:9][i-6]
assert 9 <= i && i < 12 ==> h[9:12][i-9] == g[9:12][i-9]
assert 12 <= i && i < 15 ==> h[12:15][i-12] == g[12:15][i-12]
assert 16 <= i ==> h[16:32][i-16] == g[16:32][i-16]
ensures [C25:distinct] h[i] == g[i]

lemma key_paths(dir string, t string, u string, i int)
requires 0 <= i && i < 32 && i != 15 && keyHex(t)[i] != keyHex(u)[i]
assert len(keyHex(t)) == 32 && len(keyHex(u)) == 32
use cachePath(dir, t) == cachePath(dir, u) ==> same_front(dirPart(dir, keyHex(t)), dirPart(dir, keyHex(u)), cacheFileExt)
use dirPart(dir, keyHex(t)) == dirPart(dir, keyHex(u)) ==> key_dirs(dir, keyHex(t), keyHex(u), i)
ensures [C25:distinct] cachePath(dir, t) != cachePath(dir, u)

func FileStore.getFilePath
params f, key
modifies hashFed
exit assert fed("", sprintOf(box(key))) == sprintOf(box(key))
exit assert hashFed[h] == sprintOf(box(key))
exit assert s == keyHex(sprintOf(box(key)))
ensures [C25:path] result == cachePath(f.Dir, sprintOf(box(key)))

func fileCacheItem.Alive
params fi
modifies clock
ensures clock >= old(clock)
ensures [C25:alive] result <==> fi.Exp > clock

func FileStore.readFile
params f, fp
results v, ok, err
requires f.mu >= 0
ensures [C25:unlocked] f.mu == old(f.mu)
modifies FileStore.mu at f
call Remove assert f.mu > 0
option onesection
modifies fsHas
modifies fsDir
modifies clock
ensures clock >= old(clock)
ensures [C25:others] forall q string :: { fsHas[q] } { old(fsHas)[q] } q != fp ==> (fsHas[q] <==> old(fsHas)[q])
ensures [C25:dirs] forall q string :: { fsDir[q] } { old(fsDir)[q] } fsDir[q] <==> old(fsDir)[q]
ensures [C25:value] ok ==> old(fsHas)[fp] && jsonOK(fsData[fp]) && expOf(fsData[fp]) > old(clock) && v == jsonField(fsData[fp], Data, ty(V)) && err == nil
ensures [C25:hit] old(fsHas)[fp] && !ioFault && !deadText(fsData[fp]) ==> ok
ensures [C25:keep] fsHas[fp] != old(fsHas)[fp] ==> old(fsHas)[fp] && deadText(fsData[fp])
ensures [C25:miss] !old(fsHas)[fp] ==> !ok && (!ioFault ==> err == nil)

func FileStore.scanExpire
params f
requires f.mu == 0
ensures [C25:unlocked] f.mu == old(f.mu)
modifies FileStore.mu at f
modifies fsHas
modifies fsDir
modifies clock
loop 1
invariant f.mu == old(f.mu)
invariant clock >= old(clock)
invariant forall q string :: { fsHas[q] } { old(fsHas)[q] } fsHas[q] != old(fsHas)[q] ==> old(fsHas)[q] && isCache(q) && deadText(fsData[q])
invariant forall q string :: { fsDir[q] } { old(fsDir)[q] } fsDir[q] <==> old(fsDir)[q]
ensures clock >= old(clock)
ensures [C25:clean-files] forall q string :: { fsHas[q] } { old(fsHas)[q] } fsHas[q] != old(fsHas)[q] ==> old(fsHas)[q] && isCache(q) && deadText(fsData[q])
ensures [C25:clean-dirs] forall q string :: { fsDir[q] } { old(fsDir)[q] } fsDir[q] <==> old(fsDir)[q]

func FileStore.gc
params f
option gosync
requires f.mu == 0
ensures [C25:unlocked] f.mu == old(f.mu)
modifies FileStore.mu at f
modifies fsHas
modifies fsDir
modifies clock
modifies FileStore.lastGC at f
modifies FileStore.gcStatus at f
requires f.lastGC >= 0
ensures f.lastGC >= 0
ensures clock >= old(clock)
ensures [C25:clean-files] forall q string :: { fsHas[q] } { old(fsHas)[q] } fsHas[q] != old(fsHas)[q] ==> old(fsHas)[q] && isCache(q) && deadText(fsData[q])
ensures [C25:clean-dirs] forall q string :: { fsDir[q] } { old(fsDir)[q] } fsDir[q] <==> old(fsDir)[q]

func FileStore.Get
params f, ctx, key
results v, ok, err
requires f.mu == 0
ensures [C25:unlocked] f.mu == old(f.mu)
modifies FileStore.mu at f
exit use own_path(f.Dir, sprintOf(box(key)))
modifies fsHas
modifies fsDir
modifies clock
modifies hashFed
modifies FileStore.lastGC at f
modifies FileStore.gcStatus at f
requires f.lastGC >= 0
ensures f.lastGC >= 0
ensures clock >= old(clock)
ensures [C25:get-files] forall q string :: { fsHas[q] } { old(fsHas)[q] } fsHas[q] != old(fsHas)[q] ==> old(fsHas)[q] && isCache(q) && deadText(fsData[q])
ensures [C25:get-dirs] forall q string :: { fsDir[q] } { old(fsDir)[q] } fsDir[q] <==> old(fsDir)[q]
ensures [C25:get-value] let p := cachePath(f.Dir, sprintOf(box(key))) :: ok ==> old(fsHas)[p] && jsonOK(fsData[p]) && expOf(fsData[p]) > old(clock) && v == jsonField(fsData[p], Data, ty(V)) && err == nil
ensures [C25:get-hit] let p := cachePath(f.Dir, sprintOf(box(key))) :: old(fsHas)[p] && !ioFault && !deadText(fsData[p]) ==> ok
ensures [C25:get-miss] let p := cachePath(f.Dir, sprintOf(box(key))) :: !old(fsHas)[p] ==> !ok && (!ioFault ==> err == nil)

func FileStore.MGet
params f, ctx, keys
results vs, oks, err
requires f.mu == 0
ensures [C25:unlocked] f.mu == old(f.mu)
modifies FileStore.mu at f
modifies fsHas
modifies fsDir
modifies clock
modifies hashFed
modifies FileStore.lastGC at f
modifies FileStore.gcStatus at f
requires f.lastGC >= 0
ensures f.lastGC >= 0
loop 1
invariant f.mu == old(f.mu)
invariant f.lastGC >= 0 && clock >= old(clock) && len(values) == len(keys) && len(status) == len(keys) && fresh(values) && fresh(status)
invariant forall q string :: { fsHas[q] } { old(fsHas)[q] } fsHas[q] != old(fsHas)[q] ==> old(fsHas)[q] && isCache(q) && deadText(fsData[q])
invariant forall q string :: { fsDir[q] } { old(fsDir)[q] } fsDir[q] <==> old(fsDir)[q]
invariant forall k int :: { mem(keys)[k] } off(keys) <= k && k < off(keys) + $it ==> (let p := cachePath(f.Dir, sprintOf(box(mem(keys)[k]))) :: let j := k - off(keys) :: (seq(status)[j] ==> old(fsHas)[p] && jsonOK(fsData[p]) && expOf(fsData[p]) > old(clock) && seq(values)[j] == jsonField(fsData[p], Data, ty(V))) && (old(fsHas)[p] && !ioFault && !deadText(fsData[p]) ==> seq(status)[j]))
ensures [C25:mget-len] err == nil && len(keys) > 0 ==> len(vs) == len(keys) && len(oks) == len(keys)
ensures [C25:mget-value] err == nil ==> (forall k int :: { mem(keys)[k] } off(keys) <= k && k < off(keys) + len(keys) ==> (let p := cachePath(f.Dir, sprintOf(box(mem(keys)[k]))) :: let j := k - off(keys) :: seq(oks)[j] ==> old(fsHas)[p] && jsonOK(fsData[p]) && expOf(fsData[p]) > old(clock) && seq(vs)[j] == jsonField(fsData[p], Data, ty(V))))
ensures [C25:mget-hit] err == nil ==> (forall k int :: { mem(keys)[k] } off(keys) <= k && k < off(keys) + len(keys) ==> (let p := cachePath(f.Dir, sprintOf(box(mem(keys)[k]))) :: let j := k - off(keys) :: old(fsHas)[p] && !ioFault && !deadText(fsData[p]) ==> seq(oks)[j]))
ensures [C25:mget-files] forall q string :: { fsHas[q] } { old(fsHas)[q] } fsHas[q] != old(fsHas)[q] ==> old(fsHas)[q] && isCache(q) && deadText(fsData[q])
ensures [C25:mget-dirs] forall q string :: { fsDir[q] } { old(fsDir)[q] } fsDir[q] <==> old(fsDir)[q]

func FileStore.Set
params f, ctx, key, value, ttl
requires f.mu == 0
ensures [C25:unlocked] f.mu == old(f.mu)
modifies FileStore.mu at f
call WriteFile assert f.mu == -1
modifies fsHas
modifies fsData
modifies fsDir
modifies clock
modifies hashFed
modifies FileStore.lastGC at f
modifies FileStore.gcStatus at f
requires f.lastGC >= 0
ensures f.lastGC >= 0
ensures clock >= old(clock)
ensures [C25:set-value] let p := cachePath(f.Dir, sprintOf(box(key))) :: result == nil ==> jsonOK(fsData[p]) && jsonField(fsData[p], Data, ty(V)) == value && (fsHas[p] || expOf(fsData[p]) <= clock)
ensures [C25:set-ttl] let p := cachePath(f.Dir, sprintOf(box(key))) :: result == nil ==> (old(clock) + int(ttl) <= expOf(fsData[p]) || expOf(fsData[p]) == 9223372036854775807) && expOf(fsData[p]) <= clock + int(ttl)
ensures [C25:set-others] let p := cachePath(f.Dir, sprintOf(box(key))) :: (forall q string :: { fsHas[q] } { old(fsHas)[q] } q != p && fsHas[q] != old(fsHas)[q] ==> old(fsHas)[q] && isCache(q) && deadText(fsData[q])) && (forall q string :: { fsData[q] } { old(fsData)[q] } q != p ==> fsData[q] == old(fsData)[q])
ensures [C25:set-dirs] forall q string :: { fsDir[q] } { old(fsDir)[q] } old(fsDir)[q] ==> fsDir[q]

func FileStore.MSet
params f, ctx, kvs, ttl
requires f.mu == 0
ensures [C25:unlocked] f.mu == old(f.mu)
modifies FileStore.mu at f
modifies fsHas
modifies fsData
modifies fsDir
modifies clock
modifies hashFed
modifies FileStore.lastGC at f
modifies FileStore.gcStatus at f
requires f.lastGC >= 0
ensures f.lastGC >= 0
loop 1
invariant f.mu == old(f.mu)
invariant f.lastGC >= 0 && clock >= old(clock) && (errs == nil || fresh(errs)) && (forall k int :: { mem(errs)[k] } off(errs) <= k && k < off(errs) + len(errs) ==> mem(errs)[k] != nil)
invariant (forall a K, b K :: { dom(kvs)[a], dom(kvs)[b] } a in kvs && b in kvs && a != b ==> cachePath(f.Dir, sprintOf(box(a))) != cachePath(f.Dir, sprintOf(box(b)))) ==> (forall k K :: { $vis[k] } $vis[k] ==> (let p := cachePath(f.Dir, sprintOf(box(k))) :: len(errs) == 0 ==> jsonOK(fsData[p]) && jsonField(fsData[p], Data, ty(V)) == val(kvs)[k] && (fsHas[p] || expOf(fsData[p]) <= clock) && (old(clock) + int(ttl) <= expOf(fsData[p]) || expOf(fsData[p]) == 9223372036854775807) && expOf(fsData[p]) <= clock + int(ttl)))
invariant forall q string :: { fsHas[q] } { old(fsHas)[q] } fsHas[q] != old(fsHas)[q] ==> (exists k K :: { $vis[k] } $vis[k] && k in kvs && q == cachePath(f.Dir, sprintOf(box(k)))) || old(fsHas)[q] && isCache(q) && deadText(fsData[q])
invariant forall q string :: { fsData[q] } { old(fsData)[q] } fsData[q] != old(fsData)[q] ==> (exists k K :: { $vis[k] } $vis[k] && k in kvs && q == cachePath(f.Dir, sprintOf(box(k))))
invariant forall q string :: { fsDir[q] } { old(fsDir)[q] } old(fsDir)[q] ==> fsDir[q]
ensures clock >= old(clock)
ensures [C25:mset-value] result == nil && (forall a K, b K :: { dom(kvs)[a], dom(kvs)[b] } a in kvs && b in kvs && a != b ==> cachePath(f.Dir, sprintOf(box(a))) != cachePath(f.Dir, sprintOf(box(b)))) ==> (forall k K :: { dom(kvs)[k] } k in kvs ==> (let p := cachePath(f.Dir, sprintOf(box(k))) :: jsonOK(fsData[p]) && jsonField(fsData[p], Data, ty(V)) == val(kvs)[k] && (fsHas[p] || expOf(fsData[p]) <= clock) && (old(clock) + int(ttl) <= expOf(fsData[p]) || expOf(fsData[p]) == 9223372036854775807) && expOf(fsData[p]) <= clock + int(ttl)))
ensures [C25:mset-others] forall q string :: { fsHas[q] } { old(fsHas)[q] } fsHas[q] != old(fsHas)[q] ==> (exists k K :: { dom(kvs)[k] } k in kvs && q == cachePath(f.Dir, sprintOf(box(k)))) || old(fsHas)[q] && isCache(q) && deadText(fsData[q])
ensures [C25:mset-data] forall q string :: { fsData[q] } { old(fsData)[q] } fsData[q] != old(fsData)[q] ==> (exists k K :: { dom(kvs)[k] } k in kvs && q == cachePath(f.Dir, sprintOf(box(k))))
ensures [C25:mset-dirs] forall q string :: { fsDir[q] } { old(fsDir)[q] } old(fsDir)[q] ==> fsDir[q]

func FileStore.Delete
params f, ctx, keys
requires f.mu == 0
ensures [C25:unlocked] f.mu == old(f.mu)
modifies FileStore.mu at f
modifies fsHas
modifies fsDir
modifies clock
modifies hashFed
modifies FileStore.lastGC at f
modifies FileStore.gcStatus at f
requires f.lastGC >= 0
ensures f.lastGC >= 0
loop 1
invariant f.mu == old(f.mu)
invariant forall k int :: { mem(keys)[k] } off(keys) <= k && k < off(keys) + $it ==> (len(errs) == 0 ==> !fsHas[cachePath(f.Dir, sprintOf(box(mem(keys)[k])))])
invariant forall q string :: { fsHas[q] } { old(fsHas)[q] } fsHas[q] != old(fsHas)[q] ==> old(fsHas)[q] && (exists k int :: off(keys) <= k && k < off(keys) + $it && q == cachePath(f.Dir, sprintOf(box(mem(keys)[k]))))
invariant f.lastGC >= 0 && clock >= old(clock) && (errs == nil || fresh(errs)) && (forall k int :: { mem(errs)[k] } off(errs) <= k && k < off(errs) + len(errs) ==> mem(errs)[k] != nil)
ensures clock >= old(clock)
ensures [C25:delete-gone] result == nil ==> (forall k int :: { mem(keys)[k] } off(keys) <= k && k < off(keys) + len(keys) ==> !fsHas[cachePath(f.Dir, sprintOf(box(mem(keys)[k])))])
ensures [C25:delete-others] forall q string :: { fsHas[q] } { old(fsHas)[q] } fsHas[q] != old(fsHas)[q] ==> old(fsHas)[q] && (isCache(q) && deadText(fsData[q]) || (exists k int :: off(keys) <= k && k < off(keys) + len(keys) && q == cachePath(f.Dir, sprintOf(box(mem(keys)[k])))))

func FileStore.Purge
params f
option nooverflow
modifies fsHas
modifies fsDir
loop 1
invariant forall q string :: { fsHas[q] } { old(fsHas)[q] } fsHas[q] != old(fsHas)[q] ==> old(fsHas)[q] && isCache(q) && isUnder(f.Dir, q)
invariant forall q string :: { fsDir[q] } { old(fsDir)[q] } fsDir[q] <==> old(fsDir)[q]
invariant forall q string :: { $vis[q] } { fsHas[q] } $vis[q] && isCache(q) && fsHas[q] ==> lastErr != nil
ensures [C25:purge-files] forall q string :: { fsHas[q] } { old(fsHas)[q] } fsHas[q] != old(fsHas)[q] ==> old(fsHas)[q] && isCache(q) && isUnder(f.Dir, q)
ensures [C25:purge-dirs] forall q string :: { fsDir[q] } { old(fsDir)[q] } fsDir[q] <==> old(fsDir)[q]
ensures [C25:purge-all] result == nil && !ioFault ==> (forall q string :: { fsHas[q] } isUnder(f.Dir, q) && isCache(q) ==> !fsHas[q])
