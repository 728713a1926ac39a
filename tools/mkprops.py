# Generates /verif/properties.jsonl (kept in git; edit here and re-run).
import json
P=[]
def p(id,title,st,over,q,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":s,"meaning":"representation state the property constrains","where":files[0]} for s in state]
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":q},"why_tests_cant":why,"anchors":a})
G="gogenerics/gcontainers/"
import os
SCH=json.load(open('/root/.vp/PROPERTIES.schema.json')) if os.path.exists('/root/.vp/PROPERTIES.schema.json') else None
S="gslice/slice.go"
p("C01","Slice queries give exactly the mathematical answer",
 "For every slice, including nil and empty ones, the slice queries return exactly their definition: an index search returns the first position that matches (or -1 when nothing does), containment is true exactly when some element matches, equality is true exactly when lengths and all elements agree position by position, and the sortedness tests are true exactly when no element is less than its predecessor. No query panics or writes to its arguments.",
 ["inputs"],"all slices of any length, element type and comparison function (deterministic, side-effect free)",
 "the tests try a handful of short literal slices; a boundary error at a length, position or duplicate pattern that is not in the table passes",
 [G+S],[("linear scans","gslice.Equal/EqualWithFunc/Index/IndexWithFunc/IsSorted/IsSortedFunc loops")])
p("C02","Slice transformations produce the specified contents without aliasing",
 "Copying, merging and de-duplicating a slice return a new slice with exactly the specified elements in the specified order (all of the input; the first followed by the second; the first occurrence of each value or key, with the number of them), and never write to the caller's backing arrays nor share storage with them. Reversing turns the slice in place into its mirror image and touches nothing outside it.",
 ["inputs"],"all slices of any length and spare capacity, any element type, any key function",
 "tests compare small literals and never look at spare capacity or at the inputs afterwards",
 [G+S],[("append/copy/dedup loops","gslice.Copy/Merge/Unique/UniqueWithFunc/Reverse")])
p("C03","Map and set helpers follow mathematical map and set semantics",
 "Map helpers treat a map as a finite function: copies hold exactly the same pairs in separate storage, key, value and entry listings contain every pair exactly once, clearing leaves it empty, building from entries lets the last entry of a key win, and two maps are equal exactly when they have the same keys with equal values. Set helpers treat a set likewise: membership, insertion, removal, listing and clearing affect exactly the named elements.",
 ["inputs","histories"],"all maps and sets of any size (nil ones included where reading), any key and value types with reflexive equality",
 "tests use one or two tiny maps; they cannot enumerate contents, sizes or iteration orders",
 [G+"gmap/map.go",G+"gset/set.go"],[("range/lookup loops","gmap.*, gset.*")])
p("C04","Extremum functions return the first extreme element",
 "For every collection the maximum and minimum functions return an element of the collection that no other element exceeds (or falls below), the caller-comparison variants return the first of several equivalent ones, and an empty collection yields the zero value. The two-argument forms return the larger or smaller argument.",
 ["inputs"],"all collections of any length, any ordered element type, any strict weak order",
 "tests use a few literals; ties, position of the extreme and order-specific slips escape them",
 ["gogenerics/gnumerics/math.go"],[("scan keeping the best so far","gnumerics.MaxCollection/MinCollection/MaxBy/MinBy")])
p("C05","Heap always pops a least element and loses nothing",
 "After construction from any data and any sequence of pushes and pops, each pop returns an element that no remaining element precedes in the heap's order. The heap always holds exactly the multiset of elements put in and not yet popped.",
 ["inputs","histories"],"all initial data, all operation histories, every strict weak order",
 "tests pop a few fixed integer sequences; a sift error that needs a particular shape or size is not met",
 [G+"gheap/heap.go"],[("array heap order","gheap.siftDown/siftUp/heapSort, Push, Pop")],["Heap.data heap-ordered: data[(i-1)/2] never greater than data[i]"])
p("C06","Linked list behaves as a sequence under every operation",
 "A list is at all times a finite sequence of elements: inserting, removing and moving an element change the sequence exactly as documented, forward and backward traversal agree, the length equals the number of elements, and appending another list (or the list itself) copies its values in order. Operations given an element of a different list change nothing.",
 ["inputs","histories"],"all lists of any length reachable through the API, all elements and marks, self-append included",
 "tests replay the standard library's fixed scenarios; link corruption needing a particular relative position is not enumerated",
 [G+"glist/list.go"],[("circular doubly linked ring with sentinel","glist insert/remove/move/lazyInit"),("batch copy","glist.PushBackList/PushFrontList, Range")],["root.next/prev, Element.list, List.len"])
p("C07","Rings keep their cyclic order through link, unlink and move",
 "A ring is a cycle whose forward and backward links are inverse; creation gives the requested number of elements, moving by n (either sign) steps n places, length and traversal visit every element exactly once in forward order. Linking two different rings splices the second after the first's element, linking within one ring cuts out the elements between, and unlinking n removes exactly n modulo the length elements.",
 ["inputs","histories"],"all rings of any size, all offsets and element pairs",
 "tests cover a few sizes from the standard library's suite",
 [G+"gring/ring.go"],[("cyclic links","gring.Link/Unlink/Move/New/Len/Do")],["Ring.next, Ring.prev"])
p("C08","Queue is first-in first-out and counts correctly",
 "Every history of pushes, pops, peeks, clears and drains returns elements in exactly the order they were pushed, each exactly once; the length always equals pushed minus popped, an empty queue answers with the empty-queue error and stays usable, and listing all elements neither removes nor reorders them.",
 ["histories","inputs"],"all operation histories and element types",
 "tests run one short history per operation",
 [G+"gqueue/fifo.go",G+"glist/list.go"],[("list-backed queue","gqueue.Push/Pop/Peek/PeekAll/Clear/Iterator/Gen")],["Queue.list, Queue.length"])
p("C09","Skip list is an ordered map",
 "After every history of insertions, value changes and deletions a lookup finds a key exactly when it was inserted and not deleted since, with its latest value; inserting an existing key replaces its value; and the search for the first key not less than a bound returns exactly that entry or reports none. The node count equals the number of distinct keys.",
 ["histories","inputs"],"all histories, all ordered key types (no NaN), every outcome of the random level choice",
 "the level choice is random: tests sample a few level configurations and key orders out of unboundedly many",
 ["gogenerics/gds/gskiplist/skiplist.go"],[("search from a start level over forward pointers","findExtended, findEntryIndex"),("splice at every level","Insert, Delete")],["SkipList.startLevels/endLevels/maxLevel/elementCount, SkipListElement.next[]/prev/level/key"])
p("C10","Skip list iteration visits the keys in order, both ways",
 "At any time the smallest and largest entries are the extreme keys, stepping forward from an entry gives the next larger key and stepping backward the next smaller one (wrapping at the ends), so a full traversal visits every entry exactly once in ascending order. This holds for every level assignment and survives deletions, including deletion of everything and re-insertion.",
 ["histories","inputs"],"all histories and all random level outcomes",
 "tests check one ascending traversal; backward links and the ends after deletion are sampled only",
 ["gogenerics/gds/gskiplist/skiplist.go"],[("bottom-level doubly linked order","Insert/Delete prev maintenance, Next/Prev/GetSmallestNode/GetLargestNode")],["SkipListElement.next[0]/prev, startLevels[0], endLevels[0]"])
p("C11","Red-black tree is an ordered map",
 "After every history of inserts, updates and deletes, lookups return the latest value of exactly the keys present, each operation reports the previous or deleted value as documented, the size is the number of distinct keys, and key, value and pair listings are complete and in ascending key order.",
 ["histories","inputs"],"all histories, every strict order on keys",
 "tests use a few insertion orders; rotation and deletion cases depend on shapes they do not reach",
 ["gogenerics/gds/grbt/rbt.go"],[("binary search tree order","insert, search, delete, transplant, rotations"),("in-order listings","keys/values/nodes")],["rbNode.left/right/parent/key, RbTree.root/sentinel/size"])
p("C12","Red-black tree stays balanced",
 "After every operation the tree satisfies the red-black rules (black root, no red node with a red child, equal black height on all paths), so its height, and with it the number of comparisons of a lookup, stays within twice the logarithm of the size.",
 ["histories","inputs"],"all histories of inserts and deletes of any size",
 "no test looks at colours or heights; a lost recolouring leaves lookups correct and merely unbalances the tree",
 ["gogenerics/gds/grbt/rbt.go"],[("recolouring and rotation","insertFix, deleteFix, leftRotate, rightRotate")],["rbNode.color"])
p("C13","Red-black tree range extraction is exact and independent",
 "Extracting the part of a tree between two keys, or to the left or right of a key, yields a new tree with exactly the pairs in that range (each bound included or excluded as asked), and filtered listing returns exactly the values whose keys satisfy the predicate; the source tree is unchanged.",
 ["inputs","histories"],"all trees, bounds (present or absent, crossing or equal) and predicates",
 "tests try one tree and a few bounds; inclusive/exclusive ends, absent bounds and empty ranges multiply",
 ["gogenerics/gds/grbt/rbt.go"],[("pruned traversal","SubTree, LeftSubTree, RightSubTree, GetIf")])
p("C14","Concurrent map has map semantics for every sequential history",
 "For every history of operations issued one after another, the concurrent map answers like an ordinary map: loads see the latest store, load-or-store, swap and load-and-delete report the previous value, compare-and-swap and compare-and-delete act exactly when the current value equals the expected one, and iteration visits every present pair exactly once until told to stop. Internal promotion and amended or deleted entries never change an answer.",
 ["histories","inputs"],"all sequential histories, including the internal promotions they trigger",
 "tests exercise a few orders; the interplay of promoted, amended and expunged entries needs particular histories",
 ["gogenerics/gconcurrent/sync/map.go"],[("read-only map plus dirty map","Load/Store/LoadOrStore/LoadAndDelete/Swap/CompareAndSwap/CompareAndDelete/Range"),("promotion and expunging","missLocked, dirtyLocked, tryExpungeLocked, unexpungeLocked")],["Map.read, Map.dirty, Map.misses, entry.p"])
p("C15","Concurrent map operations are linearizable",
 "When goroutines use the concurrent map at the same time, every operation appears to take effect at one instant between its call and return.",
 ["schedules","histories"],"all interleavings of any number of goroutines",
 "a test run observes a handful of schedules",
 ["gogenerics/gconcurrent/sync/map.go"],[("atomic pointers plus mutex","read/dirty/entry protocols")])
p("C16","Parallel map-reduce maps every item once and reports failures",
 "Unless the run is cancelled or a function panics, the mapper is called exactly once for every generated item, never more than the chosen number of mappers run at a time, every value a mapper writes is handed to the reducer once, and the reducer's input ends only after every mapper has ended. The call returns what the reducer wrote, or the error of the first cancellation that came before the result (DeadlineExceeded when the context ends), or ErrReduceNoOutput when nothing was written; a panic of the generator, a mapper or the reducer comes out of the call as a panic unless an error is returned. Unless it was cancelled, no mapper or reducer outlives the call, nor the generator unless a mapper panicked; the caller never waits forever when they all end.",
 ["schedules","inputs","fault_sequences"],"all interleavings, worker counts, failures, panics and cancellations",
 "tests observe a few schedules; there is no test of this package",
 ["gogenerics/gconcurrent/mr/mr.go"],[("worker pool","executeMappers: pool channel, wait group, failed flag"),("result, cancellation and panics","mapReduceWithPanicChan: once, retErr, done, output; onceChan.write"),("writers","guardedWriter.Write"),("front ends","MapReduce, MapReduceChan, MapReduceVoid, ForEach, Finish, FinishVoid, buildSource, buildOptions")],["mapperContext","onceChan.wrote"])
p("C17","Bit set reads and writes exactly the addressed bit",
 "Setting a bit changes that bit only, growing with zero bits when needed, and returns its previous value; getting returns the current bit, false beyond the end; negative offsets count from the end and offsets left of the start are refused without change. Iteration reports every bit in order until told to stop, the size is eight times the byte length, and construction from bytes or hex gives those bits.",
 ["inputs","histories"],"all byte contents, all offsets of either sign, all histories",
 "tests probe a few offsets of one pattern",
 ["library/bitset/bitset.go"],[("bit addressing","Set, Get, getBit, Range, Size")],["BitSet.set"])
p("C18","Bit set range operations count and extract exactly the range",
 "For all start and end positions (negative ones counting from the end, clamped to the set) counting returns the number of one bits in the inclusive range and extracting returns a set whose leading bits are the bits of the range in order, padded with zeros to whole bytes, and empty ranges give zero and an empty set. Neither panics nor modifies the source.",
 ["inputs"],"all contents and all start/end pairs",
 "tests use a few ranges spanning several bytes; alignment cases (same byte, byte-aligned, full width) are not enumerated",
 ["library/bitset/bitset.go"],[("range normalisation and shifting","validRange, Count, Sub")])
p("C19","Bit set algebra and encodings are exact",
 "The and, or, xor and and-not of bit sets equal the bitwise operation with shorter operands extended by zeros, complement flips every bit, and clearing zeroes every bit; operands are left unchanged and results are fresh. The byte export is a copy of the contents, and the hexadecimal and binary texts spell exactly the bits.",
 ["inputs"],"all contents, operand counts and length combinations, any separator",
 "tests combine a few fixed sets",
 ["library/bitset/bitset.go"],[("byte-wise loops","Not, And, op, Clear, Bytes, String, Binary")])
p("C20","LRU cache keeps the most recently used keys, up to its capacity",
 "The cache never holds more entries than its capacity; when full it discards exactly the least recently used entries (reads that hit and writes both count as use). A lookup returns the latest value written for the key unless it was deleted, evicted, expired or used up, and never a value of another key.",
 ["histories","inputs"],"all histories of single and batch reads, writes and deletes, all capacities",
 "tests check one eviction; recency order depends on the whole history",
 ["library/cachex/lrucache.go"],[("map plus recency list kept in step","getOne, doSet, Delete, MSet")],["LRUCacheV2.lruMap, lruList, caption"])
p("C21","LRU entries expire by time and by use count",
 "A lookup after an entry's expiry time misses, and one that has been read the configured maximum number of times since it was written misses afterwards (no limit when zero); rewriting a key restarts both its lifetime and its count. Expired or used-up entries are removed completely when they are met.",
 ["histories","inputs"],"all histories, limits and lifetimes, for every advance of the clock",
 "tests cannot advance time systematically; they sleep once or not at all",
 ["library/cachex/lrucache.go"],[("age and expiry test before a hit","getOne; reset in doSet")],["item2.usedCount, item2.expireTime"])
p("C22","Shared state of caches and bit sets is only touched under its lock",
 "Every public operation of the LRU cache and of the bit set reads and writes the shared contents only while holding the object's lock (exclusively when writing), in one critical section, and releases it on every path; so concurrent use is free of data races and every operation takes effect atomically.",
 ["schedules","inputs"],"all interleavings of any operations (by mutual exclusion), all paths through each operation",
 "the race detector only sees races on schedules and paths that a test happens to run; the tests are sequential",
 ["library/cachex/lrucache.go","library/bitset/bitset.go"],[("mutex around every access","LRUCacheV2 methods, BitSet methods")],["LRUCacheV2.lruMap/lruList and entries under mux, BitSet.set under mu"])
p("C23","Cache chain queries in order and writes back with each level's lifetime",
 "A chain lookup asks its levels in order and stops at the first hit, whose value it returns after storing it, with each level's own lifetime, into exactly the levels asked before; errors stop the search unless configured to continue. Writes and deletes go to every level in order even if some fail, and fail if and only if some level failed.",
 ["inputs","fault_sequences","configurations"],"all numbers of levels, hit/miss/error patterns and option settings",
 "tests use one or two levels without failures",
 ["library/cachex/cache.go"],[("loop over levels","Chain.Get/setForGet/Set/MSet/Delete")])
p("C24","Batch lookups are positionally aligned with the requested keys",
 "Every batch lookup returns results of the same length as the keys, where position i tells whether key i was found and with which value, also when keys repeat; the chain asks a deeper level only for keys still missing and stores found pairs in the levels above. The result views list hits and misses exactly, in request order.",
 ["inputs","fault_sequences"],"all key lists including repeats, all hit patterns per level",
 "tests use distinct keys and one hit pattern",
 ["library/cachex/cache.go","library/cachex/lrucache.go"],[("index bookkeeping","Chain.MGet, keysNotFound, msetForMGet; LRUCacheV2.MGet; NoCache.MGet; MGetResult views")])
p("C25","File cache returns what was stored and only deletes its own files",
 "A file-cache lookup returns exactly the value last stored under that key within its lifetime and misses after deletion, expiry or purge; different keys do not disturb each other. Purging and background cleaning remove only cache files and never other files in the directory.",
 ["histories","inputs"],"all keys with distinct text forms, all values that survive JSON encoding, all histories",
 "tests store a few keys; expiry, collisions, cleaning and foreign files are not exercised",
 ["library/cachex/file.go"],[("hashed path per key","getFilePath"),("JSON record with expiry","Set, readFile, Alive"),("directory walk","scanExpire, Purge")])
p("C26","AES helpers decrypt what they encrypt",
 "For every key of legal length, every plaintext and every mode and text encoding, decrypting the result of encrypting returns the plaintext. Encryption and decryption never modify the memory of their arguments, including spare capacity.",
 ["inputs"],"all plaintext lengths and contents, all three modes, both encodings",
 "tests use a few plaintexts; block-boundary lengths and caller memory are not examined",
 ["library/cryptox/cryptox.go"],[("pad, encrypt per block, encode","AESEncrypt/AESCBCEncrypt/AESCTREncrypt and the matching decrypts")])
p("C27","Malformed ciphertext is rejected with an error, never a panic",
 "Decrypting any byte string whatsoever returns either an error or a plaintext and never panics; input that is not a whole number of blocks, too short, wrongly encoded, or whose padding is not between one and block-size equal bytes is an error. Plaintext is only returned when the padding was valid.",
 ["inputs"],"all byte strings and keys",
 "tests decrypt only valid input",
 ["library/cryptox/cryptox.go"],[("length and padding checks","AESDecrypt, AESCBCDecrypt, AESCTRDecrypt, pkcs5Unpadding")])
p("C28","Digest helpers return the digest of exactly the input",
 "The digest helpers return the lower-case hexadecimal text of the named digest of exactly the given bytes, and the FNV helpers the named hash of exactly the given bytes.",
 ["inputs"],"all byte strings",
 "tests check one vector each",
 ["library/cryptox/cryptox.go"],[("thin wrappers","Md5, Sha1, Sha256, Sha512, Fnv1aToUint64, Fnv1aToUint32")])
p("C29","Password check accepts exactly the required character classes",
 "A password is accepted exactly when its length is within the bounds, it contains only digits, letters and printable symbols, and the classes present are exactly those the flag asks for (upper and lower case told apart only when the flag does).",
 ["inputs"],"all strings, all flag values, all length bounds",
 "tests try a table of strings; class boundaries and flag combinations are many",
 ["library/password/password.go"],[("class accumulation","CheckPassword")])
p("C30","Random numbers always lie in the requested range",
 "Every bounded generator returns a value from zero up to but excluding its bound for every bound and every value of the underlying source, the signed generators never return a negative number, and a non-positive bound panics where documented.",
 ["inputs"],"all bounds and all source outputs",
 "the source is random: tests sample a vanishing part of it; the failing multiplication or masking case may have probability 2^-32",
 ["hack/fastrand/fastrand.go"],[("mask, modulo or multiply-shift reduction","Int63n, Int31n, Intn, Uint32n, Uint64n, Uintn, Int, Int31, Int63")])
p("C31","Shuffles and permutations keep every element",
 "A generated permutation of n contains each of 0..n-1 exactly once, and shuffling only exchanges pairs of positions inside the range, so the result holds exactly the original elements; this is so for every n and every random outcome, and a negative n panics.",
 ["inputs"],"all lengths and all random outcomes",
 "tests look at a few random outcomes",
 ["hack/fastrand/fastrand.go",G+S],[("Fisher-Yates","fastrand.Perm, fastrand.Shuffle, gslice.Shuffle")])
p("C32","JSON string encoding is valid and lossless",
 "Encoding any string produces a valid JSON string literal that decodes to the same text (invalid bytes become the replacement character), with control characters, quotes, backslashes and the line separators U+2028 and U+2029 escaped; when HTML escaping is requested no raw angle bracket or ampersand remains.",
 ["inputs"],"all byte strings, both escape settings",
 "tests encode a few strings; the escape tables have 128 entries and multi-byte cases",
 ["library/stringx/stringx.go"],[("escape scan with safe tables","StringMarshalJSON, safeSet, htmlSafeSet")])
p("C33","String case conversions transform exactly the intended characters",
 "Snake conversion inserts one underscore before each ASCII upper-case letter when some character other than an underscore came since the previous upper-case letter, lower-cases the text, and changes nothing else; camel conversion drops each underscore that comes after a letter and before a lower-case one, upper-cases the first letter and each letter after a dropped underscore, and changes nothing else. Both never panic and never modify the input.",
 ["inputs"],"all strings",
 "tests use a table of identifiers",
 ["library/stringx/stringx.go"],[("one-pass state machines","SnakeString, CamelString")])
p("C34","Text clean-up helpers never panic and touch only their targets",
 "Indenting puts the prefix at the start of every line (not after a final line break) and changes nothing else; initialism-aware camel conversion, entity and code-point decoding and space folding terminate, never panic and leave text without their targets unchanged; entity and code-point decoding replace a reference by the character its number in the given base stands for.",
 ["inputs"],"all strings",
 "tests use a few strings",
 ["library/stringx/stringx.go"],[("standard-library replacers and regexps","Indent, LintCamelString, HTMLEntityToUTF8, CodePointToUTF8, SpaceInOne")])
p("C35","Basic generic values round-trip",
 "Packing a pair and unpacking it returns both components, a pointer made from a value reads back that value, a nil pointer reads as the zero value, and a value is empty exactly when it equals its type's zero value. The error holder returns the most recently set non-nil error (none if there was none) and setting never panics, whatever the concrete error types.",
 ["inputs","histories"],"all values and types, all sequences of errors",
 "tests use one or two types; mixing error types is never tried",
 ["gogenerics/gconstraints/type.go","gogenerics/gconstraints/errors.go"],[("wrappers","Pack/Unpack, ToPtr/ToValue, IsEmpty/IsNotEmpty, AtomicError.Set/Load")])
p("C36","Pools hand out only values they were given or made",
 "A pool's Get returns either a value put into that pool and not handed out since, or a new value from its constructor; an array pool's new slices are empty with the requested capacity.",
 ["histories"],"all histories of gets and puts",
 "tests get and put a few values",
 [G+"gpool/syncpool.go"],[("wrapper over the standard pool","Pool.Get/Put, ArrayPool.Get/Put, New, NewArrayPool")])
p("C37","Byte/string conversions without copying keep the bytes",
 "Converting a string to a byte slice or back yields the same length and the same bytes, for empty inputs too.",
 ["inputs"],"all strings and byte slices",
 "tests convert a couple of strings",
 ["hack/unsafex/str20.go"],[("unsafe reinterpretation","StringToSlice, SliceToString")])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
if SCH:
    try:
        import jsonschema
        for x in P: jsonschema.validate(x,SCH)
    except ImportError: pass
for x in P:
    assert len(x["title"])<=80,x["title"]
    assert x["statement"].count(". ")<=2,(x["id"])
print(len(P))
