#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script only so the long JSON lines stay reviewable)."""
import json, os
T="collections/src/main/templates/com/bytefacets/collections/"
J="collections/src/main/java/com/bytefacets/collections/"
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
IDX=T+"hash/BaseKeyIndex.ftl"; BH=J+"hash/BaseHash.java"; MAP=T+"hash/KeyValueIndexedMap.ftl"; SET=T+"hash/KeyIndexedSet.ftl"
CHST=[("heads/nexts","bucket heads and per-entry chain links; a negative link ends a chain and encodes its bucket",BH),("freeList/nextUnusedEntry","stack of freed entries, and the first entry never handed out",BH),("keys","key stored at each entry",IDX)]
HW="The tests run a few short fixed scripts (about ten keys, default load factor, non-colliding hashes) per type; the claim quantifies over every operation history, every capacity and load factor, and every colliding hash function."
p("H01","Indexed sets and maps hold exactly the keys added and not since removed",
 "After any history of operations, an indexed set or map contains a key (by containsKey, lookupEntry, size and isEmpty) exactly when it was added or put and not since removed by key, by entry, by reservation, or by clear. Adding a key already present changes nothing and returns its existing entry; removing an absent key or a not-live entry changes nothing, and removing or looking up an absent key returns -1. This holds for any initial capacity, any load factor in (0,1] and any hash function that agrees with the equality in use.",
 ["inputs","histories","configurations"],"all histories of add/put/remove/removeAt/removeAtAndReserve/freeReservedEntry (on reserved entries)/clear, all capacities, load factors, and equality/hash functions consistent with each other",HW,
 [IDX,BH,MAP,SET],[("chain search before insert; unlink on remove; rebuild on resize",IDX),("clear",BH)],CHST,["containsKey","lookupEntry","size","add","put","remove"])
p("H02","An entry identifies its key stably for as long as the key stays",
 "The entry returned when a key is added is a non-negative index that keeps designating that key (getKeyAt of the entry is the key, lookupEntry of the key is the entry) until that key is removed, however many other keys are added or removed and however often the collection resizes. Two keys present at the same time never share an entry.",
 ["inputs","histories","configurations"],"all histories, all capacities and load factors; in particular every history that crosses a resize",HW,
 [IDX,BH],[("entries are never renumbered by rehash",IDX),("distinct allocation from free list or next unused entry",IDX)],CHST,["getKeyAt","lookupEntry","add"])
p("H03","Freed entries are reused before new ones; reserved entries are withheld",
 "Entries are handed out from 0 upwards without gaps: a new key gets a previously freed entry whenever one is available, and otherwise the lowest entry never handed out since construction or the last clear. An entry removed with reservation is never handed out again until it is explicitly freed, and then it becomes available again.",
 ["inputs","histories","configurations"],"all histories mixing removal, reservation, freeing, clearing and resizing",HW+" A lost or doubly-linked free entry only shows after a specific interleaving of removals and resizes.",
 [IDX,BH],[("free list",IDX),("rehash keeps unlinked entries",IDX)],CHST,["add","removeAt","removeAtAndReserve","freeReservedEntry"])
p("H04","A map returns the last value put for each key and never another key's",
 "For every present key, get, getOrDefault and getValueAt of its entry return the value most recently put for that key or at its entry, or the value type's default when the key was only added; operations on other keys and resizing never change it. get of an absent key throws KeyNotFoundException and getOrDefault returns the supplied default, in both cases without changing the map.",
 ["inputs","histories","configurations"],"all histories of map operations, all key/value type pairs",HW,
 [MAP,IDX],[("values array indexed by entry, grown with the keys",MAP),("value reset when an entry is freed or newly assigned",MAP)],[("values","value stored at each entry",MAP)],["get","getOrDefault","getValueAt","put","putValueAt","add"])
p("H05","Iterating a set or map visits every live entry exactly once",
 "forEach, forEachEntry, forEachValue and the entry iterator each visit every live entry (its key, entry or value) exactly once and nothing else, even when the callback removes the entry being visited.",
 ["inputs","histories","configurations"],"all reachable states (any chain shape, any holes left by removals), callbacks that observe or remove the visited entry","Tests iterate a handful of states with almost no collisions and never remove from a callback.",
 [BH,IDX,MAP],[("early stop after size visits",BH),("next link read before the callback",BH),("bucket walk of the iterator",BH)],CHST,["forEach","forEachEntry","forEachValue","iterator().next"])
p("H06","Entry iterators remove what they visited and fail fast on outside changes",
 "Removing through an entry iterator removes exactly the entry last returned, leaves every other key, entry and value unchanged, makes the entry reusable, and iteration still visits every remaining entry exactly once; a second remove without next is rejected. If the collection has been structurally changed (a key added or removed, or cleared while non-empty) other than through this iterator since its last reset, next and remove throw ConcurrentModificationException and change nothing.",
 ["inputs","histories"],"all interleavings of iterator steps, iterator removals and outside modifications (fewer than 2^32 of them)","No test calls the iterator's remove or modifies the collection under an iterator.",
 [BH,IDX],[("modification count compared with the iterator's copy",BH),("unlink via tracked predecessor",BH)],CHST+[("modificationCount","bumped by every structural change",BH)],["iterator().next","iterator().remove"])
p("H07","copyFrom yields an equal, independent collection",
 "After copying from a source of any size into a target with any prior contents and capacity, the target contains exactly the source's keys at the same entries with the same values, has nothing left of its old contents, and answers and evolves as the source would, including under the source's hash and equality methods. The source is unchanged and later changes to either do not affect the other.",
 ["inputs","histories","configurations"],"all pairs of source and target histories, capacities, load factors, and hash/equality methods","Two fixed copies into empty targets are tested.",
 [BH,IDX,MAP],[("array-by-array copy with remainder reset",BH),("keys and capacity",IDX),("values",MAP)],CHST,["copyFrom"])
p("H08","Built-in key hashing agrees with built-in key equality",
 "For every key type the default equality is the intended one (primitive ==, or equals with null only equal to null), and any two keys that are equal under it always select the same bucket at every table size, so a key can always be found through any equal key, including null, 0.0 and -0.0.",
 ["inputs"],"all pairs of keys of each primitive type (complete domain), all object keys obeying the equals/hashCode contract, all table sizes","Tests use small positive keys; the claim is about all 2^64 doubles and longs and about null.",
 [J+"types/"+t+"Type.java" for t in("Bool","Byte","Short","Char","Int","Long","Float","Double","String","Generic")]+[IDX],[("EqImpl / HashImpl",J+"types"),("sign bit masked before the bucket mask",IDX)],None,["XType.EqImpl","XType.HashImpl","lookupEntry"])
HP=T+"heap/BaseKeyHeap.ftl"; HB=J+"heap/BaseHeap.java"; HM=T+"heap/KeyValueHeap.ftl"
HST=[("tree","entry at each heap position; positions from size upwards hold the free entries",HB),("inverse","position of each entry",HB),("keys","key at each entry",HP)]
HHW="Tests insert ten keys in one fixed order; the claim is over every history, key multiset, and comparator."
p("K01","The heap's peek is always an entry with a least key",
 "After any history of inserts, removals of arbitrary live entries, key resets, comparator changes and clears, peek returns a live entry whose key no other live key precedes under the comparator in force, and throws when the heap is empty; so repeatedly removing the peeked entry yields the keys in comparator order. This holds for any comparator that is a consistent total preorder, including with many equal keys, for initial capacities from 1 to 2^29 and keys reset only on live entries.",
 ["inputs","histories","configurations"],"all histories, all keys, all total-preorder comparators, all initial capacities >= 1",HHW,
 [HP,HB],[("sift up and sift down",HP),("rebuild on comparator change",HP)],HST,["peek","insert","removeAt","resetKey","setComparator"])
p("K02","Heap entries keep their key and value, and bad removals are rejected",
 "An entry returned by insert designates the inserted key and value (getKeyAt, getValueAt) until it is removed, whatever else is inserted, removed, reset or grown; live entries are distinct and freed entries are reused before new ones. Removing an entry removes exactly that one; removing an entry that is out of range or not live (already removed, or never handed out) throws and changes nothing.",
 ["inputs","histories","configurations"],"all histories and all int arguments to removeAt",HHW+" Removal of never-allocated entries is tried only on an empty heap.",
 [HP,HM,HB],[("tree/inverse permutation with free entries parked after size",HP),("liveness test in removeAt",HP)],HST,["insert","removeAt","getKeyAt","getValueAt","getSize"])
p("K03","Heap enumeration and lookup report exactly the live entries",
 "isValidEntry is true for exactly the live entries, forEachEntry passes each live entry exactly once and nothing else, and containsKey and getFirstEntry find a live entry with an equal key (one that compares equal to it under the comparator in force) exactly when there is one (-1 otherwise).",
 ["inputs","histories"],"all reachable heap states, including those with freed and never-used entries","forEachEntry and isValidEntry are not tested at all.",
 [HB,HP],[("isValidEntry / forEachEntry",HB),("getFirstEntry scan",HP)],HST,["isValidEntry","forEachEntry","getFirstEntry","containsKey"])
p("K04","Clearing or freeing heap entries restores the default key and value",
 "After clear the heap is empty, every entry reads as the default key and default value, and the heap then behaves as newly constructed with the same comparator and defaults; likewise a removed entry reads as the defaults, and an entry inserted without a value has the default value. Defaults can be changed only while the heap is empty. (Values are set only on live entries; 0.0 and -0.0 count as the same default.)",
 ["inputs","histories"],"all histories before the clear, in particular those leaving live entries above the current size",HHW,
 [HP,HM],[("clear / clearValues / clearValueAt",HP),("setDefaultKey / setDefaultValue",HM)],HST,["clear","getKeyAt","getValueAt","insert"])
DQ=T+"queue/KeyDeque.ftl"; HY=T+"queue/KeyHydraDeque.ftl"
p("Q01","The deque is a double-ended sequence for every history",
 "A deque behaves as a mathematical sequence under addFirst, addLast, removeFirst, removeLast, peekFirst, peekLast, forEach (head to tail), size, isEmpty and clear, for any initial capacity >= 1 and through any number of growths and wrap-arounds. Removing or peeking on an empty deque throws NoSuchElementException and changes nothing.",
 ["inputs","histories","configurations"],"all histories, all initial capacities, all wrap positions at growth","One test per type: add, drain, add, removeFirst; addFirst, removeLast, peek, forEach are never called.",
 [DQ,J+"NumUtils.java",J+"CapacityCalculator.java"],[("circular buffer with power-of-two growth",DQ)],[("values/head/tail/size","circular window",DQ)],["addFirst","addLast","removeFirst","removeLast","peekFirst","peekLast","forEach"])
p("Q02","Each list of a multi-headed deque is its own independent sequence",
 "For every list id from 0 on the hydra deque behaves as an independent double-ended sequence under addFirst, addLast, removeFirst and removeLast; size(list) is that sequence's length (0 for unknown ids) and size() the total. The forward and reverse iterators enumerate exactly that sequence in order, operations on one list never affect another, and removing from an empty or unknown list throws NoSuchElementException and changes nothing.",
 ["inputs","histories","configurations"],"all interleavings of operations over any number of lists, across growth of lists and entries","Tests never mix removals and insertions on several lists; recycled entries are tested for one list only.",
 [HY],[("doubly linked lists in shared arrays with a free list",HY)],[("heads/tails/nexts/prevs/count","list structure",HY),("freeList/maxEntry","recycled and next fresh entry",HY)],["addFirst","addLast","removeFirst","removeLast","iterator","reverseIterator","size"])
p("Q03","Hydra deque entries are compact, unique while live, and reused",
 "Every add returns an entry that no other live element in any list holds; it is a freed entry whenever one is available and otherwise the lowest entry never handed out since construction or the last clear. So storage never grows beyond the largest number of elements held at once.",
 ["inputs","histories"],"all histories including clear followed by reuse","Reuse is tested for four elements of one list and never after clear.",
 [HY],[("free list encoded in nexts",HY),("clear",HY)],[("freeList/maxEntry","recycled and next fresh entry",HY)],["addFirst","addLast"])
O2M=J+"bi/CompactOneToMany.java"; M2M=J+"bi/CompactManyToMany.java"; SIDE=J+"bi/Side.java"
p("B01","Relation collections hold exactly the associations put and not removed",
 "After any history of put, remove, removeAt, removeAtAndReserve and freeReservedEntry on non-negative keys (the right key of the one-to-many collection may be any int), contains, lookupEntry and size report exactly the (left, right) pairs put and not since removed, and getLeftAt/getRightAt of an association's entry return its pair. put of a known pair returns its existing entry and changes nothing; remove of an unknown pair returns -1 and changes nothing.",
 ["inputs","histories","configurations"],"all histories, all initial capacities, with and without counts; entries passed to removeAt/reserve are live","Tests use up to 100 puts then five removals on one left key.",
 [O2M,M2M,J+"types/Pack.java"],[("packed pair as key of an indexed set",O2M)],[("mappings","set of packed pairs",O2M)],["put","remove","removeAt","contains","lookupEntry","size"])
p("B02","Each side of a relation enumerates exactly its associations",
 "For every left key (and, in the many-to-many collection, every right key) iterating values or entries by forEach or iterator visits exactly the associations of that key, each once, and count (when enabled) is their number; a key with no associations, whether or not ever seen, enumerates nothing and counts 0. This holds after any history of puts and removals on any keys.",
 ["inputs","histories","configurations"],"all histories over any number of keys on either side, all initial capacities, counts on or off","Only a single hot key is iterated after removals; keys or entries beyond the initial capacities are never iterated or removed.",
 [SIDE,J+"bi/Mapping.java",O2M,M2M],[("per-key doubly linked lists over entries",SIDE),("growth of the link arrays",SIDE)],[("heads/nexts/prevs/count","per-key lists",SIDE)],["withLeft","withRight","count","forEachValue","forEachEntry","entryIterator","valueIterator"])
SO=T+"sort/KeyValueCompanionSort.ftl"
p("S01","Companion sort orders the requested range of the primary array",
 "After sort(primary, secondary, offset, length, comparator) with a valid range and a comparator that is a consistent total preorder, the primary array's range is in non-decreasing comparator order, for every length and arrangement of equal keys, and the call terminates.",
 ["inputs"],"all arrays, ranges, and total-preorder comparators","Tests sort a few random arrays; partition boundary cases of the quicksort depend on key patterns and length thresholds (7, 40).",
 [SO],[("insertion sort below 7, median-of-3/9 three-way quicksort above",SO)],None,["sort"])
p("S02","Companion sort permutes both arrays in lockstep and touches nothing else",
 "The sort applies one and the same permutation of the requested range to the primary and the secondary array, so every (primary, secondary) pair survives exactly as often as before, and elements outside the range are unchanged. An invalid range is rejected with IllegalArgumentException leaving both arrays unchanged.",
 ["inputs"],"all arrays, ranges and comparators (for the permutation, even inconsistent ones that return)","Tests check a few arrays, with the range mostly covering the whole array.",
 [SO],[("every write is a swap applied to both arrays",SO)],None,["sort"])
p("T01","A chunked store reads back what was last written at each index",
 "For any initial size, any chunk size >= 1 (power of two or not) and any history of sets at non-negative indexes (with index + chunk size inside the int range), get returns the value most recently set at that index, or the type's default if it was never set, including beyond the current capacity; a set never changes the value at any other index and growing preserves all values.",
 ["inputs","histories","configurations"],"all initial sizes, chunk sizes, indexes and set/get histories","Only one configuration (chunk size 4) with three round trips is tested.",
 [T+"store/KeyChunkStore.ftl",J+"NumUtils.java"],[("index split into chunk and offset by shift and mask",T+"store/KeyChunkStore.ftl"),("growth reuses chunks",T+"store/KeyChunkStore.ftl")],[("chunks","blocks of chunkSize values",T+"store/KeyChunkStore.ftl")],["get","set"])
p("T02","A chunked matrix store keeps every (row, field) cell independent",
 "For any initial size >= 1, chunk size >= 2 and number of fields >= 1 (rows * fields inside the int range), and any history of sets at valid cells, get returns the value last set at that (row, field), or the type's default if it was never set, including beyond the current capacity; a set changes no other cell and growing preserves all values. A field outside [0, fields) is rejected with RangeCheckException without effect.",
 ["inputs","histories","configurations"],"all configurations, rows, fields and histories (row*fields within int range)","Only one configuration (chunk size 16, 3 fields) is tested.",
 [T+"store/KeyChunkMatrixStore.ftl",J+"NumUtils.java",J+"exception/RangeCheckException.java"],[("row-major index split by shift and mask",T+"store/KeyChunkMatrixStore.ftl")],[("chunks","blocks of chunkSize values",T+"store/KeyChunkMatrixStore.ftl")],["get","set","getCapacity"])
p("V01","A vector holds the appended values in order",
 "After any history of append, ensureSize and clear on a vector of any initial capacity >= 1, size is the number of values appended since the last clear, valueAt(i) for i below size is the i-th of them, and forEach passes exactly those values in order.",
 ["inputs","histories","configurations"],"all histories and initial capacities","The vector has no tests at all.",
 [T+"vector/KeyVector.ftl",T+"arrays/KeyArray.ftl"],[("append with amortised growth",T+"vector/KeyVector.ftl")],[("values/size/nextPos","contents",T+"vector/KeyVector.ftl")],["append","valueAt","forEach","size","clear","ensureSize"])
p("A01","Array growth and fill helpers preserve contents and fill the rest",
 "The array helpers return arrays of the requested (or, for ensureSize/ensureEntry, sufficient) length whose common prefix equals the source and whose new elements are the given initial value (the type default if none; 0.0 and -0.0 count as the same value); ensureSize/ensureEntry return the same array when it already suffices, fill writes exactly its range, sources are never modified, and every call terminates.",
 ["inputs"],"all arrays, sizes, offsets and values, including growth from length 0 and requests above 2^30","Tests use arrays of at most a few dozen elements.",
 [T+"arrays/KeyArray.ftl"],[("doubling growth",T+"arrays/KeyArray.ftl"),("copy and fill",T+"arrays/KeyArray.ftl")],None,["create","resize","copyOf","fill","ensureSize","ensureEntry"])
TY=[J+"types/"+t+"Type.java" for t in("Bool","Byte","Char","Short","Int","Long","Float","Double")]
p("C01","Byte-array codecs round-trip every value in the stated byte order",
 "For every type with writeLE/writeBE/readLE/readBE, writing any value at any position that fits stores exactly its big- or little-endian bytes in exactly its width, returns the position after it, and changes no other byte; reading it back returns the same value (bit for bit for float and double). readLE and readBE decode any bytes according to that order.",
 ["inputs"],"all values of each type (complete domain), all arrays and positions, all bytes","Tests try at most six values per type at one position.",
 TY,[("shift-and-mask byte access",J+"types")],None,["writeLE","writeBE","readLE","readBE"])
p("C02","Packing and unpacking are inverse for all operands",
 "Packing two ints into a long, two shorts into an int, two bytes into a short or four bytes into an int keeps every operand: each unpack returns exactly the corresponding operand for every combination, including negative ones, and distinct operands give distinct packed values.",
 ["inputs"],"all 2^64 operand combinations","Tests try a few dozen combinations.",
 [J+"types/Pack.java"],[("shift and mask",J+"types/Pack.java")],None,["packToLong","packToInt","packToShort","unpack*"])
p("C03","Built-in comparators are total orders matching their declared order",
 "For every type and compare method the comparator is antisymmetric, transitive and total over all values of the type, including extreme values, NaN, and null (which sorts after every other value when ascending); ascending comparators on numbers agree with numeric order, absolute ones with the order of magnitudes, and descending ones are the reverse of ascending. (Which of the two booleans comes first is not promised.)",
 ["inputs"],"all values of each primitive type (complete domain); all nullable strings/comparables with a lawful compareTo","Tests sort four small values per method.",
 [J+"types/"+t+"Type.java" for t in("Bool","Byte","Short","Char","Int","Long","Float","Double","String","Generic")],[("Asc/Desc/AbsAsc/AbsDesc and comparatorFor",J+"types")],None,["XType.comparatorFor(m).compare"])
p("C04","Predicates and bit-flag helpers mean what their names say for all operands",
 "For every type, predicateFor(EQ/NEQ/LT/LTE/GT/GTE) evaluates exactly that relation on all operands (for strings, by the ascending order with null last; the generic type offers EQ and NEQ only), and enableBits/disableBits set or clear exactly the given bits.",
 ["inputs"],"all operand pairs of each type (complete domain)","Tests try the operands 0 and 1.",
 [J+"types/"+t+"Type.java" for t in("Bool","Byte","Short","Char","Int","Long","Float","Double","String","Generic")],[("IS_* constants and predicateFor",J+"types"),("enableBits/disableBits",J+"types")],None,["XType.predicateFor(m).test","enableBits","disableBits"])
p("C05","Date and time integers convert back to the same date and time",
 "For every date with year 0 to 9999 the int form is yyyyMMdd and converting it back gives the same date; for every time of day the int form is HHmmss and converting back gives the same time to the second. The sql/util date form agrees with the local date form of the same calendar day.",
 ["inputs"],"all dates in years 0-9999 and all times of day","One date and one time are tested.",
 [J+"types/IntType.java"],[("decimal packing and unpacking",J+"types/IntType.java")],None,["fromLocalDate","toLocalDate","fromLocalTime","toLocalTime","fromSqlDate"])
p("C06","Value conversion is total on the supported kinds and preserves the value",
 "convert and unbox of null give the type's default; convert of a number gives that number narrowed to the type as a Java cast does, of a boolean gives 1/0 (t/f for chars, itself for booleans), of a string gives the parsed value, and any other object is rejected with IllegalArgumentException. box then unbox, and castToInt/castToX where the value fits, return the value unchanged.",
 ["inputs"],"all values of each boxed kind","Tests convert the number 5 and the string 123.",
 [J+"types/"+t+"Type.java" for t in("Bool","Byte","Short","Char","Int","Long","Float","Double","String","Generic")],[("convert/unbox/box/castTo*",J+"types")],None,["convert","unbox","box","castToInt"])
p("N01","Capacity arithmetic: least power of two, and doubling that never overflows",
 "nextPowerOf2 returns the least power of two not below its argument for every argument from 1 to 2^30. Computing a new capacity from any power of two below the maximum returns twice the capacity, at the maximum returns the maximum while the threshold is below it, and otherwise throws ResizeException; the result never overflows or shrinks.",
 ["inputs"],"all int arguments (complete domain)","Eight sample arguments are tested; the calculator has no tests.",
 [J+"NumUtils.java",J+"CapacityCalculator.java",HB],[("leading-zero count and shift",J+"NumUtils.java"),("overflow-checked doubling",J+"CapacityCalculator.java")],None,["nextPowerOf2","calculateNewCapacity"])
p("I01","A snowflake generator never repeats an id and its ids always increase",
 "For every sequence of clock readings, including repeated, jumping and backward ones, and any number of calls from any number of threads, with times inside the 41 bits after the epoch, every id returned by one generator is greater than all ids it returned before, so none repeats; a call that observes the clock behind the last issued time throws IllegalStateException or waits, and never issues an id for an earlier time. Ids of generators with different node ids never coincide.",
 ["inputs","histories","schedules"],"all clock behaviours within the 41-bit range, all call counts per millisecond, all thread interleavings of nextId","The generator has no tests at all; sequence exhaustion needs more than 4096 ids in a millisecond.",
 [J+"id/Snowflake.java"],[("monotonic (timestamp, sequence) under the object's monitor",J+"id/Snowflake.java"),("wait for next millisecond on sequence exhaustion",J+"id/Snowflake.java")],[("lastTimestamp/sequence","last issued position, guarded by the monitor",J+"id/Snowflake.java")],["nextId"])
p("I02","A snowflake id decodes to the time, node and sequence it was made from",
 "Parsing any generated id returns the clock reading at which it was issued, the generator's node id and the sequence number; a generator is only constructed with a node id of 0 to 1023, and ids are positive for times after the epoch within the 41-bit range.",
 ["inputs","configurations"],"all clock readings within 41 bits of the epoch, all node ids, all sequence numbers, all epochs","The generator has no tests at all.",
 [J+"id/Snowflake.java"],[("bit-field layout 41/10/12",J+"id/Snowflake.java")],None,["nextId","parse"])
p("G01","Removed elements are released: their slots read as the type's default",
 "Once an element is removed from an indexed set or map, a deque or a hydra deque (by key, by entry, through an iterator, or by clear), the collection no longer holds a reference to it: the freed slot reads as the type's default (null for strings and objects). Clearing a vector or deque of strings or objects releases every element it held.",
 ["inputs","histories"],"all histories and all removal paths","No test inspects slots after removal.",
 [BH,IDX,MAP,DQ,HY,T+"vector/KeyVector.ftl"],[("key and value reset on free",IDX),("clearing of the used part of the arrays",BH)],CHST,["getKeyAt","getValueAt"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
