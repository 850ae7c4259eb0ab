#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text stays reviewable)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=hook
    P.append(d)
OD=["ordereddict.go","bptree/bptree.go","bptree/leaf.go","bptree/nonleaf.go","bptree/leaflist.go","bptree/key.go","bptree/value.go"]
HM=["dict.go","hashmap/hashmap.go","hashmap/internal/protocol/hashmap.pb.go","hashmap/internal/protocol/bytesview.go"]

p("C01","OrderedDict point operations behave as a map",
 "For every sequence of Set, SetIfExists, SetIfNotExists, Clear and Test on an ordered dictionary, each call's result (found/not found and the present, replaced or removed value, returned only when asked for) equals what a plain in-memory map from byte strings to byte strings would give. This holds for keys and values of any length, including empty ones, and with the dictionary closed and reopened at any point of the sequence.",
 ["histories","inputs"],
 "all operation histories, all key and value byte strings (lengths 0 to megabytes, shared prefixes, keys that are prefixes of each other), all close/reopen positions",
 "The runnable tests keep two keys in one leaf and unit-test node operations with fixed tables; splits, merges, borrowing between siblings, height changes and out-of-line keys/values in combination are never executed through the API.",
 OD,[("path based insert/update/delete with rebalancing","bptree/bptree.go: insertRecord, removeRecord, replaceValue, ensureNot{Over,Under}load*"),("separator maintenance","bptree/bptree.go: syncKey"),("key order with out-of-line tails","bptree/key.go: CompareKey")],
 [("rootAddr,height","entry of the tree","bptree/bptree.go"),("recordPath","positions fixed up while nodes split and merge","bptree/bptree.go")],
 ["OrderedDict.Set/SetIfExists/SetIfNotExists/Clear/Test"])

p("C02","OrderedDict range queries are exact and ordered",
 "RangeAsc(min,max) yields exactly the present keys k with min <= k <= max (bytewise order), each once with its current value, in ascending order, and RangeDesc yields the same records in descending order. MinKey and MaxKey used as either bound stand for the smallest and the largest present key, and a range containing no present key is empty.",
 ["histories","inputs"],
 "all dictionary contents reached by any history, all bounds (present, absent, between any two neighbouring records, inverted, equal, sentinels on either side)",
 "The example test iterates over two records in one leaf; bounds that fall between leafs, on leaf edges, or on absent keys in a multi-level tree are never queried.",
 OD+["bptree/iterator.go"],[("range search","bptree/bptree.go: search"),("leaf chain","bptree/leaflist.go"),("iterators","bptree/iterator.go: Advance")],
 [("leafList","circular doubly linked list of leafs in key order","bptree/leaflist.go")],["OrderedDict.RangeAsc/RangeDesc","Iterator"])

p("C03","OrderedDict contents survive close and reopen",
 "After Close returns without error, reopening the file, in this or another process and any number of times, gives an ordered dictionary with exactly the records, order and statistics it had when it was closed. A dictionary opened and closed without changes keeps its contents.",
 ["histories","crash_points"],
 "all histories, every position at which the dictionary is closed and reopened, process exit or kill at any time between a completed Close and the next open, any number of consecutive reopen cycles",
 "The example reopens once with two records in a single leaf; no test reopens a multi-level tree, a tree at a level change, or an emptied tree.",
 ["ordereddict.go","bptree/bptree.go"],[("store and load of the tree descriptor","bptree/bptree.go: Store, Load"),("descriptor hand-over through the primary space","ordereddict.go: Close, OpenOrderedDict")],
 [("bpTreeInfo","persisted descriptor","bptree/bptree.go")],["OpenOrderedDict","OrderedDict.Close"])

p("C04","Dict point operations behave as a map",
 "For every sequence of Set, SetIfExists, SetIfNotExists, Clear and Test on a dictionary, each call's result (found/not found and the present, replaced or removed value, returned only when asked for) equals what a plain in-memory map from byte strings to byte strings would give. This holds for keys and values of any length, including empty ones and keys with colliding hashes, and with the dictionary closed and reopened at any point of the sequence.",
 ["histories","inputs"],
 "all operation histories that grow and shrink the table through any sizes, all key and value byte strings including hash collisions, all close/reopen positions",
 "The hash map's own tests cannot run here; the example stores two keys. Slot splitting and merging, several slot directories, directory table growth and shrinkage, large slots and collisions are never executed.",
 HM,[("linear hashing","hashmap/hashmap.go: maybeExpand, maybeShrink, addSlot, removeSlot"),("slot directory table","hashmap/hashmap.go: addSlotDir, removeSlotDir, adjustSlotDirs"),("slot encoding","hashmap/hashmap.go: packSlot, unpackSlot")],
 [("slotCount,minSlotCountShift","linear hashing state","hashmap/hashmap.go"),("slotDirCount,maxSlotDirCountShift","directory table state","hashmap/hashmap.go")],
 ["Dict.Set/SetIfExists/SetIfNotExists/Clear/Test"])

p("C05","Dict scans visit every item exactly once and never invent one",
 "Scanning an unmodified dictionary from a zero cursor until it reports the end returns every present key exactly once with its current value. If the dictionary is modified between the steps of a scan, every pair returned was in the dictionary at some moment since the scan began, and as long as nothing is removed no key that was present when the scan began is missed.",
 ["histories","schedules"],
 "all dictionary contents and table sizes, any number of interleaved cursors, any interleaving of scan steps with insertions, updates and removals",
 "The example scans two items in one slot; no test scans a table with several directories, several cursors, or a table that grows or shrinks under the scan.",
 HM,[("cursor","hashmap/hashmap.go: FetchItem"),("high slots split off low slots at the end of the table","hashmap/hashmap.go: maybeExpand")],
 [("Cursor","slot position and copied items","hashmap/hashmap.go")],["Dict.Scan"])

p("C06","Dict contents survive close and reopen",
 "After Close returns without error, reopening the file, in this or another process and any number of times, gives a dictionary with exactly the items and statistics it had when it was closed. A dictionary opened and closed without changes keeps its contents.",
 ["histories","crash_points"],
 "all histories, every position at which the dictionary is closed and reopened, process exit or kill at any time between a completed Close and the next open, any number of consecutive reopen cycles",
 "The example reopens once with two items; the hash map's own tests cannot run here. Tables with several directories, grown, shrunk or emptied are never reopened.",
 ["dict.go","hashmap/hashmap.go","hashmap/internal/protocol/hashmap.pb.go"],[("store and load of the table descriptor","hashmap/hashmap.go: Store, Load"),("descriptor hand-over through the primary space","dict.go: Close, OpenDict")],
 [("HashMapInfo","persisted descriptor","hashmap/internal/protocol/hashmap.proto")],["OpenDict","Dict.Close"])

p("C07","Results never depend on where or when the storage is placed or moved",
 "The results and contents of both dictionaries are the same whatever the storage layer does within its contract: moving or remapping the file's memory at any allocation or release, handing out space filled with arbitrary old bytes, larger than asked for, or at any file offset including beyond 4 GiB. No operation reads or writes the file's memory through a view obtained before such a move, or reads space it has released.",
 ["schedules","fault_sequences","histories"],
 "all choices of which allocation/release moves the mapping, all contents and sizes of newly allocated space, all placements in the file, for all histories",
 "In a test the mapping moves only when the file doubles or halves, fresh file pages are zero and files are tiny, so a stale view, a read of uninitialised or released space, or a truncated offset almost never shows.",
 OD+HM,[("views are fetched again after allocation","bptree/bptree.go: '>>> fix node controllers'"),("copies are made before release","hashmap/hashmap.go: removeSlot, adjustSlotDirs; bptree/leaf.go: RemoveRecords"),("fresh nodes are initialised","bptree/leaf.go: CreateLeaf")],
 [("ephemeral accessors","slices into the file mapping valid until the next Allocate/Free","fsm.FileStorage")],["every public operation"],
 "none in /repo: the storage dependency is replaced at build time by a copy whose file and mmap calls are simulated")

p("C08","Caller buffers are neither changed nor retained, results are private",
 "No operation modifies the key and value slices the caller passes in, and changing them afterwards changes neither the stored contents nor any earlier result. Slices returned by point operations, scans and iterators are private copies: they keep their contents through any later operation, growth of the file and Close, and overwriting them changes neither the dictionary nor other results.",
 ["histories","schedules"],
 "all histories in which argument buffers are reused or overwritten after each call, and all results are kept, compared or overwritten at arbitrary later points including after Close",
 "Tests pass literals and look at results at once; a result that is a view into the file would only fail after the mapping moves, the space is reused, or the store is closed.",
 OD+HM+["bptree/iterator.go"],[("result copies","hashmap/hashmap.go: copyBytes; bptree/key.go: ReadKeyAll; bptree/value.go: ReadValueAll"),("arguments copied into nodes","bptree/leaf.go: doInsertRecords; hashmap/hashmap.go: packSlot")],
 None,["results and arguments of every public operation"])

p("C09","Released space is reclaimed; no history leaks file space",
 "Removing every key from either dictionary, after any history including updates and reopen cycles, returns the allocated space to that of a freshly created dictionary, apart from the one small descriptor that a reopened dictionary may keep until it is closed. At any time the space held is determined by the present contents up to a constant factor, so overwriting, clearing and re-adding, or opening and closing any number of times does not make it grow.",
 ["histories"],
 "all histories of additions, updates, removals and reopen cycles, all key and value sizes",
 "The tests that compare allocated space with zero either cannot run here or look at one key and one value; leaks on update, merge, rehash or reopen paths need long histories.",
 OD+HM,[("overflow release","bptree/value.go: DestroyValue; bptree/key.go: DestroyKey"),("node release on merge","bptree/bptree.go: destroyLeaf, destroyNonLeaf"),("slot and directory release","hashmap/hashmap.go: eraseSlot, removeSlotDir, adjustSlotDirs"),("descriptor release","bptree/bptree.go: Load, Store; hashmap/hashmap.go: Load, Store")],
 [("live allocations","space handed out by the storage layer and not yet released","fsm.FileStorage.Stats().AllocatedSpaceSize")],["Stats().FSM","allocation ledger of the simulated storage"])

p("C10","Statistics match the contents",
 "At every moment the record/item count and payload size reported by either dictionary equal the number of present keys and the total length of their keys and values. The reported numbers of leafs, non-leafs, slot directories and the height equal those of the structure actually held in the file, also after reopening, and the storage statistics those of its storage at that moment.",
 ["histories"],
 "all histories, checked after every operation and across close/reopen",
 "No runnable test looks at statistics; the counters are maintained incrementally on every split, merge, update and delete path.",
 OD+HM,[("incremental counters","bptree/bptree.go: payloadSize, recordCount, leafCount, nonLeafCount; hashmap/hashmap.go: itemCount, payloadSize, slotDirCount")],
 None,["OrderedDict.Stats","Dict.Stats","allocation ledger of the simulated storage","BPTree.Fprint"])

p("C11","The ordered dictionary's tree stays balanced and compact",
 "Whatever the history, the tree's height stays logarithmic in the number of records and its nodes stay reasonably filled: the number of leafs stays within a constant factor of the records' in-node size, every inner level is several times smaller than the one below, and the tree of an emptied dictionary is a single leaf of height one. In particular removals shrink the tree again.",
 ["histories","inputs"],
 "all insertion, update and removal orders, all mixes of key and value sizes",
 "The runnable tests never build a tree of more than one leaf, so nothing observes the balance after skewed insertions, shrinking values or removals.",
 ["bptree/bptree.go","bptree/leaf.go","bptree/nonleaf.go"],[("split, borrow and merge thresholds","bptree/leaf.go, bptree/nonleaf.go: Count*For*"),("height changes","bptree/bptree.go: increaseHeight, decreaseHeight")],
 None,["OrderedDict.Stats","BPTree.Fprint"])

p("C12","The dictionary's table grows and shrinks in proportion to its items",
 "After every operation the number of hash slots is within a constant factor of the number of items (never more than about two items per slot on average, never fewer than one item per two slots unless there is a single slot), and the number of slot directories within a constant factor of the slots. In particular removing the items shrinks the table back to its initial size, so operations touch a bounded number of items on average.",
 ["histories"],
 "all histories that move the item count up and down through any sizes, including reopening in between",
 "The hash map's own tests cannot run here and the example never leaves one slot.",
 ["hashmap/hashmap.go"],[("load factor control","hashmap/hashmap.go: maybeExpand, maybeShrink"),("directory control","hashmap/hashmap.go: addSlotDir, removeSlotDir, adjustSlotDirs")],
 None,["Dict.Stats","HashMap.NumberOfSlots/NumberOfSlotDirs/MaxNumberOfSlotDirs/MinNumberOfSlots"])

p("C13","Iterators read any part of a record and stop cleanly at the end",
 "At every position of a range iteration, the sizes reported and any partial read of the key or value at any offset into any buffer agree with the full record (a read past the end returns zero bytes, a read never touches the buffer beyond the count it returns). Any number of iterations proceed independently and reading does not move them; past the end an iterator stays at its end, Advance has no effect, and every read reports an error and no data.",
 ["inputs","schedules","histories"],
 "all record sizes around and beyond the in-node limits, all offsets and buffer lengths, any interleaving of several iterations in both directions over the same dictionary",
 "Tests read two short records to the end once; partial reads across the boundary between in-node and out-of-line data and behaviour after the end are only sampled at a few constants.",
 ["bptree/iterator.go","bptree/key.go","bptree/value.go"],[("partial reads","bptree/key.go: ReadKey; bptree/value.go: ReadValue"),("end state","bptree/iterator.go: preAdvance, isAtEnd")],
 None,["Iterator"])

p("C14","I/O failures are reported, never swallowed",
 "When the operating system fails a call during Open, the caller gets an error and no dictionary, nothing stays open, and the stored data is still there for a later open; opening a missing file without permission to create it, or a file of another format, does the same and neither creates nor changes anything. When a call fails during Close, Close returns an error. When the file cannot be grown during an operation, the operation does not return as if it had succeeded.",
 ["fault_sequences","histories"],
 "every system call issued by open, close and file growth, failing at any occurrence with any error or short read, for all contents",
 "No test injects a failure; every test runs on a healthy file system.",
 ["dict.go","ordereddict.go","hashmap/hashmap.go","bptree/bptree.go"],[("error propagation","dict.go: OpenDict, Close; ordereddict.go: OpenOrderedDict, Close")],
 None,["OpenDict","OpenOrderedDict","Close","errors and panics of operations"],
 "none in /repo: failures are injected at the simulated file and mmap calls")

p("C15","Separate dictionaries and concurrent readers do not interfere",
 "Operations on different dictionaries running in different goroutines give, under every interleaving, the same results as if each dictionary were used alone. While nothing modifies a dictionary, any number of goroutines may read it (Test, scans with own cursors, range iterations) under every interleaving with correct results.",
 ["schedules","histories"],
 "all interleavings, at the granularity of single statements, of goroutines that each use their own dictionary or that only read a shared one",
 "All tests are single-threaded.",
 OD+HM+["bptree/iterator.go"],[("no package-level or per-store mutable scratch state on these paths","bptree, hashmap")],
 None,["every public operation"],
 "none in /repo: a yield point before every statement is added to the sources at build time through a go build overlay")

p("C16","A killed process never turns a dictionary into a different one",
 "If the process is killed at any instant, opening the file again and reading it either fails loudly (an error or a panic) or gives exactly the contents at the last completed Close, empty if there was none; after a kill during Close, the contents being closed will do too. It never gives part of an unclosed session, a mixture, or garbage, and a dictionary so opened works normally.",
 ["crash_points","histories"],
 "a kill before any statement of any operation, of Open and of Close, in first and later sessions, for all histories",
 "No test kills a process; every test closes its store.",
 ["dict.go","ordereddict.go","hashmap/hashmap.go","bptree/bptree.go"],[("descriptor published only by Close","dict.go: Close; ordereddict.go: Close"),("descriptor made unreadable by Open","hashmap/hashmap.go: Load; bptree/bptree.go: Load")],
 None,["OpenDict","OpenOrderedDict after a kill"],
 "none in /repo: statement hooks come from the build overlay")

p("C17","Files written by the released version stay readable",
 "A file written and closed by the pinned release, after any history, opens under the current code with the same contents and statistics, can be modified further, and this holds for any number of later sessions.",
 ["histories","configurations"],
 "all histories executed by the pinned release and continued by the current code at any session boundary",
 "Every test writes and reads its file with the same code, so a consistent change of hash function, key order, node or slot encoding passes them.",
 OD+HM,[("on-disk formats","bptree/leaf.go, bptree/nonleaf.go, bptree/bptree.go: bpTreeInfo; hashmap/internal/protocol/hashmap.proto; hashmap/hashmap.go: sumKey, packSlot")],
 None,["OpenDict","OpenOrderedDict"],"none: a frozen copy of the pinned release is kept in /verif")

p("C18","Trees and maps sharing one file storage are independent; Destroy frees",
 "Any number of B+ trees and hash maps created in one file storage, used in any interleaving, stored and loaded at any time, behave as separate maps, also while an iteration or scan over one goes on. Destroying one releases all the space it held and leaves the others' contents unchanged. An object that was stored or destroyed can be loaded or created again.",
 ["histories","schedules"],
 "all interleavings of operations, Store/Load and Create/Destroy over several structures in one storage, empty or not when destroyed",
 "Tests create one structure per file and destroy it at the end of the process without checking the space of a non-empty one.",
 ["bptree/bptree.go","hashmap/hashmap.go"],[("ownership of allocated space","bptree/bptree.go: Destroy; hashmap/hashmap.go: Destroy"),("Store/Load","bptree/bptree.go, hashmap/hashmap.go")],
 None,["bptree.BPTree","hashmap.HashMap","allocation ledger of the simulated storage"])

p("C19","Dumping a tree is complete and reports writer failures",
 "Fprint writes every record of the tree exactly once in ascending key order, whatever the shape of the tree, and does not change the tree. If the writer fails at any call, Fprint stops there, returns an error, and what it wrote is a prefix of the complete dump.",
 ["fault_sequences","histories"],
 "all trees, and a writer failure or short write at every write call",
 "The only test of it is disabled.",
 ["bptree/fprint.go"],[("recursive dump with error propagation","bptree/fprint.go: doFprint")],
 None,["BPTree.Fprint"])

p("C20","The work of one operation does not grow with the size of the dictionary",
 "A point operation, opening a range or taking one step of a range or scan, Stats, Open and Close each access, allocate or release only a few blocks of the file: at most in proportion to the height of an ordered dictionary's tree, and for a dictionary to the items of a slot or two, whatever the number of records and the history. The computation they do is bounded likewise (for a change: plus that of rearranging a few tree nodes or one slot directory), so that no operation walks over, copies or rehashes a share of all records. This is about keys with well spread hashes; the storage layer's own bookkeeping is not part of it.",
 ["histories","inputs"],
 "all histories and sizes, all operations, all positions of keys and range bounds, sequential and random insertion and removal orders",
 "The results are right all the same, and the few records of a test are cheap to walk over.",
 OD+HM,[("descent by binary search","bptree/bptree.go: findRecord, searchRecord..."),("leaf list","bptree/leaflist.go; bptree/iterator.go"),("one slot split or merged at a time","hashmap/hashmap.go: maybeExpand, maybeShrink"),("resumable scan cursor","hashmap/hashmap.go: Scan")],
 None,["every call of Dict and OrderedDict","accesses of the simulated storage"])

with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for d in P:
        assert len(d["title"])<=80,(d["id"],len(d["title"]))
        f.write(json.dumps(d)+"\n")
