#!/usr/bin/env python3
"""Writes properties.jsonl. Kept as code so that the long texts stay reviewable."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": hook}})

p("C01", "AVL tree maps behave as a finite map for every history",
  "For every sequence of Put, Get, Has, Remove and Size calls, the AVL tree and the immutable AVL tree give exactly the answers of a mathematical map: Get returns the value last put under the key, Put on a present key overwrites the value without changing the size, and Remove returns the removed value and removes only that key. Get or Remove of an absent key returns an error and leaves the contents unchanged. No call panics or fails to return, including on an empty tree.",
  ["histories", "inputs"], "every finite sequence of map calls over every key set, of any size",
  "The tests put 400 random keys once, read them, and remove each once; they never remove an absent key from a tree, never interleave puts and removes, and reach a handful of tree shapes.",
  ["tree/avl/avltree.go", "tree/avl/imm_avltree.go"],
  [("recursive Put/Remove with rotations", "tree/avl/avltree.go:Put,Remove,balance"), ("copy-on-write twin", "tree/avl/imm_avltree.go:Put,Remove")],
  [("root", "the tree that holds the entries", "AvlTree.root")], ["AvlTree/ImmutableAvlTree public methods", "AvlNode/ImmutableAvlNode public methods"])

p("C02", "Hash tables behave as a finite map for every history and hash function",
  "For every initial size and every key type whose hash is consistent with equality, including negative, extreme and colliding hash values, the separate-chaining hash table and the linear hash table answer every sequence of Put, Get, Has, Remove and Size calls exactly as a mathematical map would. This stays true across every growth step and across any interleaving of growth with removals. Get or Remove of an absent key returns an error and changes nothing, and no call panics.",
  ["histories", "inputs", "configurations"], "every call sequence, every initial table size, every hash function",
  "The tests use 400 random strings, one initial size, non-negative hashes and no removal before growth has ended; growth past the first few splits and adversarial hashes are never reached.",
  ["hashtable/hashtable.go", "hashtable/linhash.go"],
  [("table doubling", "hashtable/hashtable.go:expand"), ("bucket choice", "hashtable/hashtable.go:bucket, hashtable/linhash.go:bucket"), ("incremental split", "hashtable/linhash.go:split")],
  [("table", "buckets", "Hash.table / LinearHash.table"), ("n,i,r", "buckets, address bits, records", "LinearHash")], ["Hash and LinearHash public methods"])

p("C03", "The B+ map behaves as a finite map for every history and node size",
  "For every node size of at least two and every sequence of Put, Get, Has, Remove and Size calls, the unique-key B+ tree map answers exactly as a mathematical map would, with Put overwriting a present key. Get or Remove of an absent key, including on an empty map, returns an error and leaves the contents unchanged. No call panics.",
  ["histories", "inputs", "configurations"], "every call sequence, every node size >= 2",
  "The test inserts random records and removes them in one order per node size; it never touches an empty map with Get or Remove and never re-inserts after removal.",
  ["tree/bptree/bpmap.go", "tree/bptree/bptree_node.go"],
  [("leaf and internal splits", "tree/bptree/bptree_node.go:leaf_split,internal_split"), ("removal", "tree/bptree/bptree_node.go:internal_remove,leaf_remove")],
  [("root,size", "tree and entry count", "BpMap")], ["BpMap public methods"])

p("C04", "The B+ tree behaves as a multimap for every history and node size",
  "For every node size of at least two and every sequence of Add, Replace and RemoveWhere calls, the B+ tree holds exactly the multiset of key/value entries a mathematical multimap would: Add adds one entry, Replace rewrites exactly the entries under the key whose value satisfies the predicate, and RemoveWhere removes exactly the entries under the key whose value satisfies it. Has, Count, Find and Size always agree with that multiset. Operations naming an absent key, or on an empty tree, change nothing and do not panic.",
  ["histories", "inputs", "configurations"], "every call sequence with any mixture of duplicate keys, every node size >= 2",
  "The end-to-end test uses 128 distinct random keys, so duplicate runs, removal of several or of none of a key's entries, and Size after removal are never exercised.",
  ["tree/bptree/bptree.go", "tree/bptree/bptree_node.go"],
  [("duplicate runs kept in chained pure leaves", "tree/bptree/bptree_node.go:pure_leaf_split,find_end_of_pure_run"), ("removal", "tree/bptree/bptree_node.go:leaf_remove"), ("size accounting", "tree/bptree/bptree.go:Add,RemoveWhere")],
  [("root,size", "tree and entry count", "BpTree")], ["BpTree public methods"])

p("C05", "B+ tree iteration and range queries are complete, ordered and in bounds",
  "After any history, forward iteration over a B+ tree yields every entry exactly once in ascending key order, backward iteration the same in descending key order, and Keys each distinct key once in ascending order. Range(from, to) yields exactly the entries whose key lies between the two bounds, inclusive, ascending when from <= to and descending when from > to, whether or not the bounds are present in the tree. This holds for empty trees and for bounds below, above or between all keys.",
  ["histories", "inputs", "configurations"], "every reachable tree, every pair of bounds, every node size >= 2",
  "Two ranges whose bounds are both present are tested, on trees without duplicates; absent bounds, bounds outside the key span and empty trees are not.",
  ["tree/bptree/bptree.go", "tree/bptree/bptree_node.go"],
  [("location iterators", "tree/bptree/bptree_node.go:all,all_backward,forward,backward"), ("leaf search", "tree/bptree/bptree_node.go:get_start,get_end")],
  [("leaf chain", "doubly linked leaves", "BpNode.next/prev")], ["Iterate, Backward, Range, Find, Keys, Values, Items"])

p("C06", "Map iteration yields every entry exactly once, and trees yield it in order",
  "For every map in the library and every content it can reach, Iterate yields each current entry exactly once with its current value, and Keys, Values and Items yield the same entries in the same order as Iterate. The AVL tree, the immutable AVL tree and the B+ map yield keys in ascending order. An empty map yields nothing, and iterating changes nothing.",
  ["histories", "inputs"], "every map implementation and every history leading to the iteration",
  "Tests iterate one 10-key tree and one 100-key hash table built by insertion only.",
  ["tree/avl/avltree.go", "tree/avl/imm_avltree.go", "hashtable/hashtable.go", "hashtable/linhash.go", "tree/bptree/bpmap.go", "set/mapset.go", "types/util.go", "tree/util.go"],
  [("functional iterators", "types/util.go:MakeKeysIterator,MakeValuesIterator,MakeItemsIterator"), ("bucket walk", "hashtable/hashtable.go:Iterate, hashtable/linhash.go:Iterate")],
  [], ["Iterate, Keys, Values, Items of every map"])

p("C07", "Immutable AVL snapshots never change",
  "A root, node or iterator obtained from an immutable AVL tree keeps showing exactly the entries the tree had at that moment, whatever is later put into or removed from the tree and however reads of the snapshot are interleaved with those updates. Node-level Put and Remove leave the node they are called on, and everything reachable from it, unchanged, also when they fail. Concurrent readers of a snapshot are therefore never disturbed by later updates.",
  ["histories", "schedules"], "every history of updates after every snapshot, every interleaving of reading a snapshot with updates",
  "No test keeps an old root or iterator across an update.",
  ["tree/avl/imm_avltree.go"],
  [("copy-on-write", "tree/avl/imm_avltree.go:Copy,pop_node,push_node,Put,Remove")],
  [("nodes", "shared immutable nodes", "ImmutableAvlNode")], ["Root(), Iterate(), ImmutableAvlNode methods"])

p("C08", "AVL trees stay height balanced",
  "After every history of insertions and removals, both AVL trees satisfy the AVL balance condition: at every node the heights of the two subtrees differ by at most one. The depth of a tree with n keys therefore never exceeds 1.45*log2(n+2). The shape is always a binary search tree over the keys.",
  ["histories", "inputs"], "every insertion and removal order",
  "The only shape test inserts ten fixed keys; depth is never measured and removal is never followed by a shape check.",
  ["tree/avl/avltree.go", "tree/avl/imm_avltree.go"],
  [("height bookkeeping and rotations", "tree/avl/avltree.go:balance, tree/avl/imm_avltree.go:balance")],
  [("height", "subtree height", "AvlNode.height")], ["Root() with Left/Right/Children"])

p("C09", "The ternary search trie behaves as a finite map over byte strings",
  "For every sequence of Put, Get, Has and Remove calls with non-empty keys free of null bytes, including keys that are prefixes of one another, re-insertion after removal and bytes above 127, the trie answers exactly as a mathematical map over byte strings would; empty keys and keys containing a null byte are rejected with an error and change nothing. The trie neither writes to the caller's key buffers nor is affected by later writes to them. No call panics.",
  ["histories", "inputs"], "every call sequence over every set of byte-string keys",
  "Tests use random fixed-length keys and one insertion-only word list; removing a key that is a prefix of another, re-inserting it, and key slices with spare capacity never occur.",
  ["trie/tst.go", "trie/tst_node.go"],
  [("leaf splitting", "trie/tst_node.go:insert,split"), ("path-copying removal", "trie/tst.go:Remove"), ("key validation", "trie/tst.go:ValidateKey")],
  [("heads", "256 first-byte roots", "TST.heads")], ["TST public methods"])

p("C10", "Trie iteration is ordered and prefix search is exact",
  "After any history, iterating the trie yields every stored key exactly once with its value, in ascending byte order. PrefixFind yields exactly the stored keys that begin with the given prefix, each once with its value and in ascending byte order, for every prefix: empty, equal to a key, extending past every key, or absent. No prefix makes it panic.",
  ["histories", "inputs"], "every reachable trie and every prefix",
  "Two fixed word lists built by insertion, a few prefixes that all match something.",
  ["trie/tst.go", "tree/util.go", "types/util.go"],
  [("prefix descent", "trie/tst.go:PrefixFind"), ("pre-order traversal", "tree/util.go:TraverseTreePreOrder"), ("chaining of heads", "types/util.go:ChainTreeNodeIterators")],
  [], ["TST.Iterate, Keys, Values, Items, PrefixFind"])

p("C11", "The array list is an exact sequence and fixed lists never outgrow their bound",
  "For every sequence of Append, Push, Insert, Set, Remove, Pop, Extend and Clear calls, the list holds exactly the sequence those calls define, and Get, Size, Has, Empty, Full, Items and ItemsInReverse report it exactly, across every growth and shrink of its storage. Out-of-range indices return an error and change nothing. A fixed-size list never holds more than its bound: once full, adding returns an error and leaves the contents unchanged, and removing makes room again. Sorting a list through its sort.Interface (NewSortable) puts the list itself in ascending order and keeps every item.",
  ["histories", "inputs", "configurations"], "every call sequence, every index, every initial or fixed size",
  "Tests append 100 items and insert at random positions; the boundaries of the growth and shrink policy and errors on the full list are sampled once.",
  ["list/array_list.go"],
  [("shifting insert/remove", "list/array_list.go:Insert,Remove"), ("storage policy", "list/array_list.go:expand,shrink")],
  [("list,fixed", "items and size mode", "List")], ["List public methods"])

p("C12", "The sorted list is always sorted and honours its duplicate policy",
  "After every sequence of Add, Delete, Remove, Extend and Clear calls the sorted list is in ascending order and holds exactly the items added and not removed: without duplicates each item at most once, with duplicates every added copy. Find reports the first position of a present item, or else the position where it would be inserted, and Has, Item and Get agree with it. Deleting an absent item, an out-of-range removal, or adding to a full fixed-size list returns an error and changes nothing.",
  ["histories", "inputs", "configurations"], "every call sequence, both duplicate policies, fixed and growing",
  "Random single-pass add/delete with duplicates disabled; runs of duplicates and Find's position are not checked.",
  ["list/sorted.go", "list/array_list.go"],
  [("binary search", "list/sorted.go:Find"), ("insertion at the found position", "list/sorted.go:Add")],
  [("list,allowDups", "sorted items and policy", "Sorted")], ["Sorted and SortedSet public methods"])

p("C13", "Set operations compute exact set algebra and leave operands unchanged",
  "For every pair of sets of every implementation (sorted set, set over a map, map set), Union, Intersect and Subtract return exactly the mathematical result as a new set, and Subset, Superset, ProperSubset, ProperSuperset and Overlap return the mathematical truth value. Add, Delete, Has, Size and Extend follow set semantics. No operation modifies its operands, and later changes to operands or results do not affect one another.",
  ["inputs", "histories"], "every pair of sets and implementations, also empty, equal, nested and disjoint",
  "A few fixed small integer sets, mostly sorted-set with sorted-set.",
  ["set/ops.go", "set/sortedset.go", "set/setmap.go", "set/mapset.go"],
  [("generic operations", "set/ops.go"), ("merge union and overlap", "set/sortedset.go:union,Overlap")],
  [], ["types.Set methods, set.Union ... set.ProperSuperset"])

p("C14", "A map built on a set and a set built on a map keep map and set semantics",
  "A map set over a sorted set behaves as a mathematical map under Put, Get, Has, Remove and Size, with Put overwriting a present key, and as a set of its entries under Add, Item, Delete and Items. A set over any map of the library behaves as a mathematical set under Add, Has, Delete, Extend, Size and Items. Absent keys and items are reported by an error and change nothing.",
  ["histories", "configurations"], "every call sequence, every backing map",
  "Tests put fresh keys only and use one backing map.",
  ["set/mapset.go", "set/setmap.go", "types/map_entry.go"],
  [("entry wrapping", "set/mapset.go:asMapEntry,Put,Remove"), ("delegation", "set/setmap.go")],
  [], ["MapSet and SetMap public methods"])

p("C15", "The linked list is an exact double-ended queue",
  "For every sequence of pushes, pops, enqueues and dequeues at either end, the linked list holds exactly the sequence those calls define: forward and backward iteration are mirror images of it, and Size, First, Last and Has agree with it. Removing from an empty list returns an error and leaves a usable empty list.",
  ["histories"], "every interleaving of operations at both ends",
  "Tests use one end at a time and drain once.",
  ["linked/linked.go"],
  [("pointer surgery at both ends", "linked/linked.go:EnqueFront,EnqueBack,DequeFront,DequeBack")],
  [("Head,Tail,Length", "ends and count", "LinkedList")], ["LinkedList public methods"])

p("C16", "The unique deque never holds duplicates and never loses track of membership",
  "After every sequence of operations at either end, no two items in the unique deque are equal: enqueueing a present item changes nothing, otherwise it goes to the named end, and dequeued items come off in double-ended-queue order. Has is true exactly for the items currently queued, so an item can be enqueued again after it was dequeued. Removing from an empty deque returns an error and changes nothing.",
  ["histories", "inputs"], "every interleaving of operations at both ends, any number of items",
  "Tests push distinct random items once and pop them once.",
  ["linked/unique.go"],
  [("queue and set kept in step", "linked/unique.go:EnqueFront,EnqueBack,DequeFront,DequeBack")],
  [("queue,set", "order and membership", "UniqueDeque")], ["UniqueDeque public methods"])

p("C17", "The heap always pops an item of extreme priority and loses nothing",
  "After every sequence of Push and Pop calls, Peek and Pop on a min (max) heap give an item whose priority is smallest (largest) among the items present, and each pushed item is popped exactly once. Size, Items and Verify agree with the contents at every step. Pop and Peek on an empty heap return nil and change nothing.",
  ["histories", "inputs"], "every interleaving of pushes and pops, equal and negative priorities included",
  "Tests only push one fixed list and never pop a sequence.",
  ["heap/pq.go"],
  [("sift up and down", "heap/pq.go:fixUp,fixDown")],
  [("list", "heap array", "Heap.list")], ["Heap public methods"])

p("C18", "The unique priority queue holds each item at most once, in priority order",
  "For every sequence of Add/Push, Peek and Pop calls, an item already queued is not queued again and keeps its first priority; Pop returns an item of extreme priority and makes it addable again. Size equals the number of distinct queued items. Pop and Peek on an empty queue return nil and change nothing.",
  ["histories", "inputs"], "every interleaving, min and max order, any number of items",
  "One push-only test.",
  ["heap/unique.go", "heap/pq.go"],
  [("queue and set kept in step", "heap/unique.go:Add,Pop")],
  [("pq,set", "order and membership", "UniquePQ")], ["UniquePQ public methods"])

p("C19", "Serialization round-trips every list, sorted list, sorted set and item",
  "For every list, sorted list and sorted set, fixed or growing, with or without duplicates, of every built-in item type and every value of that type, unmarshalling what was marshalled gives a collection equal to the original with the same fixed/growing behaviour, bound and duplicate policy. Decoded collections do not share memory with the input bytes. An error from an item codec is reported to the caller, and the fixed-size integer items refuse bytes of any other length.",
  ["inputs", "configurations"], "every collection content and item value, including negative, extreme and empty ones",
  "Tests round-trip positive Int and random byte strings only; the serialization example with a negative item has no checked output.",
  ["list/array_list.go", "list/sorted.go", "set/sortedset.go", "types/int.go", "types/string.go", "types/util.go"],
  [("length-prefixed format", "list/array_list.go:MarshalBinary,UnmarshalBinary"), ("item codecs", "types/int.go, types/string.go, types/util.go")],
  [], ["MList, MSorted, MSortedSet, *Marshals"])

p("C20", "Equality, ordering and hashing of keys and collections are consistent",
  "For all built-in key types, map entries and collections: Equals is an equivalence, Less is a strict total order consistent with it (exactly one of a<b, a=b, b<a), and equal values have equal hashes. Lists of any implementation compare equal exactly when they hold equal items in the same order, and order first by length and then lexicographically. Values of different built-in scalar types are never equal and neither is less than the other.",
  ["inputs"], "every pair and triple of values of a type, and of collections across implementations",
  "A few hand-picked pairs.",
  ["types/int.go", "types/string.go", "types/map_entry.go", "list/array_list.go", "list/sorted.go", "linked/linked.go", "linked/unique.go"],
  [("typed comparisons", "types/int.go, types/string.go"), ("sequence comparison", "list/array_list.go:Equals,Less,Hash")],
  [], ["Equals, Less, Hash"])

p("C21", "The worker pool runs every accepted task exactly once and Stop drains it",
  "For functions that return and do not call the pool themselves, under every schedule: each function accepted by Do (nil error) runs exactly once, and a rejected one never runs. Whenever a call of Stop returns, every accepted function has finished, none will run afterwards, and every later Do returns an error. No schedule panics, deadlocks or loses a function, also when all worker queues are full.",
  ["schedules"], "every interleaving of submitters, workers and stoppers, every pool size >= 1",
  "The package has no tests at all.",
  ["pool/pool.go"],
  [("per-worker queues with overflow blocking send", "pool/pool.go:Do"), ("close and wait", "pool/pool.go:Stop,work")],
  [("workers", "live workers, nil once stopped", "Pool.workers"), ("wg", "running workers", "Pool.wg")], ["New, Do, Stop and the submitted functions"])

p("C22", "WaitLock gives a quiescent pool until Unlock",
  "Under every schedule, when WaitLock returns every function accepted before it has finished, and until Unlock is called no function starts or runs and no submission is accepted; after Unlock the pool works as before. WaitLock returns once running work has drained, and WaitCount returns the number of unfinished accepted functions, without waiting when there are none and otherwise after some function finishes (on a locked pool it waits for Unlock first).",
  ["schedules"], "every interleaving of submitters, workers and waiters",
  "The package has no tests at all.",
  ["pool/pool.go"],
  [("in-flight counter under a condition variable", "pool/pool.go:Do,work,WaitLock,WaitCount"), ("submission lock", "pool/pool.go:WaitLock,Unlock")],
  [("workin", "accepted but unfinished functions", "Pool.workin")], ["WaitLock, Unlock, WaitCount, Do"])

p("C23", "Try/Catch/Finally blocks follow exception semantics",
  "For every nesting of blocks: the first declared catch whose type is the thrown exception's type or one its struct embeds (by value, at any depth) handles it, and no other catch runs; finally functions run in declaration order after try and catch whether or not an exception was thrown; an unhandled, thrown-in-catch or rethrown exception leaves the block, as a panic from Unwind and as the result of Error and Exception. A rethrown exception keeps its type and gains the new error at the end of its error list. Ordinary panics pass through unchanged without running catches or finally functions, and nothing runs until the block is executed.",
  ["programs"], "every program built from nested blocks, throws, rethrows and panics",
  "Ten straight-line examples with at most one catch and one finally; no nesting of handlers, order of handlers or panics.",
  ["exc/block.go", "exc/exception.go"],
  [("recover and rethrow", "exc/block.go:run,exec"), ("type matching by embedding", "exc/block.go:isa")],
  [("catches,finallies", "registered handlers", "Block")], ["Try, Catch, Finally, Unwind, Error, Exception, Throw*, Rethrow"])

p("C24", "Close blocks close their resource exactly once, before other handlers",
  "A resource created by a Close block is closed exactly once, whether the body completes or throws, before any catch or finally function of that block runs. If closing fails, that failure leaves the body as an exception; if creating the resource throws, nothing is closed and the exception propagates. The body runs exactly once with the created resource, on every execution of the block.",
  ["programs", "fault_sequences"], "every combination of creation, body and close outcomes, with any handlers, nested or not",
  "Two examples with a file.",
  ["exc/block.go"],
  [("inner try/finally", "exc/block.go:Close")],
  [], ["Close"])

p("C25", "The thread safe generator hands out one seeded sequence to all callers",
  "Under every schedule, the numbers drawn from a thread safe generator by any number of goroutines are exactly the sequence a plain generator with the same seed would produce: each element goes to exactly one caller, each caller sees its elements in sequence order, and none is skipped or repeated. Reseeding restarts the sequence from the new seed. There is no data race between draws.",
  ["schedules"], "every interleaving of drawing goroutines, every seed",
  "Used as a helper by tests; nothing checks it.",
  ["rand/rand.go"],
  [("locked source", "rand/rand.go:lockedSource")],
  [("src", "underlying source", "lockedSource")], ["ThreadSafeRand and the methods of the generator"])

p("C26", "Tree traversals visit every node exactly once in the promised order",
  "For every tree, of any shape and any node implementation, the in-order, pre-order and post-order traversals visit each node exactly once, respectively left subtree-node-right subtree, node before its children left to right, and children left to right before their node. An empty tree yields nothing. Child iteration, child count and child access by index agree with one another, a missing child of a library node is nil, and chaining iterators yields their elements in order.",
  ["inputs"], "every finite tree shape",
  "One ten-node tree.",
  ["tree/util.go", "types/util.go"],
  [("explicit stacks", "tree/util.go"), ("child slices", "types/util.go:make_child_slice,MakeChildrenIterator,ChainTreeNodeIterators")],
  [], ["TraverseBinaryTreeInOrder, TraverseTreePreOrder, TraverseTreePostOrder"])

p("C27", "Copies and lists built from slices are independent",
  "A copy of a list, sorted list or sorted set, and a list, sorted list or set built from a slice or another set, starts equal to its source with the same size bound and duplicate policy. Afterwards no sequence of operations on either one changes what the other reports.",
  ["histories"], "every content, every later sequence of operations on source and copy",
  "One test deletes from the source of one copy.",
  ["list/array_list.go", "list/sorted.go", "set/sortedset.go"],
  [("fresh backing array", "list/array_list.go:Copy,FromSlice")],
  [], ["Copy, FromSlice, SortedFromSlice, SortedFromSet"])

p("C28", "Error and exception chains keep every cause in order",
  "For every sequence of Chain, Join and Rethrow steps, the resulting error or exception lists exactly the causes given, in order, and its text contains each of them. Join leaves both operands unchanged and independent of the result. Every created error carries a stack trace naming the function that created it.",
  ["histories"], "every sequence of chaining steps",
  "One test counts the errors after one rethrow.",
  ["errors/errors.go", "exc/exception.go"],
  [("append-only cause lists", "errors/errors.go:Chain, exc/exception.go:Chain,Join")],
  [("Errs / Errors", "causes", "errors.Error, exc.Exception")], ["Chain, Join, Rethrow, Error()"])

p("C29", "Concurrent queries and separate collections do not disturb each other",
  "Queries (lookups, sizes, comparisons, hashes, printing, set operations taking the collection as an operand, and iterations, several of them in progress at once or interleaved with other queries) leave a collection as it is: each returns what it would return alone. Any number of goroutines may run them at once on a collection nobody is changing, free of data races. Collections, errors and exceptions that are not shared can be used by different goroutines without any synchronisation.",
  ["schedules", "histories"], "every interleaving of queries and iterations over an unchanging collection, and every interleaving of uses of separate collections",
  "No test queries one collection from several goroutines, or interleaves two iterations.",
  ["list/", "set/", "linked/", "heap/", "hashtable/", "tree/", "trie/", "types/", "errors/", "exc/"],
  [("iteration state lives in the iterator", "Items/Keys/Values/Iterate of every collection"), ("no package-level mutable state", "all packages")],
  [], ["all read-only operations of every collection"])

p("C30", "Finding an item takes logarithmic or constant time, whatever the history",
  "After every history of insertions and removals, looking up a key (present or absent) among n entries makes O(log n) key comparisons in AVL trees, immutable AVL trees, B+ trees and maps, sorted lists, sorted sets and map sets, n being the most entries held so far. In hash tables and linear hash tables it makes a number of comparisons that does not grow with n, for keys whose hashes are spread evenly. Insertions and removals meet the same bounds on average, up to a constant factor (plus the node size in B+ trees).",
  ["histories", "inputs"], "every history and every order of insertion (sorted, reversed, alternating, random)",
  "Tests never look at the number of comparisons.",
  ["tree/avl/avltree.go", "tree/avl/imm_avltree.go", "tree/bptree/bptree_node.go", "list/sorted.go", "hashtable/hashtable.go", "hashtable/linhash.go", "set/mapset.go"],
  [("nodes are rebalanced and split evenly", "tree/avl/avltree.go:balance, tree/bptree/bptree_node.go:balance_nodes"), ("tables grow with their contents", "hashtable/hashtable.go:expand, hashtable/linhash.go:split"), ("binary search", "list/sorted.go:Find, tree/bptree/bptree_node.go:find")],
  [], ["Has, Get, Put, Remove, Add, Delete"])

p("C31", "Printed collections and drawn tries show exactly their contents",
  "For every contents, String() of lists, sorted lists, linked lists, unique deques, sets, map sets and sets built on maps shows every item exactly once, in iteration order, as {a, b, c}, and {} when empty; map entries print as <MapEntry key: value>, nested collections print nested. For every history of insertions and removals the drawing of a ternary search trie (Dotty) is a well formed search tree: its leaves are exactly the keys stored, in order, each on the path a search for it takes, and every node is drawn once.",
  ["inputs", "histories"], "every contents of a collection, every history of a trie",
  "Tests write drawings to files nobody reads and never look at a printed collection.",
  ["list/array_list.go", "list/sorted.go", "linked/linked.go", "linked/unique.go", "set/setmap.go", "set/mapset.go", "set/sortedset.go", "types/map_entry.go", "trie/tst.go"],
  [("printing follows iteration", "list/array_list.go:String, linked/linked.go:String, set/setmap.go:String"), ("every node has one parent, smaller bytes left, greater right", "trie/tst.go:Dotty, trie/tst_node.go:insert,split")],
  [], ["String, Dotty"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
