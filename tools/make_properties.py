import json
I="include/bpptree/"
D=I+"detail/"
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    assert len(title)<=80,title
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

prop("C01","Positional edits act exactly as on a plain sequence",
 "After any history of positional edits - insert/erase/assign/update through an iterator, push/emplace/pop at either end, clear - a tree's forward and reverse traversal, size(), empty(), front() and back() equal those of an ordinary sequence given the same edits, and pop_front/pop_back return the element they removed. This holds for the in-place (Transient) and the functional (Persistent) form of every edit, at every tree depth and node size, whether or not snapshots currently share nodes with the edited tree.",
 ["histories","inputs","configurations"],"every finite history of positional edits, every element type that satisfies the documented requirements, every node size and depth",
 "The tests run a handful of fixed histories, nearly all with 512-byte nodes and int elements; splits, collapses and emptied nodes at depth >= 3, on nodes shared with a snapshot, are hardly reached.",
 [I+"bpptree.hpp",D+"leafnodebase.hpp",D+"internalnodebase.hpp",D+"modify.hpp",D+"uninitialized_array.hpp",D+"operations.hpp"],
 [("leaf insert/split/erase/assign","detail/leafnodebase.hpp"),("internal insert/split/erase propagation","detail/internalnodebase.hpp"),("root replace, grow and collapse","detail/modify.hpp")],
 [("tree_size","number of elements","bpptree.hpp Shared"),("length","occupied slots in a node","detail/nodetypes.hpp NodeBase")],
 ["begin/end, rbegin/rend, size, empty, front, back, pop_* results"])

prop("C02","Keyed lookups and edits act exactly as on a sorted map",
 "For a tree with the Ordered mixin holding distinct keys in comparator order, find, contains, lower_bound, upper_bound, at_key and operator[] (const, non-const and _const forms) answer for every present or absent key exactly as a sorted map with the same comparator would, and insert_v (ignores a present key), insert_or_assign (replaces), assign_v, update_key and erase_key change the contents exactly as on that map. This holds for every comparator that is a strict weak order, every key extractor, linear and binary search, however the tree was built, and whether it is a Transient or a Persistent.",
 ["histories","inputs","configurations"],"every history of keyed edits and lookups over every key set, comparator, extractor and search strategy",
 "upper_bound has no test at all ('TODO add tests'), absent keys past the last key, keys at node boundaries after erasures, descending comparators and second-component keys are sampled once or never.",
 [I+"ordered.hpp",D+"ordered_detail.hpp",D+"helpers.hpp"],
 [("separator keys kept as maxima of children","detail/ordered_detail.hpp"),("find_key_index linear/binary","detail/ordered_detail.hpp"),("DuplicatePolicy","detail/ordered_detail.hpp insert_or_assign"),("key/value extraction and argument order","detail/helpers.hpp extractors")],
 [("keys","largest key under each child","detail/ordered_detail.hpp InternalNode")],
 ["results of the keyed lookups; traversal after keyed edits"])

prop("C03","A Persistent tree never changes once created",
 "Everything observable through a Persistent tree - contents, order, size, keyed/indexed lookups, sums, minima and maxima, and every iterator and reference obtained from it - stays exactly as it was when it was created, for as long as it or a copy of it lives. No later edit, conversion, copy, move or destruction of any Transient or Persistent derived from it, or that it was derived from, can change it.",
 ["histories","configurations"],"every interleaving of edits, snapshots, conversions, copies, moves and destructions over any number of trees sharing structure",
 "The tests hold one or two snapshots at a time and never look at held iterators, references or derived values again after further edits, so an in-place write to a shared node at a rarely taken branch goes unseen.",
 [I+"bpptree.hpp",D+"leafnodebase.hpp",D+"internalnodebase.hpp",D+"nodeptr.hpp",D+"modify.hpp"],
 [("persistent flag gates copy-on-write","detail/leafnodebase.hpp, detail/internalnodebase.hpp"),("make_persistent marks the reachable nodes","detail/leafnodebase.hpp, detail/internalnodebase.hpp"),("reference counts","detail/nodeptr.hpp")],
 [("persistent","node may be shared and must not be written","detail/nodetypes.hpp NodeBase")],
 ["complete observable fingerprint of each live Persistent, held iterators and element references"])

prop("C04","Conversions and copies are equal to their source and independent of it",
 "persistent(), transient() (from lvalues and from rvalues), and copies, moves and assignments of Transient and Persistent trees yield a tree with exactly the observable state of the source, and afterwards edits of either one never show in the other. For every editing operation, editing a transient() copy and snapshotting it gives the same tree as the functional Persistent form of that operation, which leaves its source alone.",
 ["histories","configurations"],"every history of conversions, copies, moves and assignments mixed with edits on all the resulting trees",
 "No test copies a Transient, assigns trees, or keeps editing a Transient while other trees made from it live; the functional forms are only compared with themselves.",
 [I+"bpptree.hpp",D+"nodeptr.hpp",D+"internalnodebase.hpp",D+"leafnodebase.hpp"],
 [("persistent()/transient()","bpptree.hpp"),("copy construction of Transient","bpptree.hpp Transient"),("reference counts","detail/nodeptr.hpp")],
 None,["observable state of both sides after the conversion and after each later edit"])

prop("C05","Indexes name the elements in traversal order, under every history",
 "For a tree with the Indexed mixin, at_index(i), operator[](i) and find_index(i) (every form) denote the i-th element in traversal order for every i below size(), order(it) gives that i back for every iterator kind (size() for end()), and iterator differences equal differences of positions. insert_index, assign_index, update_index and erase_index change exactly the position named and shift the others accordingly. All this holds after any history of edits of any kind (positional, keyed, indexed, through proxies or iterators) and for any index type wide enough for the size, signed or unsigned.",
 ["histories","inputs","configurations"],"every edit history, every index, every index type and node size",
 "Tests use size_t indexes, mostly one mixin combination and shallow trees; stale child counts after a rare split, collapse or cross-mixin edit show only at particular indexes.",
 [I+"indexed.hpp",D+"indexed_detail.hpp",D+"iterator.hpp"],
 [("child_counts maintenance by deltas","detail/indexed_detail.hpp"),("index descent","detail/indexed_detail.hpp find_index/insertion_index"),("count-skipping advance","detail/indexed_detail.hpp advance")],
 [("child_counts","elements under each child","detail/indexed_detail.hpp")],["at_index, operator[], find_index, order, it-it; traversal after indexed edits"])

prop("C06","Sums and prefix sums match the elements, under every history",
 "For a tree with the Summed mixin, sum(), sum_inclusive(it) and sum_exclusive(it) equal the sum of the extracted values over the whole traversal, up to and including, and up to but excluding the iterator's position (end() included for sum_exclusive), and with non-negative summands sum_lower_bound(t) is the first position whose inclusive prefix sum reaches t, or end() if there is none. This holds after any history of edits of any kind, for every extractor and every signed or unsigned sum type that can represent the sums.",
 ["histories","inputs","configurations"],"every edit history, every target value and iterator position, every extractor and sum type",
 "Tests check a few sums on int trees after simple edits; deltas that go wrong only for a replaced first/last element, a split of a shared node, or an unsigned sum stay hidden until the exact prefix is asked for.",
 [I+"summed.hpp",D+"summed_detail.hpp"],
 [("child_sums maintained by deltas","detail/summed_detail.hpp"),("prefix descent","detail/summed_detail.hpp find_index_forward, sum_inclusive, sum_exclusive")],
 [("child_sums","sum under each child","detail/summed_detail.hpp")],["sum, sum_inclusive, sum_exclusive, sum_lower_bound"])

prop("C07","Min and max answers are right for every range, under every history",
 "For a tree with the Min or Max mixin, min()/max() over the whole non-empty tree and min(b,e)/max(b,e) over every non-empty range given by forward or reverse iterators equal the least/greatest extracted key of the elements in it under the mixin's comparator. min_element/max_element (all forms) return an iterator inside the range whose key is that value. This holds after any history of edits of any kind and for every extractor and comparator.",
 ["histories","inputs","configurations"],"every edit history, every sub-range, every extractor and comparator",
 "Tests take minima of a few ranges on freshly built trees; cached child extrema that go stale when the extreme element is erased, overwritten, or moved by a split are invisible unless a range covers exactly that child.",
 [I+"min.hpp",I+"max.hpp",D+"minmax.hpp",D+"minmax2.ipp"],
 [("per-child cached extrema","detail/minmax.hpp"),("range decomposition over paths","detail/minmax.hpp, detail/minmax2.ipp")],
 [("child_mins/child_maxes","extreme key under each child","detail/minmax.hpp")],["min, max, min_element, max_element over whole trees and ranges"])

prop("C08","Iterators move, compare and dereference like positions in the sequence",
 "For forward, reverse, const and non-const iterators of Transient and Persistent trees, ++, --, +=, -=, +, - and it[n] by any distance that stays within [begin, end] (reverse: [rbegin, rend]) reach exactly the corresponding position and dereference to its element, including moving on to and back off end()/rend(), and moving a forward iterator past the end of a non-empty tree saturates there. ==, !=, <, <=, >, >= agree with the positions in traversal direction (a strict total order), and valid() is true exactly on elements.",
 ["inputs","histories","configurations"],"every position, every distance, every tree shape and iterator kind",
 "Tests step by one and compare with end(); jumps across several levels, jumps from end(), reverse arithmetic and the relational operators of reverse iterators are not exercised.",
 [D+"iterator.hpp",D+"internalnodebase.hpp",D+"leafnodebase.hpp",D+"indexed_detail.hpp",I+"bpptree.hpp"],
 [("path-encoded position","detail/iterator.hpp iter"),("advance through levels","detail/internalnodebase.hpp, detail/indexed_detail.hpp, detail/leafnodebase.hpp"),("relational operators","detail/iterator.hpp")],
 [("iter","packed child indexes, one field per level","detail/iterator.hpp")],["dereferenced values, comparisons, valid()"])

prop("C09","Iterators follow edits as documented",
 "After an insert through an iterator that iterator denotes the inserted element, and after an erase it denotes the element that followed the erased one in its own direction (end()/rend() if there was none), for forward and reverse iterators alike. Assigning or updating elements (through iterators, keys, indexes or proxies), and taking snapshots, leave every iterator of the tree denoting the same position and reading its current value, even when the edit had to copy shared nodes.",
 ["histories","configurations"],"every edit position and tree shape, with any number of other live iterators and snapshots",
 "One test loops over insert/erase through a forward iterator on a tree without snapshots; repositioning across node boundaries, splits at several levels, shared nodes and reverse iterators are not compared.",
 [I+"bpptree.hpp",D+"iterator.hpp",D+"leafnodebase.hpp",D+"internalnodebase.hpp",D+"modify.hpp"],
 [("new position reported by edits","bpptree.hpp insert/erase, detail/modify.hpp ret"),("carry and split side","detail/helpers.hpp Replace/Split"),("mod_count re-seat of the cached leaf","detail/iterator.hpp fix_leaf")],
 [("mod_count","edits since construction","bpptree.hpp Transient"),("leaf","cached leaf of an iterator","detail/iterator.hpp")],["position and value of the iterator used for the edit and of bystander iterators"])

prop("C10","No legal use touches bad memory or executes undefined behaviour",
 "No sequence of documented operations on any combination of trees, iterators and snapshots, for any conforming element type, node size and mixin set, reads or writes memory outside a live object, uses freed or uninitialised memory, or executes undefined behaviour.",
 ["histories","inputs","configurations"],"every legal history, element type (trivial, heap-owning, over-aligned, move-only where possible), node size and mixin set",
 "The suite runs uninstrumented: an out-of-bounds slot, a use after free of a node or a read of a never-written slot usually returns a plausible value.",
 [D+"uninitialized_array.hpp",D+"leafnodebase.hpp",D+"internalnodebase.hpp",D+"nodeptr.hpp",D+"iterator.hpp",D+"ordered_detail.hpp"],
 [("manual element lifetime","detail/uninitialized_array.hpp"),("intrusive reference counts","detail/nodeptr.hpp"),("leaf pointer cache","detail/iterator.hpp")],
 None,["AddressSanitizer, UndefinedBehaviorSanitizer, MemorySanitizer and memcheck reports"])

prop("C11","Elements are constructed and destroyed exactly once and never leak",
 "At every quiescent point the live element objects held by trees are exactly those reachable from live trees: a lone tree of n elements holds exactly n, and when the last tree goes away every element, key copy and node has been destroyed exactly once. No element is read, assigned or destroyed before its construction or after its destruction, and no live element is overwritten by a second construction, for in-place and copy-on-write edits alike.",
 ["histories","configurations"],"every history of edits, snapshots, conversions and destructions over non-trivial element and key types",
 "Only one test uses a counting type and only on the array helper; leaks, double destructions and constructions over live objects cause no assertion failure.",
 [D+"uninitialized_array.hpp",D+"leafnodebase.hpp",D+"internalnodebase.hpp",D+"nodeptr.hpp",D+"ordered_detail.hpp"],
 [("set/emplace choose between assignment and construction by length","detail/uninitialized_array.hpp"),("destructors destroy [0,length)","detail/leafnodebase.hpp, detail/ordered_detail.hpp"),("reference counts","detail/nodeptr.hpp")],
 None,["event log of every element's construction, copy, move, assignment and destruction"])

prop("C12","Persistent trees can be shared and derived from across threads",
 "Threads that hold Persistent trees sharing structure may concurrently read and iterate them, copy, assign and destroy their own handles, and create and edit Transients and new Persistents from them, without data races, and each thread observes exactly the results a single-threaded execution of its own operations would give. Whichever thread drops the last reference to shared nodes, they are released once and only after every other thread's use.",
 ["schedules","histories"],"every interleaving of such threads",
 "No test starts a thread.",
 [D+"nodeptr.hpp",D+"leafnodebase.hpp",D+"internalnodebase.hpp",D+"nodetypes.hpp",I+"bpptree.hpp"],
 [("atomic reference count, release decrement and acquire fence","detail/nodeptr.hpp"),("persistent nodes are never written","detail/leafnodebase.hpp, detail/internalnodebase.hpp")],
 [("ref_count","owners of a node","detail/nodetypes.hpp NodeBase")],["ThreadSanitizer reports; per-thread comparison with a sequential model"])

prop("C13","Safety checks reject misuse with an exception and change nothing",
 "With safety checks compiled in, assigning, updating, erasing or reading an absent key, updating a key's element so that its key would change, assigning through operator[] an element whose key differs, ordering iterators of two different trees, asking for a min/max over an empty tree or range, and inserting into a tree whose depth is exhausted each throw the documented std::logic_error/std::out_of_range, and never do so for legal arguments. After the throw every tree involved is observably unchanged and remains fully usable.",
 ["inputs","histories","configurations"],"every misuse at every position of every tree shape",
 "The tests provoke a few of these throws on one tree and do not look at the tree afterwards.",
 [D+"ordered_detail.hpp",I+"ordered.hpp",D+"iterator.hpp",D+"minmax.hpp",D+"minmax2.ipp",D+"modify.hpp"],
 [("BPPTREE_SAFETY_CHECKS blocks","detail/ordered_detail.hpp, ordered.hpp, detail/iterator.hpp, detail/minmax.hpp, detail/modify.hpp")],
 None,["exception type and full tree state before and after"])

prop("C14","An exception thrown by user code during an edit leaves the trees intact",
 "If an updater passed to update, update_key or update_index (or to a proxy operator) throws, or the Ordered comparator throws during any keyed lookup or edit, the exception reaches the caller, every Transient and Persistent involved is observably unchanged (contents, size, sums, minima, indexes), and all of them remain fully usable.",
 ["fault_sequences","histories"],"every call of a user callback as the throwing one, at every tree shape, with and without shared nodes",
 "No test throws from a callback.",
 [D+"leafnodebase.hpp",I+"ordered.hpp",D+"ordered_detail.hpp",D+"modify.hpp"],
 [("callbacks run before any write","detail/leafnodebase.hpp update/update2, detail/ordered_detail.hpp insert_or_assign")],
 None,["exception identity; complete observable state before and after"])

prop("C15","Operations stay logarithmic and snapshots share structure",
 "The work of every lookup, edit, index, prefix-sum, min/max-range and iterator-distance operation on a tree of n elements grows with its depth (logarithmically in n), not with n; taking a snapshot copies no elements, and an edit after a snapshot copies only the nodes on the path it edits, while an edit of unshared nodes that splits nothing allocates nothing. Snapshots that differ by k edits therefore hold O(k log n) extra nodes, and a snapshot taken after few edits costs work proportional to those edits, not to n.",
 ["inputs","histories","configurations"],"every tree size, position and history",
 "Tests check results only; a change that copies whole trees, re-marks every node at each snapshot, or scans linearly passes all of them. Cost is measured here in allocations, element copies, comparisons and executed code edges, never in time.",
 [I+"bpptree.hpp",D+"internalnodebase.hpp",D+"leafnodebase.hpp",D+"indexed_detail.hpp",D+"summed_detail.hpp",D+"minmax.hpp",D+"ordered_detail.hpp"],
 [("path copying","detail/leafnodebase.hpp, detail/internalnodebase.hpp"),("make_persistent stops at persistent nodes","detail/internalnodebase.hpp"),("mixin metadata per child","detail/*_detail.hpp, detail/minmax.hpp")],
 None,["operator new calls, element copies/moves, comparator calls, executed edges (trace-pc-guard)"])

prop("C16","Arguments are taken by value semantics, even when they alias the tree",
 "An edit whose arguments refer to elements (or keys inside elements) of the very tree being edited, or of a snapshot sharing nodes with it, has the same effect as the same edit with separate copies of those arguments. Arguments passed as lvalues are never modified, arguments passed as rvalues are used at most once, and every argument form (element, key and value, piecewise or constructor arguments) stores the same element.",
 ["inputs","histories","configurations"],"every edit and argument form, every alias of an existing element, every tree shape",
 "No test passes a reference into the tree back to it; the effect depends on where the element sits relative to the insertion point and on whether the leaf is full or shared.",
 [D+"leafnodebase.hpp",D+"uninitialized_array.hpp",I+"bpptree.hpp",I+"ordered.hpp",I+"indexed.hpp"],
 [("arguments forwarded to the leaf","detail/operations.hpp, detail/leafnodebase.hpp"),("element built before the old ones are shifted or destroyed","detail/leafnodebase.hpp insert_no_split/insert_split, detail/uninitialized_array.hpp emplace_unchecked")],
 None,["contents, sums, minima and indexes after the edit; the arguments after the call"])

prop("C17","Proxy references act like references to the element",
 "tree[key], tree[index] and *it on a Transient behave as a reference to the mapped value or element: reading gives the current value, =, compound assignments and pre/post ++/-- store and return what they would on a plain reference, binary and comparison operators give what the plain values give, and swap exchanges two elements. Every write through a proxy updates all mixin metadata and never reaches a snapshot.",
 ["inputs","histories","configurations"],"every operator, operand, element position and tree shape",
 "One test applies each operator once to a tiny single-leaf tree without other mixins or snapshots.",
 [D+"proxy_operators.hpp",I+"ordered.hpp",I+"indexed.hpp",D+"iterator.hpp"],
 [("ProxyOperators","detail/proxy_operators.hpp"),("ProxyRef of key, index and iterator","ordered.hpp, indexed.hpp, detail/iterator.hpp")],
 None,["returned values and full tree state after each operator"])

prop("C18","Results do not depend on tuning parameters",
 "The same history of operations gives the same observable results - contents, lookups, positions, sums, minima and which exceptions are thrown - whatever the leaf and internal node sizes, the depth limit (while the tree fits), linear or binary search, the order in which mixins or options are listed, the presence of further mixins, and whether safety checks are compiled in (for legal histories).",
 ["configurations","histories"],"every pair of configurations over every history both can hold",
 "Each test fixes one configuration; nothing compares two.",
 [D+"nodetypes.hpp",D+"sandwich.hpp",D+"ordered_detail.hpp",D+"internalnodebase.hpp"],
 [("node sizes derived from byte budgets","detail/nodetypes.hpp"),("mixin chain","detail/sandwich.hpp"),("binary and linear search","detail/ordered_detail.hpp")],
 None,["digest of all results of one history per configuration"])

prop("C19","Standard algorithms and range use over the iterators are correct",
 "Range-for and the standard algorithms whose requirements the iterators' advertised category meets (copy, find, accumulate, distance/advance/next/prev, lower_bound, reverse, rotate, sort, swap_ranges, copy into a tree, ...) give on tree iterators, forward or reverse, the results they give on a std::vector of the same elements, and leave all mixin metadata consistent when they write. Transient and Persistent iterators of an indexed tree advertise random access and those of other trees bidirectional access.",
 ["inputs","configurations"],"every tree content and shape, every range",
 "Tests call sort and a couple of algorithms on one small tree.",
 [D+"iterator.hpp",I+"bpptree.hpp"],
 [("iterator traits","detail/iterator.hpp"),("proxy swap and assignment","detail/iterator.hpp ProxyRef")],
 None,["algorithm results and tree state vs. std::vector"])

prop("C20","The inverted index returns exactly the documents inserted per term",
 "For any history of insert(term, doc) on the example inverted index, in its Transient and Persistent forms, the terms listed are exactly the distinct terms in order, each with its number of distinct documents, and iterating a term's documents (by term or by term iterator) gives exactly those inserted for it, sorted, without duplicates; an absent term has an empty range. Snapshots keep their answers under later inserts.",
 ["histories","inputs"],"every sequence of (term, document) pairs",
 "One test inserts a fixed list in one order and never asks for absent terms or uses the Persistent form.",
 ["examples/inverted_index.hpp",I+"summed.hpp",I+"indexed.hpp",I+"ordered.hpp"],
 [("prefix sums locate a term's slice of the document vector","examples/inverted_index.hpp term_doc_iterator")],
 None,["term list, counts and documents per term"])

prop("C21","Trees grow to their stated capacity and shrink back",
 "depth() never exceeds max_depth(), a tree filled by push_back alone reaches its full max_size() and answers correctly at every size up to it, and a tree whose elements are removed loses depth again: with fewer than two elements its depth is 1. An emptied or cleared tree behaves exactly as a new one. No node takes more memory than the leaf_node_bytes or internal_node_bytes its tree was configured with.",
 ["histories","configurations"],"every history of growth and shrinkage, every node size and depth limit",
 "No test fills a tree to its limit, works at depth above four, or looks at depth() after erasures.",
 [D+"modify.hpp",D+"nodetypes.hpp",D+"leafnodebase.hpp",D+"internalnodebase.hpp",I+"bpptree.hpp"],
 [("right-most splits leave full nodes behind","detail/leafnodebase.hpp insert_split, detail/internalnodebase.hpp"),("collapse of one-child roots","detail/modify.hpp collapse"),("max_size computation","detail/nodetypes.hpp")],
 None,["depth, max_depth, max_size, size, insertion at the limit"])
json
with open("/verif/properties.jsonl","w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
