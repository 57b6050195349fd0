#!/usr/bin/env python3
# Writes /verif/properties.jsonl.  The list is data; this only keeps it readable.
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None,hook=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=hook
    P.append(d)

# ------------------------------------------------------------------ concurrency
p("C01","The synchronised map is linearizable and race-free",
 "Every operation of the goroutine-safe map (Get, Has, Size, Keys, Values, Set, Delete, Clear) appears to take effect atomically at one instant between its call and its return, with exactly the result a plain map would give at that instant. Concurrent use from any number of goroutines causes no data race, crash or deadlock, and the slices returned by Keys and Values are private snapshots.",
 ["schedules","histories"],"all interleavings of up to 3-4 goroutines issuing 1-3 overlapping operations on colliding keys",
 "The package has no test at all; a unit test samples one interleaving, and a missing lock only shows in a few.",
 ["dsx/mapx/syncmapx/syncmapx.go"],[("one RWMutex around every access of the inner map","dsx/mapx/syncmapx/syncmapx.go")],
 ["results of the exported methods"])
p("C02","Worker pool runs every accepted task exactly once",
 "Every task for which the goroutine pool's Run returned true is passed to the handler exactly once, with its own value, and a task for which Run returned false is never passed to it. This holds for every interleaving of concurrent submitters, task completions, idle-worker collection, preheated workers and a concurrent Stop, none of which may panic, deadlock or race on memory.",
 ["schedules","histories"],"all interleavings (bounded deviations) of submitters, workers, the collector's timer ticks and Stop",
 "Tests submit from one goroutine and stop only after submitting; the races between hand-off, idle collection, worker reuse and Stop are schedule-dependent and the suite pins the package to -cpu 1.",
 ["poolx/gopoolx/timedpool.go","syncx/syncpoolx/syncpoolx.go"],[("idle list and draining flag under one mutex","poolx/gopoolx/timedpool.go: Run, free, start"),("buffered hand-off channel per worker","poolx/gopoolx/timedpool.go: timedworker.ch")],
 ["handler invocations versus Run results"])
p("C03","Worker pool never exceeds its limit and refuses only when full or stopped",
 "At no instant does a pool built with maximum N run more than N handlers at once or report more than N workers, whatever the preheat count. While fewer than N tasks are in progress and the pool has settled and has not been stopped, Run is accepted; while N tasks are in progress it is refused; invalid constructor arguments (non-positive limit, idle timeout or collection period, nil handler) are refused with an error.",
 ["schedules","histories","configurations"],"all interleavings of submitters, workers and collector ticks, for N in 1..3 and preheat in 0..N+2",
 "Tests use an unlimited maximum, so the limit and the refusal path are never exercised.",
 ["poolx/gopoolx/timedpool.go"],[("worker count checked and incremented under the mutex","poolx/gopoolx/timedpool.go: Run"),("preheat","poolx/gopoolx/timedpool.go: start")],
 ["Run results, Workers(), handlers in flight"])
p("C04","Worker pool drains: no worker outlives idleness or Stop",
 "Once Stop has been called and the accepted tasks have finished, every goroutine of the pool ends, Workers() reports 0 and every later Run is refused; calling Stop again, sequentially or concurrently, returns without blocking or crashing. Without Stop, a worker that stays idle past the idle timeout is retired by the collector, Workers() falls back to 0 once all are idle that long, a worker idle for less than the timeout is kept for reuse, and the pool keeps accepting tasks afterwards.",
 ["schedules","histories"],"all interleavings (bounded deviations) of submitters, workers, collector ticks and one or two Stops",
 "Tests sleep for seconds and look once; a leaked or double-counted worker appears only in particular orders of start-up, collection and Stop.",
 ["poolx/gopoolx/timedpool.go"],[("collector goroutine closing idle workers' channels","poolx/gopoolx/timedpool.go: start"),("free() seeing the draining flag","poolx/gopoolx/timedpool.go: free")],
 ["Workers(), live goroutines, Run after Stop"])
p("C05","Ring decoupler delivers or drops every write exactly once, intact",
 "Every non-empty payload written to the decoupler is either handed to the consumer exactly once, byte for byte as it was when Write was called (even if the writer reuses its buffer afterwards), or passed exactly once to the drop function, whose result Write returns; never both and never neither. An empty payload always goes to the drop function. This holds for any number of concurrent writers with one consumer, without data races.",
 ["schedules","histories"],"all interleavings (bounded preemptions) of 2-3 writers and one consumer on rings of size 1..3, and all sequential write/next histories to depth 12+",
 "The tests are single-threaded and never look at payload contents; slot claiming, publication and length accounting only go wrong between particular atomic steps.",
 ["iox/decouplex/decouple.go"],[("compare-and-swap slot claim, timestamp publication","iox/decouplex/decouple.go: Write"),("slot release","iox/decouplex/decouple.go: Next")],
 ["view callback, drop callback, return values"])
p("C06","Ring decoupler is FIFO, drops only when full, and never strands data",
 "Payloads whose writes do not overlap in time are delivered in write order. A non-empty payload is dropped only if the ring already holds as many undelivered (or in-progress) payloads as its size. Next returns false only if nothing is pending, and once every write has returned it never blocks: repeated Next calls deliver everything stored and then return false.",
 ["schedules","histories"],"all sequential write/next histories to depth 12+ on rings of size 1..5, and all interleavings (bounded preemptions) of writers and one consumer",
 "Tests drain completely after each burst; position skew after a drop needs a partial drain, and ordering needs particular interleavings.",
 ["iox/decouplex/decouple.go"],[("write and read positions modulo the size","iox/decouplex/decouple.go"),("length counter","iox/decouplex/decouple.go")],
 ["order of view callbacks, Next results"])
p("C07","Lazy value is constructed once and published safely",
 "A lazy value's constructor runs at most once, and not before the first Get; every Get, from any goroutine and under any interleaving, returns the value that one run produced, fully constructed, and only after it is complete. No data race or deadlock occurs, and separate lazy values are independent.",
 ["schedules"],"all interleavings of 2-4 goroutines calling Get",
 "There is no test; duplicated construction or early publication needs a preemption inside the first Get.",
 ["functionalx/lazyx/lazy.go"],[("sync.Once around the constructor","functionalx/lazyx/lazy.go: Get")],["constructor runs, Get results"])
p("C08","Sleeper: one sleep at a time, exact wake-up, no lost wake-up",
 "While one sleep is in progress, every other sleep call on the same sleeper returns false at once. A sleep returns true exactly when its time is reached (SleepFor(n): n seconds after the call; SleepUntil(t): at t, at once if t has passed) or when it is woken, SleepForever only when woken; a Wakeup that reports true ends the sleep in progress and does not shorten any later sleep, and a Wakeup that reports false changes nothing. This holds under every interleaving, without data race, and the sleeper is reusable afterwards.",
 ["schedules","histories"],"all interleavings (bounded deviations) of 1-3 sleepers, 1-2 wakers and the timer, plus all sequential histories of sleep/wake/timer events",
 "The one use in tests sleeps once with no concurrent wake-up; a lost wake-up needs Wakeup between the sleeper's claim and its wait.",
 ["timex/sleepx/sleepx.go"],[("slept flag claimed by compare-and-swap","timex/sleepx/sleepx.go"),("cancelled and replaced context","timex/sleepx/sleepx.go: Wakeup")],["return values and virtual wake-up instants"])
p("C09","Conversion registry is linearizable, race-free and deadlock-free",
 "Register, Unregister, Exists, Into and IntoOr behave, under any interleaving, as atomic operations on one table from (source type, target type) to converter, with any Go types (interfaces included, types of the same name or structure told apart): the last registration wins, a missing or unregistered pair yields not-found (or the caller's default), and a conversion uses a converter registered at some instant of the call and applies it exactly once to the given value. A converter may itself convert, register or unregister without deadlock, and no data race occurs.",
 ["schedules","histories"],"all interleavings of 2-3 goroutines registering, unregistering and converting, including converters that re-enter the registry; all sequential histories to depth 5-6",
 "The package has no test; re-entrant conversion deadlocks only when a writer queues between the two read acquisitions.",
 ["typex/convx/convx.go"],[("package RWMutex around the converters table","typex/convx/convx.go")],["results of the exported functions"])
p("C10","Pointer lock gives exclusive access and always completes",
 "For every value, Lock(l, f) calls f exactly once with l and returns after f does; calls for the same l from any goroutines never overlap, calls for different l do not wait for each other (also when nested), and changes made by f to the value are visible to later holders and preserved. If f returns by panicking, the lock is not left held.",
 ["schedules"],"all interleavings (bounded preemptions) of 2-3 goroutines locking one or two values",
 "The package has no test; exclusion failures need a particular interleaving.",
 ["syncx/lockx/lockx.go"],[("compare-and-swap acquire/release","syncx/lockx/lockx.go: Lock")],["f invocations and the protected value"])
p("C11","Close manager closes everything once, in order, and reports every error",
 "One Close of a close manager calls Close exactly once on every closer whose Append returned before it began, in the order they were appended, whatever errors they return. It returns nil if and only if none failed, and otherwise an error list with exactly their errors, in order, recoverable with AsErrs and readable in its text; Append and Close may be called concurrently without losing a closer or racing, and the package-level default manager behaves the same.",
 ["schedules","fault_sequences"],"all fault patterns of up to 5 closers and all interleavings of concurrent Append and Close calls",
 "The package has no test; each failing subset and each interleaving is a separate case.",
 ["iox/managerx/closex/manager.go","iox/managerx/closex/types.go","iox/managerx/closex/default.go"],[("mutex around the list","iox/managerx/closex/manager.go"),("ErrorList","iox/managerx/closex/types.go")],["Close calls seen by the closers, returned error"])
p("C12","Scoped closing runs every closer exactly once however the body ends",
 "Running a function under scoped closing calls it exactly once and afterwards closes every given closer exactly once, in the order given, whether the function returns, panics or ends its goroutine, and whatever errors the closers return. On normal return the result is nil if no closer failed and otherwise exactly the closers' errors in order; a panic of the function is not swallowed.",
 ["fault_sequences","inputs"],"all patterns of error/success over up to 6 closers times all ways the body can end",
 "The package has no test; the interesting cases are combinations of a failing body and failing closers.",
 ["iox/usingx/using.go"],[("deferred close loop","iox/usingx/using.go: Close")],["Close calls, order, returned errors"])
p("C13","Termination-signal handler runs once and never crashes",
 "After installing the handler, the first interrupt, quit or termination signal runs the handler exactly once and then closes the notification channel, never before the handler has finished; other signals do nothing. Any further signals, in any number and at any time, neither run it again nor crash the process.",
 ["fault_sequences","schedules"],"all sequences of up to 4 signals over the handled kinds and an unhandled kind, under all interleavings with the handling goroutine",
 "There is no test; a second signal during or after shutdown is exactly what tests do not send.",
 ["osx/closex/closex.go"],[("goroutine over the signal channel","osx/closex/closex.go: HandleKillSig")],["handler runs, state of C"])
p("C14","Typed object pool hands an object to one holder at a time",
 "An object obtained from the typed pool is never handed to a second holder before it has been put back, and is always either one previously put back (with the contents it had) or freshly built by the initialiser. This holds for every interleaving of Get and Put and every permitted choice of the underlying pool, including dropping objects.",
 ["schedules","histories"],"all Get/Put histories to depth 8, all underlying-pool choices, and all interleavings of 2-3 goroutines",
 "There is no test; which object the runtime pool returns is nondeterministic.",
 ["syncx/syncpoolx/syncpoolx.go"],[("wrapper around sync.Pool","syncx/syncpoolx/syncpoolx.go")],["identity and contents of objects"])

# ------------------------------------------------------------------ sequential structures
H="histories"
p("D01","Linked queue is a first-in first-out queue",
 "For every sequence of operations, and whatever nodes the internal pool recycles, the linked queue behaves as a FIFO sequence: Dequeue returns and removes the oldest value, Peek returns it without removing it, both report false exactly when the queue is empty, IsEmpty agrees, and Enqueue always succeeds.",
 [H],"all operation sequences (all reachable states up to 6 elements, histories to depth 12+), all pool reuse choices",
 "The package has no test; node recycling depends on the history and on the runtime pool.",
 ["dsx/linkedx/queuex/queuex.go"],[("head/tail links, node pool","dsx/linkedx/queuex/queuex.go")],["method results"])
p("D02","Linked stack is a last-in first-out stack",
 "For every sequence of operations, and whatever nodes the internal pool recycles, the linked stack behaves as a LIFO sequence: Pop returns and removes the newest value, Peek returns it without removing it, both report false exactly when the stack is empty, Len is the number of elements and Push always succeeds.",
 [H],"all operation sequences (all reachable states up to 6 elements, histories to depth 12+), all pool reuse choices",
 "The package has no test; node recycling depends on the history and on the runtime pool.",
 ["dsx/linkedx/stackx/stackx.go"],[("head link, length, node pool","dsx/linkedx/stackx/stackx.go")],["method results"])
p("D03","Linked list is an indexable sequence",
 "For every sequence of Append, Insert, Remove, At, Iterate and Len, and whatever nodes the internal pool recycles, the linked list equals the sequence those operations define: Append adds at the end, Insert(i) for 0<=i<=Len places the value at position i, Remove(i) and At(i) act on position i and report false exactly when i is outside 0..Len-1. Operations with an out-of-range position change nothing, and Iterate visits in order until told to stop.",
 [H,"inputs"],"all operation sequences over all positions -1..Len+2 (all reachable states up to 5 elements, histories to depth 8+), all pool reuse choices",
 "One test inserts and removes in the middle of a long list; ends, empty lists and failed operations are where links and length drift apart.",
 ["dsx/linkedx/listx/listx.go"],[("head/tail links, length, node pool","dsx/linkedx/listx/listx.go")],["method results"])
p("D04","Deque is a double-ended sequence across its chunk boundaries",
 "For every sequence of pushes, pops and peeks at both ends, and whatever chunks the internal pool recycles, the deque equals a double-ended sequence: each pop returns and removes, and each peek returns, the value at that end, and both report false exactly when the deque is empty. This includes emptying it from either end and refilling it, and crossing internal chunk boundaries in either direction.",
 [H],"all sequences of push/pop runs at both ends with run lengths around the chunk size, all short operation sequences, all pool reuse choices",
 "The test fills once and alternates pops from both ends until exactly empty, never reusing a chunk or an emptied deque.",
 ["dsx/linkedx/dequex/dequex.go"],[("64-slot chunks, start/end cursors, chunk pool","dsx/linkedx/dequex/dequex.go")],["method results"])
p("D05","Ring queue is a bounded FIFO of exactly its capacity",
 "A ring queue built with capacity n accepts exactly n elements before Enqueue reports false without changing it, and for every sequence of operations is otherwise a FIFO: Dequeue, Peek, Head, IsEmpty, IsFull and Cap agree with that model after any number of wrap-arounds, and nothing panics.",
 [H,"configurations"],"all reachable states for capacities 1..6 and all operation sequences to depth 12+",
 "The test fills each ring once and drains it once, never wrapping around.",
 ["dsx/slicex/queuex/queuex.go"],[("head/tail indices modulo capacity+1","dsx/slicex/queuex/queuex.go")],["method results"])
p("D06","Slice-backed stack and list equal their models",
 "For every sequence of operations, the slice-backed stack is a LIFO (Push, Pop, Peek, IsEmpty, Len) and the slice-backed list is an indexable sequence (Append, Insert at 0..Len and doing nothing elsewhere, Remove and At reporting false and changing nothing when out of range, Iterate in order until stopped, Len, Cap at least Len). Both give the same results as the linked implementations of the same interfaces for the same operations.",
 [H,"inputs"],"all operation sequences to depth 7-8 over all positions",
 "One short push-then-pop test; the list has none.",
 ["dsx/slicex/stackx/stackx.go","dsx/slicex/listx/listx.go","dsx/dsx.go"],[("append/copy over a slice","dsx/slicex/listx/listx.go"),("append/truncate","dsx/slicex/stackx/stackx.go")],["method results"])
p("D07","Slice editing matches its model and never panics for any index",
 "For every slice and every integer argument, including negative, huge and extreme ones, the slice helper's editing and reading operations (Set, Get, Slice, Splice, Expand, Insert, Cut, Delete, DeleteReplace, Push, Pop, Shift, UnShift, Extend, Clear, Reverse, Rotate, Filter, Repeat, Split, Batch, Join, IndexOf, Contains, Each, ForEach, Len, Finalize) never panic and produce exactly what the documented clamping rules give on a plain sequence: positions are clamped into range, swapped bounds are exchanged, Delete outside the slice does nothing, Rotate(n) rotates left by n modulo the length. Sizes and counts whose result cannot fit in memory are excepted. Shuffle yields a permutation of the same elements, and every permutation is possible.",
 ["inputs",H],"all slices up to length 6 with spare capacity 0..3, all index arguments in -len-2..len+2 and the extreme integers, all operation sequences to depth 2-3",
 "Tests are tables of single calls on length-3 slices.",
 ["dsx/slicex/slicex.go"],[("preprocIndexException clamping","dsx/slicex/slicex.go"),("append-based splicing","dsx/slicex/slicex.go: Splice")],["resulting elements"])
p("D08","Slice operations do not corrupt values they do not own",
 "A Copy is independent: no later operation on either the original or the copy changes the other. The values passed to Splice, Expand and Insert, including the caller's backing array beyond them, are left unmodified, and are inserted correctly even when they come from the slice being edited; Split, Batch, Get, IndexOf, Contains, Each, ForEach and Join leave the slice unmodified, and a failed or clamped edit loses no element.",
 ["inputs",H],"all slices up to length 5 with spare capacity 0..4, all argument slices with spare capacity, all one- and two-step operation sequences",
 "Tests compare only the resulting slice; sharing of backing arrays shows only with spare capacity.",
 ["dsx/slicex/slicex.go"],[("fresh backing array in Copy","dsx/slicex/slicex.go: Copy"),("append-based splicing","dsx/slicex/slicex.go: Splice")],["contents of original, copy and argument arrays"])
p("D09","Skip-list map is a sorted map",
 "For every sequence of operations, every ordered key type and every random tower height, the skip-list map equals a sorted map: Get, Set (insert or overwrite), Del (reporting whether the key was present), Len, Clear, ToMap and String agree with the model, and Keys and Values list the entries in ascending key order. Separate maps do not influence each other.",
 [H,"inputs"],"all reachable states over 4-5 keys with all tower heights up to 3-4, all operation sequences to depth 6-7 over several seeds, int, string and float keys",
 "One scenario with six keys; a wrong link at a higher level shows only for particular height combinations.",
 ["dsx/mapx/sklmapx/sklmapx.go","dsx/mapx/sklmapx/splitmix64.go"],[("search with per-level predecessors","dsx/mapx/sklmapx/sklmapx.go: search/insert/delete"),("random tower heights","dsx/mapx/sklmapx/sklmapx.go: rand_height")],["method results"],
 hook="tower-height choices, intercepted by the build overlay")
p("D10","Skip-list iterator walks in order, seeks exactly and ends cleanly",
 "An iterator yields the entries in ascending key order, each exactly once, and then reports false on every further Next until it is rewound or re-seeked; Seek(k) reports the entry of k if present (and the following Next calls continue after it) and false otherwise, and Rewind restarts from the smallest key. Several iterators over one map are independent, overwriting values during iteration is seen, and deleting entries, the current one or others, or clearing the map does not disturb the walk: it never yields an entry that is not in the map, nor passes over one that was there all along, and it ends.",
 [H],"all sequences of Next/Seek/Rewind (and insertions, updates, deletions and Clear) to depth 6-7 on all maps over up to 5 keys",
 "The test walks to the end once and never calls Next again afterwards.",
 ["dsx/mapx/sklmapx/sklmapx.go"],[("cursor node compared with the tail sentinel","dsx/mapx/sklmapx/sklmapx.go: Iterator")],["Next/Seek results"],
 hook="tower-height choices, intercepted by the build overlay")
p("D11","Ordered map is a sorted map with consistent views",
 "For every sequence of Set, Del and Clear, the ordered map equals a sorted map: Len, Get, Keys, Values and Range agree with each other and with the model, Keys, Values and Range follow ascending key order with each key paired with its latest value, Range stops exactly when asked, and the callback may change the map: an entry not in the map is never visited, and none that was there all along is passed over.",
 [H],"all operation sequences to depth 6-7 over 4 keys and 2 values, all stop positions, all changes by the callback",
 "The package has no test; the hash map and the skip list can drift apart only over a history.",
 ["dsx/mapx/ordmapx/ordmapx.go","dsx/mapx/sklmapx/sklmapx.go"],[("hash map for values, skip list for order","dsx/mapx/ordmapx/ordmapx.go")],["method results"])
p("D12","Bit set is a set of bit positions",
 "For every unsigned width and every sequence of operations, the bit set equals a set of positions below its width: Set, Clear and Toggle with any list of positions (Toggle applying repeated positions repeatedly) change exactly those members, Test reports whether any listed position is a member, IsEmpty and IsFull report exactly the empty and the full set, and SetAll, ClearAll and ToggleAll act on every position. Positions at or above the width are never members and change nothing.",
 [H,"inputs"],"all 256 states of the 8-bit set under every operation with every position list up to length 3; boundary states and positions for 16, 32, 64-bit and named types",
 "The package has no test.",
 ["dsx/setx/bitsetx/bitsetx.go"],[("shift and mask","dsx/setx/bitsetx/bitsetx.go")],["method results"])

# ------------------------------------------------------------------ algorithms
p("A01","Sorting gives the ordered permutation, stably where promised",
 "Every sort leaves the slice a permutation of its input in the requested order: ascending for Sort and SortStable, descending for SortReverse, SortStableReverse and Sort with reverse set, and by the given comparison for the custom forms, where the stable forms keep equal elements in input order. IsSorted, IsSortedReverse and IsSortedCustom report true exactly for slices already in that order.",
 ["inputs"],"all sequences up to length 6-8 over small alphabets and all two-valued sequences up to length 16",
 "The package has no test.",
 ["algox/sortx/sortx.go"],[("delegation to the comparison sort with the right comparator","algox/sortx/sortx.go")],["resulting order"])
p("A02","Binary search finds present keys and the insertion point of absent ones",
 "On every slice sorted by the order used, Search and SearchCustom report found exactly when the key is present, and return the smallest position whose element is not less than the key (the length if none); the slice is not modified.",
 ["inputs"],"all sorted slices up to length 8-10 with duplicates over a small alphabet, all keys in, between and beyond",
 "The package has no test.",
 ["algox/searchx/searchx.go"],[("delegation to binary search with a three-way comparison","algox/searchx/searchx.go")],["index and found flag"])

# ------------------------------------------------------------------ crypto
p("X01","AES helpers decrypt exactly what they encrypted",
 "For every key (of any length, also empty) and every plaintext, decrypting with the same mode and key the result of a successful encryption gives the plaintext back, in CBC, CTR and GCM. Encryption succeeds for every plaintext in CTR and GCM and for every whole number of cipher blocks in CBC, where any other length is refused with an error; inputs are not modified and the ciphertext follows the published layout (fresh IV or nonce first, AES-256 under the SHA-256 of the key). Calls, concurrent ones included, do not influence each other's results.",
 ["inputs"],"all plaintext lengths 0..80 and block-boundary lengths beyond, all key lengths 0..40, content patterns, all three modes; cross-checked against the standard library",
 "The package has no test.",
 ["cryptox/aesx/cbcx.go","cryptox/aesx/ctrx.go","cryptox/aesx/gcmx.go"],[("IV or nonce prefixed to the ciphertext","cryptox/aesx")],["outputs and errors"])
p("X02","GCM decryption rejects every modified ciphertext",
 "Authenticated decryption succeeds only for the exact bytes produced by encryption under the same key: every single-bit change, truncation or extension of the ciphertext, nonce or tag, every splice of two ciphertexts and every different key is refused with an error and yields no plaintext.",
 ["inputs","fault_sequences"],"every single-bit flip, every truncation and short extension, all two-ciphertext splices and key bit flips, for all plaintext lengths 0..40",
 "The package has no test; each position of the message is a separate case.",
 ["cryptox/aesx/gcmx.go"],[("GCM open over nonce-prefixed data","cryptox/aesx/gcmx.go: DecryptGCM")],["error and plaintext"])
p("X03","AES decryption returns errors, not panics, on malformed input",
 "For every byte string, of any length and content, decryption in CBC, CTR and GCM returns a plaintext or an error and never panics; input too short to hold the IV or nonce, and CBC ciphertext that is not a whole number of blocks, are refused with an error.",
 ["inputs"],"all lengths 0..80 for several contents and keys, in all three modes",
 "The package has no test.",
 ["cryptox/aesx/cbcx.go","cryptox/aesx/ctrx.go","cryptox/aesx/gcmx.go"],[("length handling before slicing","cryptox/aesx")],["error and plaintext"])
p("X04","Encryption and hashing use fresh, full-length randomness or fail",
 "Each AES encryption draws a whole fresh IV or nonce, and each password hash a whole fresh salt, from the system's cryptographic random source, and uses every drawn bit, so that two calls with different random draws never share one. If the random source fails, an error is returned and no ciphertext or hash is.",
 ["fault_sequences","inputs"],"all modes and levels; failure of the random source at each draw; each random byte varied in turn; sequences of calls",
 "Tests cannot make the random source fail or observe reuse.",
 ["cryptox/aesx/cbcx.go","cryptox/aesx/ctrx.go","cryptox/aesx/gcmx.go","cryptox/passhashx/passhash.go"],[("crypto/rand reads with error checks","cryptox/aesx, cryptox/passhashx/passhash.go: Hash")],["outputs, errors, bytes drawn"],
 hook="the random source, intercepted by the build overlay")
p("X05","bcrypt helper accepts exactly the hashed password",
 "A password (without NUL bytes) of at most 72 bytes is hashed at no less than the default cost and then accepted, and any other password, including one that only differs after the 72nd byte or only in length, is rejected with an error and false; a longer password is refused both when hashing and when checking. A stored hash that is truncated, no bcrypt hash, or carries another salt or digest yields an error and never a match or a panic.",
 ["inputs"],"passwords of the boundary lengths 0, 1, 70..74 and 100; every single-byte change position class, every truncation and extension; malformed hashes",
 "The package has no test.",
 ["cryptox/bcryptx/bcryptx.go"],[("length limit","cryptox/bcryptx/bcryptx.go: Encrypt, Decrypt")],["result and error"])
p("X06","Password hash verifies exactly the hashed password",
 "For each security level and every password, a fresh hash, binary or base64, verifies with that password and fails verification with every other password; each change of the stored level, salt or digest makes verification fail; an undefined security level is refused. Two hashes of one password differ, and calls, concurrent ones included, do not influence each other.",
 ["inputs"],"all four levels and all 16-bit level values, password pairs over a small exhaustive set, every bit flip of salt and digest, every level substitution",
 "Tests verify one password per level and never a wrong one.",
 ["cryptox/passhashx/passhash.go","cryptox/passhashx/alg.go","cryptox/passhashx/internal/passhash.vstruct.go"],[("level dispatch, constant-time comparison","cryptox/passhashx/passhash.go"),("serialisation","cryptox/passhashx/internal/passhash.vstruct.go")],["Hash/Verify results"],
 hook="the argon2 primitive is replaced by a cheap collision-free stand-in for the wide enumeration")
p("X07","Verifying a malformed stored hash fails cleanly",
 "For every byte string or text given as the stored hash (truncated, with inconsistent or overflowing internal lengths, with an unknown algorithm, or not base64), verification returns an error, never success and never a panic, and does not modify its input.",
 ["inputs"],"every truncation, every header field over boundary values (including near 2^64), every algorithm byte, all short byte strings, malformed base64",
 "Tests verify only well-formed hashes.",
 ["cryptox/passhashx/passhash.go","cryptox/passhashx/internal/passhash.vstruct.go"],[("structure validation before use","cryptox/passhashx/internal/passhash.vstruct.go: Vstruct_Validate"),("algorithm table bound check","cryptox/passhashx/passhash.go: Verify")],["Verify result"],
 hook="the argon2 primitive is replaced by a cheap stand-in")
p("X08","Stored password hashes keep their format, strength and validity",
 "The stored format (algorithm byte, two little-endian end offsets, 16-byte salt, 32-byte digest; base64 URL alphabet without padding) and each level's published Argon2id cost parameters are stable: hashes stored earlier keep verifying, and each level hashes with exactly its own time, memory and parallelism.",
 ["inputs","configurations"],"all levels: golden stored hashes, recorded cost parameters of every call, and the layout of every fresh hash over a set of passwords",
 "Tests only verify hashes made in the same run, so a change of format or cost passes.",
 ["cryptox/passhashx/alg.go","cryptox/passhashx/passhash.go","cryptox/passhashx/internal/passhash.vstruct.go"],[("cost constants per level","cryptox/passhashx/alg.go"),("serialisation","cryptox/passhashx/internal/passhash.vstruct.go")],["parameters passed to argon2, bytes of the hash"],
 hook="the argon2 primitive is wrapped to record its parameters")

# ------------------------------------------------------------------ time, types, functions, tools
p("T01","Time truncation gives the start of the enclosing UTC unit",
 "For every instant, truncation to year, month, day, hour, minute or second gives the first second of the enclosing UTC calendar unit, and to week the start of the enclosing Monday-based week; the result never exceeds the instant, is idempotent and monotone, and the instant lies before the next unit's start. The general form with a positive width (below the 292-year duration limit) rounds down to a multiple of it counted from year 1.",
 ["inputs"],"every day of the 400-year calendar cycle and of years 1 to 4000 at boundary seconds, all unit kinds",
 "The package has no test; calendar edge days are the cases that break.",
 ["timex/truncatex/truncatex.go","timex/timex.go"],[("UTC calendar arithmetic","timex/truncatex/truncatex.go")],["returned seconds"])
p("T02","Interval intersection is sound and order-independent",
 "For every list of two or more closed intervals (centre and non-negative half-width), the reported intersection runs from the smallest to the largest point that lies in all but F of the intervals, where F is the smallest number below half the number of intervals (rounded down) for which such points exist and at most F centres lie outside that range; if there is no such F, or no interval, failure is reported. Touching and zero-width intervals count, and the result does not depend on the order of the arguments. The first returned value is the lower bound. A single interval is returned as it is.",
 ["inputs"],"all multisets of up to 4-5 intervals with centres and half-widths on a small grid, including touching and zero-width ones, in all argument orders",
 "Tests use four hand-picked overlapping sets without ties.",
 ["timex/intersectionx/intersectionx.go"],[("sorted end points and counting sweep","timex/intersectionx/intersectionx.go: intersection")],["returned bounds and flag"])
p("T03","Time differ measures the last start to the last end, in UTC",
 "For every sequence of Start and End calls, GetStart and GetEnd are the instants of the latest Start and End (zero before any), in UTC, and GetDiff is the latest End minus the latest Start; Now and Custom give the requested instant in UTC for every second and nanosecond argument.",
 [H,"inputs"],"all Start/End/clock-advance sequences to depth 8 under a virtual clock, all local zones tried; boundary seconds and nanoseconds",
 "The test only prints a duration.",
 ["timex/diffx/diffx.go","timex/timex.go"],[("clock reads stored per call","timex/diffx/diffx.go")],["returned instants and durations"],hook="the clock, intercepted by the build overlay")
p("F01","Option and Result dispatch to exactly one branch",
 "Matching an option runs the present-branch exactly once with the stored value if it holds one and otherwise the absent-branch exactly once; matching a result runs the success-branch with the value or the error-branch with the error in the same way; the chosen branch's results, including its error, are returned unchanged and matching does not change the option or result. A zero or nil stored value still counts as present.",
 ["inputs"],"all constructors times all values (including zero, nil and nested) times all branch outcomes, for several type instances, repeated matches",
 "The packages have no test.",
 ["functionalx/optionx/optionx.go","functionalx/resultx/resultx.go"],[("presence flag","functionalx/optionx/optionx.go, functionalx/resultx/resultx.go")],["which branch ran, returned values"])
p("F02","Optional parameters are applied in order and then constructed once",
 "Building with optional parameters applies every option function exactly once, in the order given, each to the result of the previous one (the first to none), and then calls the constructor exactly once with the final parameter (none if there are no options), returning its result unchanged.",
 ["inputs"],"all sequences of up to 6 option functions over a non-commuting alphabet, including ones returning none",
 "The package has no test.",
 ["configx/optionalx/optionalx.go"],[("fold over the options","configx/optionalx/optionalx.go: Parameter")],["order of calls, result"])
p("V01","Built-in conversions exist and preserve values",
 "A built-in conversion exists for every pair among the integer and float types, between those and strings and booleans, between strings and booleans, between string and byte slice, between string and rune slice, and from each of these types to itself. Numeric conversions equal Go's own conversion; a value formatted as a string (integers in decimal) converts back to the same value of its type; booleans map to 1 and 0 and any non-zero number to true; string/bytes and valid-string/runes conversions round-trip without sharing memory with the string; unparsable strings give the zero value.",
 ["inputs"],"all values of the 8- and 16-bit types to every target, boundary values of the 32- and 64-bit and float types, all strings to length 4 over a numeric alphabet",
 "The package has no test; one wrong entry in about 200 registrations goes unseen.",
 ["typex/convx/init.go","typex/convx/converters.go","typex/convx/convx.go"],[("registrations","typex/convx/init.go"),("converter functions","typex/convx/converters.go")],["Into results, Exists"])
p("W01","Module maintenance tools visit every directory once and skip excluded ones",
 "Run in a directory tree, the tidy and update tools run their go command (mod tidy, and get -u) exactly once in every directory of the tree, including the root, except vendor and .git directories and everything below them, and never outside the tree; a failure of the command in one directory does not stop the others, and a directory that cannot be entered or listed does not make the command run anywhere else or more often.",
 ["inputs","fault_sequences"],"all directory trees up to 5 nodes over the names a, b, vendor, .git and a plain file, with every pattern of failing commands on the small ones",
 "The tools have no test.",
 ["cmd/autotidy/autotidy.go","cmd/autoupdate/autoupdate.go"],[("directory walk with skips and working-directory changes","cmd/autotidy/autotidy.go, cmd/autoupdate/autoupdate.go")],["working directory and arguments of each command run"],
 hook="a stand-in go command that only records its directory and arguments")

# ------------------------------------------------------------------ the library as a whole
ALLF=["dsx","iox","syncx","typex","timex","algox","cryptox","functionalx","configx"]
p("I01","Separate values never influence each other",
 "Goroutines that each use values of their own (containers, maps, iterators, lists, lazy values, closers, decouplers, pools, locks on different pointers, sleepers, and calls of functions with their own arguments) get from every operation the result it gives in a program that does nothing else, without a data race, whatever the interleaving; state shared behind the scenes is not observable.",
 ["schedules","inputs"],"every component's script against itself and against every other's, two goroutines, two to three preemptions between operations",
 "Tests use one value in one goroutine, where a shared scratch buffer, iterator or generator is invisible.",
 ALLF,[("package-level state","dsx/mapx/sklmapx/splitmix64.go, dsx/linkedx/dequex/dequex.go, syncx/lockx/lockx.go, typex/convx/convx.go")],["results, race reports"])
p("I02","Concurrent reads are safe",
 "Operations that only read a value (peeking, sizes, lookups, listing keys and values, iterating, joining and splitting, searching sorted input, verifying hashes, decrypting, converting, matching options and results, reading a constructed lazy value) can run at the same time on one value or input: each gives what it gives alone, without a data race, and the value is the same afterwards.",
 ["schedules","inputs"],"every assignment of reading operations to two or three goroutines over one value, two preemptions",
 "Tests read from one goroutine; a cache or cursor updated by a read goes unseen.",
 ALLF,[("read paths without writes","dsx, algox, cryptox, typex/convx/convx.go")],["results, race reports"])
p("I03","Callbacks may use the library",
 "A function handed to the library (iteration, range, filter, comparison, branch, option, constructor, locked body, scoped body, closer, drop or view function, a value's own String method) may use the library itself: other values of any kind, and reading operations on the value being worked on, except where that value is locked or being changed. The inner operation gives what it gives alone, the outer one what it gives without it, and both return.",
 ["inputs","histories"],"every calling operation with every operation of every component at each of its calls, nested to depth 2-3",
 "Tests' callbacks only record or print.",
 ALLF,[("calls into user code","dsx/mapx/ordmapx/ordmapx.go: Range, dsx/slicex/slicex.go, syncx/lockx/lockx.go, typex/convx/convx.go, iox/decouplex/decouple.go")],["results, termination"])
p("I04","Arguments stay the caller's and results become the caller's",
 "A function that is given slices (data, keys, passwords, stored hashes, sorted elements, intervals, positions, payloads, lists of functions) writes neither to their elements nor to the array behind them, sorting and slice editing apart, and remembers nothing of them: refilled in place they give what fresh memory gives. Returned slices, maps, error lists and texts (ciphertexts, plaintexts, hashes, Keys, Values, ToMap, converted bytes, runes and strings) stay as they are through later calls and later changes of the value or the arguments, and overwriting them, up to their capacity, changes nothing else. A slicex slice is a view of the array it was made from, and a slice converted to its own type may be itself.",
 ["inputs","histories"],"every pair of inputs of a table per function with spare capacity behind them; every sequence of 5-7 edits, views and overwritings per map and of 6-8 writes and views of a decoupler",
 "Tests use each result once and never look at an argument again.",
 ALLF,[("fresh result buffers","cryptox/aesx, dsx/mapx/sklmapx: Keys, Values, ToMap, dsx/mapx/ordmapx: Keys, Values"),("copied payloads","iox/decouplex/decouple.go: Write"),("copying conversions","typex/convx/converters.go")],["arguments' arrays, results at hand"])
p("I05","Panicking or exiting callbacks do no damage",
 "When a function handed to the library (iteration, range, filter, comparison, branch, option, constructor, locked body, scoped body, closer, drop or view function, converter, pool constructor) panics or ends its goroutine, the caller of the operation sees exactly that, and afterwards no lock is held, nobody waits, an operation that only reads has left its value as it was, and every value works with the results it would have had: the locked value can be locked, the manager appended to and closed, the decoupler keeps its whole capacity and its other payloads, the registry and the ordered map being ranged over (with the changes made so far) stay right. A worker pool's handler that ends its goroutine frees its place.",
 ["inputs","schedules","fault_sequences"],"every calling operation, ended at each of its calls by four kinds of panic and by the end of the goroutine; those of shared values in all interleavings within a deviation bound",
 "Tests' callbacks return.",
 ALLF,[("deferred unlocking","syncx/lockx/lockx.go, iox/managerx/closex, functionalx/lazyx"),("calls without the lock","typex/convx/convx.go: Into"),("release after the view","iox/decouplex/decouple.go: Next"),("worker accounting","poolx/gopoolx/timedpool.go: tworker")],["panic value, results and completion of later operations"])
p("M01","Repeated use needs bounded memory",
 "However often operations are repeated on a container, map, lock, registry, sleeper, decoupler or pool, or a function is called or a value made and dropped, the memory held stays bounded by what the value has contained at one time and does not grow with the number of uses: removed elements, abandoned keys, released locks, replaced converters and finished calls are not kept.",
 [H],"every word of 3 to 6 operations per component that leaves the size as it was, repeated thousands of times, memory measured after garbage collection",
 "Tests perform each operation a few times and never measure memory.",
 ALLF,[("node unlinking, map entry deletion, slice shrinking","dsx"),("registry of held pointers","syncx/lockx/lockx.go")],["reachable objects and bytes after garbage collection"])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+"\n")
print(len(P),"properties")
