#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as a script so that wording stays in one readable place)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d["anchors"]["observe_at"]=list(observe)
    d["anchors"]["hook_needed"]=hook
    P.append(d)
POOL="poolx/gopoolx/timedpool.go"
p("C01","Goroutine pool runs every accepted task exactly once",
 "Every value for which the timed pool's Run reported true is passed to the handler exactly once, unchanged, and a value for which Run reported false is never passed to it. This holds whatever other Run and Stop calls, idle-worker retirement, scheduling delays and clock steps happen around it, and whether or not the pool was preheated; every accepted task starts without any further call being made, and no pool operation crashes.",
 ["schedules","histories","fault_sequences","configurations"],
 "all interleavings of submitters, workers, the idle collector and Stop; all pool sizes, preheats, idle timeouts and GC periods; stalls and clock steps",
 "The tests submit from one goroutine and sleep for seconds of real time; the windows (retiring a worker while it is being handed a task, Stop between accept and hand-over, a preheated worker that starts late) are never forced.",
 [POOL,"syncx/syncpoolx/syncpoolx.go"],
 [("Run pops an idle worker or starts one under the mutex and sends to its one-slot channel",POOL+":Run"),("worker loop and hand-back",POOL+":tworker, free"),("collector closes only workers it removed from the idle stack",POOL+":start")],
 [("dobby","stack of idle workers",POOL),("maxWorkers","-1 once stopped",POOL)],["Run","handler"])
p("C02","Goroutine pool respects its worker limit and never loses capacity",
 "At no instant are more handlers running than the configured maximum number of workers, nor does Workers ever report more than that maximum or fewer than the number of handlers then running, preheating included. Whenever an unstopped pool is at rest with fewer than the maximum number of tasks running, as many further back-to-back Runs as bring it to the maximum are all accepted, and any Run beyond the maximum is refused immediately instead of blocking.",
 ["schedules","histories","configurations","fault_sequences"],
 "all interleavings of Run, worker hand-back, retirement and restart; all maxima and preheat counts",
 "Every existing test uses an unlimited pool (MaxInt64), so the limit and the refusal path are never reached.",
 [POOL],[("worker count kept under the mutex, Run starts a worker only below the maximum",POOL+":Run"),("count drops when a worker goroutine ends",POOL+":tworker, free")],
 [("workers","live worker goroutines",POOL)],["Run","Workers","handler"])
p("C03","Stopping a goroutine pool is final, safe to repeat and drains cleanly",
 "Once Stop has returned, every later Run is refused, while every task accepted before still runs to completion. Stop may be called any number of times, concurrently with itself and with anything else (also from inside a handler), and always returns; once the running handlers have returned, every goroutine the pool created ends and Workers reports 0.",
 ["schedules","histories","fault_sequences"],
 "all placements of one or more Stop calls relative to Run, running handlers, the idle collector and its ticks",
 "Tests call Stop once, from one goroutine, then sleep two seconds; concurrent stops and a stop racing a hand-over are not exercised.",
 [POOL],[("draining flag under the mutex",POOL+":Run, free"),("collector closes idle workers on stop",POOL+":start, Stop")],
 [("maxWorkers","-1 marks a draining pool",POOL)],["Stop","Run","Workers"])
p("C04","Idle pool workers are kept for the idle timeout and then retired",
 "A worker that has been idle for less than the idle timeout is not retired, and once a pool has had no work for the idle timeout plus two GC periods all its workers, preheated ones included, have ended and Workers reports 0. This is measured in elapsed time: steps of the wall clock neither retire workers early nor keep them alive, and a later Run starts a fresh worker normally.",
 ["schedules","histories","fault_sequences","configurations"],
 "all work patterns, idle timeouts and GC periods; late-starting and stalled workers; forward and backward wall-clock steps",
 "One test waits real seconds for all workers to disappear; nothing checks premature retirement, clock steps, or a worker that is retired before it first ran.",
 [POOL],[("idle stack ordered by time of hand-back, binary search for the cut",POOL+":start"),("hand-back time stamp",POOL+":free")],
 [("tt","time a worker became idle",POOL)],["Workers"])
DEC="iox/decouplex/decouple.go"
p("C05","Decoupler delivers accepted messages once, intact and in order",
 "Every non-empty message that a decoupler's Write accepted (did not hand to the drop function) is passed to exactly one later Next view, byte for byte as given at Write, even if the writer then reuses its slice, and stays unchanged for as long as the view runs. If one Write returned before another began, their messages are delivered in that order; nothing that was dropped or never written is delivered.",
 ["schedules","histories","configurations"],
 "all interleavings of any number of writers with the single reader; all capacities, message sizes and sequences of drops and drains",
 "Two tests, single-threaded, capacities 1 and 2, that only count drops and never look at a delivered byte.",
 [DEC],[("slot claim by atomic operations on the position and slot-lock words",DEC+":Write"),("reader waits for the slot at its position",DEC+":Next")],
 [("locktab","per-slot state",DEC),("_read/_write","positions",DEC)],["Write","Next view"])
p("C06","Decoupler drops only when full, never blocks writers, never wedges reader",
 "Write hands a message to the drop function (once, with the same bytes, returning its result) only if the message is empty or if during the call the buffer was full of messages not yet consumed, counting writes still in progress; otherwise it accepts it and returns its length and no error. No more than the configured size are ever accepted and unconsumed. Every Write and Next call finishes: Next reports false only if no completed write was waiting when it was called, so once writers pause, draining yields every accepted message and then false.",
 ["schedules","histories","configurations"],
 "all interleavings, including writers stalled inside Write; all capacities from 1; all fill, drop and drain sequences",
 "The tests never interleave anything and drain completely before refilling, which hides what a drop or a partial drain does to later positions.",
 [DEC],[("fullness test",DEC+":Write"),("emptiness test and wait for the slot",DEC+":Next")],
 [("_len","published, unconsumed messages",DEC)],["Write","Next","drop callback"])
SLP="timex/sleepx/sleepx.go"
p("C07","A successful Wakeup always ends the current sleep, and only that",
 "If Wakeup reports true, the sleep in progress at that moment ends promptly, whichever kind of sleep it is, without waiting for its deadline. A Wakeup that reports false disturbs nobody, a wake-up is never carried over to a sleep that began after it returned, and a Sleeper can be put to sleep and woken any number of times from any goroutines.",
 ["schedules","histories"],
 "all interleavings of sleepers and any number of concurrent wakers, including a wake-up arriving while the sleep is just beginning or just ending",
 "Sleeper has no tests; the diffx test uses one SleepFor(1) without asserting anything and never calls Wakeup.",
 [SLP],[("cancellation of the current context and its replacement",SLP+":Wakeup"),("sleeper selects on timer and context",SLP+":SleepFor, SleepUntil, SleepForever")],
 [("slept","somebody is asleep",SLP),("ctx","current wake-up signal",SLP)],["SleepFor","SleepUntil","SleepForever","Wakeup"])
p("C08","Sleeper sleeps for its whole duration and holds one sleeper at a time",
 "Without a wake-up, SleepFor(n) returns true after n seconds (n being a plain count of seconds) and SleepUntil(t) when the clock that was read on entry has advanced to t, never earlier, promptly afterwards, and at once when the time is zero or past; SleepForever never returns by itself. While one sleep is in progress every other sleep call on that Sleeper returns false at once without disturbing it, and after it ends the Sleeper can be used again; Wakeup reports false when nobody sleeps. Stepping the wall clock during a sleep changes nothing.",
 ["schedules","histories","inputs","fault_sequences"],
 "all durations and target times, all interleavings of competing sleepers, wall-clock steps during the sleep",
 "No test asserts any duration, and none uses two goroutines.",
 [SLP,"timex/timex.go"],[("compare-and-swap on the occupancy flag",SLP),("timer for the remaining time",SLP)],
 [("slept","occupancy flag",SLP)],["SleepFor","SleepUntil","SleepForever"])
SM="dsx/mapx/syncmapx/syncmapx.go"
p("C09","The goroutine-safe map is linearizable",
 "Any concurrent history of Set, Get, Has, Delete, Clear, Size, Keys and Values on one synchronized map is equivalent to some sequential order of those calls on an ordinary map that respects real-time order, with Keys, Values and Size being consistent snapshots. No call deadlocks and no two calls access the shared state without synchronization.",
 ["schedules","histories"],
 "all interleavings of all operations from any number of goroutines",
 "The package has no tests at all, and a missing lock shows only under a particular interleaving.",
 [SM],[("read-write mutex around every access",SM)],[("m","the map",SM)],["all exported methods"])
CV="typex/convx/convx.go"
p("C10","Converter registry is linearizable and free of deadlock",
 "Register, Unregister, Exists, Into and IntoOr behave, under any concurrency, as atomic operations on one table keyed by the exact static (from, to) type pair, interface and named types included: Into applies the converter registered last for that very pair to the value and reports true, or reports false with the zero value (IntoOr: the fallback) if there is none. No registry call ever deadlocks, even when converters themselves convert, register or unregister, or panic, while others register; and there is no unsynchronized access.",
 ["schedules","histories","inputs"],
 "all interleavings of registry calls over several type pairs, with nested conversions and panicking converters",
 "convx has no tests; nested conversion combined with a concurrent registration is the classic recursive read-lock deadlock no single-threaded test can show.",
 [CV,"typex/convx/init.go"],[("two-level map from types to converter under a read-write mutex",CV)],[("converters","the table",CV)],["Register","Unregister","Exists","Into","IntoOr"])
LZ="functionalx/lazyx/lazy.go"
p("C11","A lazy value is constructed once and seen complete by everyone",
 "The constructor of a lazy value is not called before the first Get and is called at most once, no matter how many goroutines call Get at the same time; every Get that returns after a construction that succeeded returns that one constructed value, fully built.",
 ["schedules","histories"],"all interleavings of any number of concurrent Gets with slow constructors",
 "lazyx has no tests.",[LZ],[("sync.Once",LZ)],[("value","the constructed value",LZ)],["Get","constructor"])
LK="syncx/lockx/lockx.go"
p("C12","Lock runs its callback in mutual exclusion and always gets there",
 "For any object of any type, the callbacks passed to Lock on that object run one at a time, each exactly once and with that object's own pointer, and each sees all effects of the callbacks that ran before it. Under fair scheduling every Lock call whose predecessors return also returns, and callbacks on different objects do not exclude each other.",
 ["schedules","inputs","histories"],"all interleavings of any number of lockers over several objects and object types",
 "lockx has no tests.",[LK],[("compare-and-swap spin lock",LK+":Lock")],(),["Lock callback"])
CM="iox/managerx/closex/manager.go"
p("C13","Close manager closes everything registered and reports every failure",
 "One Close call on a close manager calls Close exactly once on each closer whose Append completed before it, in registration order, regardless of which ones fail, and returns nil if none failed, else one error from which AsErrs recovers exactly the failures in order and whose text includes each of them. Append and Close are safe to use concurrently: no registration is lost, and a panicking closer does not lock the manager up. The package-level functions behave the same on a shared manager.",
 ["schedules","fault_sequences","histories"],
 "all interleavings of Append and Close, all patterns of failing and panicking closers",
 "closex has no tests; partial failure and concurrent registration are never tried.",
 [CM,"iox/managerx/closex/types.go","iox/managerx/closex/default.go"],[("list under a mutex, errors accumulated",CM+":Close")],[("list","registered closers",CM)],["Append","Close","AsErrs"])
US="iox/usingx/using.go"
p("C14","Scoped closers always run, whatever the scoped function does",
 "A scope made by usingx.Close calls every one of its closers exactly once, in order, after the scoped function has finished and before the scope returns, whether that function returns, panics or exits its goroutine and whichever closers return errors; it returns exactly the closers' errors in order, or nil if there are none. A panic in the function still propagates to the caller after the closers have run, and one scope value can be reused and used concurrently without results mixing.",
 ["fault_sequences","schedules","histories"],
 "all outcomes of the scoped function, all patterns of failing closers, concurrent and repeated use of one scope",
 "usingx has no tests, so no failing closer and no panicking body is ever tried.",
 [US],[("deferred loop over the closers",US+":Close")],(),["Close"])
SG="osx/closex/closex.go"
p("C15","Termination signals run the shutdown handler once and then release waiters",
 "After HandleKillSig, the first SIGINT, SIGQUIT or SIGTERM makes the handler run exactly once, and only after it has returned is the channel C closed; before any such signal neither happens, and other signals cause neither. However many further signals arrive, at whatever moment, the handler is not run again, C is not closed again and the process does not crash.",
 ["schedules","fault_sequences"],
 "all arrival times, kinds and bursts of signals relative to a slow handler, any number of waiters",
 "osx/closex has no tests, and a test cannot safely signal its own process in the middle of a handler.",
 [SG],[("signal channel drained by one goroutine",SG+":HandleKillSig")],(),["handler","C"])
DF="timex/diffx/diffx.go"
p("C16","Measured durations follow elapsed time, not wall-clock adjustments",
 "For every Start followed by End, GetDiff is exactly the time that elapsed between the two calls, also when the wall clock is stepped forward or backward in between, and is never negative; GetStart and GetEnd are the instants of the latest Start and End. timex.Now reports the current instant, in UTC.",
 ["fault_sequences","histories"],"all delays and all sequences of wall-clock steps between calls; re-use of one differ",
 "The only test sleeps and prints; a wall clock that steps cannot be arranged in a unit test.",
 [DF,"timex/timex.go"],[("times keep the monotonic reading through Now and Sub",DF)],(),["GetDiff","timex.Now"])
SK="dsx/mapx/sklmapx/sklmapx.go"
p("C17","Skip-list map behaves as an ordered map for every random tower layout",
 "For any sequence of Set, Get, Del, Clear, Len, Keys, Values, ToMap, String and iterator calls, whatever random tower heights the list draws and whatever the clock it is seeded from, a skip-list map gives the results of an ordinary map listed in ascending key order: each key once with its latest value, Del reporting whether the key was present. An iterator over an unchanging map yields every entry once in order and then reports the end however often it is asked, Seek to a present key positions there, and Rewind starts over.",
 ["histories","inputs","schedules"],
 "all operation histories over small and large key spaces, all seeds of the internal randomness including maximum-height towers",
 "Tests use one random layout per run and never force rare towers, deletions of tall nodes, or iteration past the end.",
 [SK,"dsx/mapx/sklmapx/splitmix64.go"],[("search path recorded per level, insert and delete relink every level of the tower",SK),("per-map generator seeded from clock-seeded root",SK)],[("next","per-level successors",SK)],["exported methods"])
OM="dsx/mapx/ordmapx/ordmapx.go"
p("C18","Ordered map keeps its hash index and its key order in step",
 "For any sequence of Set, Get, Del, Clear, Len, Keys, Values and Range, whatever random tower heights are drawn, the ordered map answers as an ordinary map listed in ascending key order: Len, Get, Keys, Values and Range always describe the same set of entries with their latest values, and Range stops exactly when its callback asks it to.",
 ["histories","inputs","schedules"],"all operation histories and all seeds of the internal randomness",
 "ordmapx has no tests.",[OM,SK],[("hash map plus skip list of keys updated together",OM)],[("m, skl","values and key order",OM)],["exported methods"])
DQ="dsx/linkedx/dequex/dequex.go"
p("C19","Linked deque is a double-ended queue whatever its node pool recycles",
 "For any sequence of pushes, pops and peeks at both ends, the linked deque returns exactly what a sequence would, reporting false when empty, and never panics. This does not depend on which freed internal nodes the memory pool hands back or discards, in what order, or when garbage collection empties it.",
 ["histories","schedules","fault_sequences"],"all operation histories crossing node boundaries in both directions, all recycling decisions of the pool, pool purges",
 "One test pushes then pops in lockstep; a node is never reused after both kinds of removal, and pool behaviour cannot be chosen.",
 [DQ],[("64-slot nodes linked both ways, recycled through a pool",DQ)],[("head, tail, start, end","occupied window",DQ)],["exported methods"])
LL="dsx/linkedx/listx/listx.go"
p("C20","Linked list is an indexable sequence whatever its node pool recycles",
 "For any sequence of Append, Insert, Remove, At, Iterate and Len, the linked list returns what a sequence would: Insert at any position from 0 to Len places the element there, Remove and At of an existing position yield its element, positions outside the list report false (Insert: are ignored) and change nothing, and Iterate visits the elements in order until told to stop. This does not depend on which freed nodes the memory pool hands back or discards.",
 ["histories","inputs","schedules","fault_sequences"],"all operation histories including both ends, emptying and refilling, all positions, all recycling decisions of the pool",
 "One fixed test sequence; no test removes or inserts at the end or refills an emptied list.",
 [LL],[("singly linked nodes with tail pointer and counter, recycled through a pool",LL)],[("head, tail, length","list shape",LL)],["exported methods"])
LQ="dsx/linkedx/queuex/queuex.go"; LS="dsx/linkedx/stackx/stackx.go"
p("C21","Linked queue is FIFO and linked stack is LIFO under any node recycling",
 "For any sequence of operations the linked queue returns elements in first-in first-out order and the linked stack in last-in first-out order, Peek shows what the next removal will return, IsEmpty and Len agree with the contents, removal from an empty container reports false, and nothing panics. This does not depend on which freed nodes the memory pool hands back or discards.",
 ["histories","schedules","fault_sequences"],"all operation histories including repeated emptying and refilling, all recycling decisions of the pool",
 "Neither package has tests.",[LQ,LS],[("singly linked nodes recycled through a pool",LQ),("singly linked nodes recycled through a pool",LS)],[("head, tail","queue ends",LQ)],["exported methods"])
SP="syncx/syncpoolx/syncpoolx.go"
p("C22","Typed object pool never hands one object to two holders",
 "Under any concurrent use of the typed pool, Get returns either a freshly constructed object or one that was Put before and has not been handed out since, so no object is ever held by two users at once; each object arrives with everything its previous holder wrote. Get never fails or returns nil as long as the constructor does not, and the constructor is used exactly when no pooled object is returned.",
 ["schedules","histories","fault_sequences"],"all interleavings of Get and Put from any number of goroutines, pool purges at any time, one or many pools",
 "syncpoolx has no tests.",[SP],[("sync.Pool behind a typed wrapper",SP)],(),["Get","Put","Init"])
p("C23","GCM-encrypted data comes back intact or is refused",
 "Whatever EncryptGCM returned without an error decrypts under the same key to exactly the original data, also by a process started later, and two encryptions, in one process or across restarts, never share a nonce as long as the random source does not repeat. The stored bytes never show the data in the clear. If the stored bytes were changed, cut short at any point (also to nothing), extended or come from another key, DecryptGCM returns an error and no data, without panicking; if the random source fails, EncryptGCM returns an error and no ciphertext.",
 ["inputs","fault_sequences","crash_points"],"all plaintexts and keys, every torn, short, flipped or swapped stored ciphertext, every failure point of the random source, concurrent use",
 "cryptox/aesx has no tests.",["cryptox/aesx/gcmx.go"],[("random nonce prefix and authenticated decryption","cryptox/aesx/gcmx.go")],(),["EncryptGCM","DecryptGCM"])
p("C24","CBC and CTR encryption round-trips, uses fresh IVs and fails cleanly",
 "Whatever EncryptCBC or EncryptCTR returned without an error decrypts under the same key to exactly the original data, also by a process started later, and equal data never encrypts to equal bytes, in one process or across restarts, as long as the random source does not repeat. The stored bytes never show the data in the clear. CTR accepts every length; input that CBC cannot handle (not a whole number of blocks) and stored bytes cut short or damaged lead to an error or to wrong data but never to a panic, damaged or foreign-key data never decrypts to the original (data of at least 16 bytes, one AES block: shorter data can come out right by chance), and if the random source fails the encryptors return an error and no ciphertext.",
 ["inputs","fault_sequences","crash_points"],"all plaintexts and keys, every torn, short or flipped stored ciphertext, every failure point of the random source, concurrent use",
 "cryptox/aesx has no tests.",["cryptox/aesx/cbcx.go","cryptox/aesx/ctrx.go"],[("random IV prefix","cryptox/aesx/cbcx.go, ctrx.go")],(),["EncryptCBC","DecryptCBC","EncryptCTR","DecryptCTR"])
PH="cryptox/passhashx/passhash.go"
p("C25","Password hashes verify the right password only and survive storage faults",
 "For every defined security level a hash made by Hash or HashBase64 verifies with the same password and with no other, also in a process started later, and two hashes of one password differ as long as the random source does not repeat; undefined levels are refused. A stored hash that was cut short, emptied or otherwise damaged yields an error and never a panic and never lets a wrong password through; damage to the algorithm, salt or hash bytes makes it unverifiable; and if the random source fails or falls short, an error and no hash is returned.",
 ["inputs","fault_sequences","crash_points"],"all passwords and levels, every torn, short or flipped stored hash in both encodings, every failure point of the random source, concurrent use",
 "Tests hash one password at each level and verify it; no wrong password, damaged hash or failing random source is tried.",
 [PH,"cryptox/passhashx/alg.go","cryptox/passhashx/internal/passhash.vstruct.go"],[("self-describing record validated before use",PH+":Verify"),("constant-time comparison",PH+":Verify")],(),["Hash","Verify","HashBase64","VerifyBase64"])
p("C26","bcrypt wrapper accepts only the right password and fails cleanly",
 "For every password of at most 72 bytes, a hash from Encrypt is accepted by Decrypt with that password, also in a process started later, and, as long as no NUL bytes are involved, with no other one of at most 72 bytes; longer passwords are refused by Encrypt. Decrypt reports true exactly when its error is nil, never panics, and never accepts a wrong password even if the stored hash was cut short or damaged; if the random source fails, Encrypt returns an error and no hash.",
 ["inputs","fault_sequences","crash_points"],"all passwords up to and beyond the limit, every torn or flipped stored hash, every failure point of the random source",
 "bcryptx has no tests.",["cryptox/bcryptx/bcryptx.go"],[("length check before hashing","cryptox/bcryptx/bcryptx.go:Encrypt")],(),["Encrypt","Decrypt"])
p("C27","Module maintenance commands touch only and all the directories they visit",
 "autotidy and autoupdate run their go command exactly once in each directory they can enter at or below the start directory, except vendor and .git directories and everything under those, and run it in no other directory. A directory that cannot be entered or listed, or a go command that fails, neither stops the remaining directories from being processed, nor makes a command run anywhere else, nor crashes the program; when the program ends, the working directory is the start directory again and every command has finished.",
 ["fault_sequences","inputs"],"all directory trees, and every pattern of failing directory reads, directory changes and commands",
 "The commands have no tests, and failing system calls cannot be provoked from one.",
 ["cmd/autotidy/autotidy.go","cmd/autoupdate/autoupdate.go"],[("directory walk with change of working directory around each command","cmd/autotidy/autotidy.go:main")],(),["commands started and the directory they ran in"])
p("C28","Separate containers and ciphers never interfere across goroutines",
 "Goroutines that each use their own container (skip-list map, ordered map, synchronized map, linked or slice-backed list, queue, stack or deque, lazy value, differ, bit set) or encrypt, decrypt or hash data of their own each observe exactly the sequential behaviour of that container or call, however they are interleaved, created and discarded. There is no unsynchronized access to anything the containers share behind the scenes.",
 ["schedules","histories"],"all interleavings of goroutines that create, use and drop their own containers, all pool recycling decisions",
 "Every container test is single-threaded; hidden shared state (seeds, pools, scratch buffers) is never used from two goroutines.",
 ["dsx/mapx/sklmapx/splitmix64.go",SK,OM,DQ,LL,LQ,LS,"dsx/slicex/queuex/queuex.go","dsx/slicex/stackx/stackx.go","dsx/slicex/listx/listx.go"],
 [("shared root seed advanced atomically","dsx/mapx/sklmapx/splitmix64.go:root_next"),("per-container node pools","dsx/linkedx")],[("root_seed","seed shared by all skip lists","dsx/mapx/sklmapx/splitmix64.go")],["exported methods"])
p("C29","Shuffling only rearranges, under any random source, and favours no order",
 "For any slice of any element type and whatever values the random source yields, Shuffle leaves the same number of elements, each as often as before, rearranged in place, and returns the slice it was called on without panicking. With a fair random source every order of the elements comes up, each equally often.",
 ["inputs","fault_sequences"],"all slices and element types, all outputs of the random source including constant and extreme ones",
 "A test sees a handful of draws of the real generator and cannot tell a biased or lossy shuffle from an unlucky one.",
 ["dsx/slicex/slicex.go"],[("swap-based shuffle over the global random source","dsx/slicex/slicex.go:Shuffle")],(),["Shuffle"])
p("C30","Clock readings intersect by definition, in any order, outvoting false clocks",
 "For any M clock readings (offset plus or minus a non-negative band, a closed interval), Intersection takes the smallest number F of outvoted readings (0, or less than M/2 rounded down) such that some instant lies in at least M-F of the intervals and at most F offsets lie outside the span from the lowest to the highest such instant; it returns that span's ends, lower end first, and true, or reports false if no F will do or there is no reading. So the answer does not depend on the order in which readings arrive, and it contains the true time whenever all readings do.",
 ["inputs","fault_sequences","schedules"],"all sets of servers with right and wrong clocks, all delays, losses, duplications and orders of their answers",
 "Four small examples are tested, none with a false clock, touching intervals or a second order of the same readings.",
 ["timex/intersectionx/intersectionx.go"],[("edge list sorted by position, scanned from both ends","timex/intersectionx/intersectionx.go:intersection")],(),["Intersection"])
p("C31","Ordered maps and linked containers stay fast as they grow",
 "Set, Get and Del of the skip-list map and the ordered map, and Seek of the iterator, step through a number of entries that on average grows only with the logarithm of the number held, and listing the whole map through a few per entry, in whatever order keys are added and removed and whatever clock and random numbers the tower heights come from. Pushing to and popping from the linked deque, queue and stack, and appending to the linked list and removing its first element, step through a bounded number on average, whatever has passed through before. Costs are averages over long sequences of calls on containers of thousands of entries.",
 ["histories","inputs"],"all orders of insertion and removal, all seeds of the internal randomness, all pooling decisions",
 "The tests hold at most a few dozen entries, where a walk through all of them goes unnoticed.",
 [SK,"dsx/mapx/sklmapx/splitmix64.go",OM,DQ,LL,LQ,LS],[("random tower heights, search from the tallest level down",SK),("both ends of the chain kept",DQ)],[("seed","per-map generator state",SK)],["exported methods"])
# not simulation targets
def n(id,title,st,text,why,files): p(id,title,st,["inputs"],text,why,files,[("pure function of its arguments",files[0])])
n("N01","Slice helpers obey sequence semantics and clamp indices",
 "Every fluent slice operation (insert, splice, cut, delete, slice, rotate, reverse, filter, repeat, split, batch, ...) yields the sequence its name says for every input, clamping out-of-range indices instead of panicking, and split and batch pieces concatenate to the original.",
 "all slices and indices","Table tests sample a few inputs each.",["dsx/slicex/slicex.go"])
n("N02","Slice-backed list, ring queue and stack follow their interfaces",
 "The slice-backed list, ring queue and stack behave as list, bounded FIFO queue of the stated capacity and LIFO stack for every operation sequence.",
 "all operation sequences and capacities","Tests fill and drain once.",["dsx/slicex/queuex/queuex.go","dsx/slicex/stackx/stackx.go","dsx/slicex/listx/listx.go"])
n("N03","Bit set operations act on exactly the named bits",
 "Set, Clear, Toggle and Test affect or inspect exactly the listed bit positions for every unsigned width, and the whole-set operations agree with them.",
 "all widths and positions","bitsetx has no tests.",["dsx/setx/bitsetx/bitsetx.go"])
n("N04","Sorting and searching helpers sort, keep stability and find",
 "The sort helpers produce an ordered permutation in the requested direction (stable where promised) and Search finds exactly the present elements of a sorted slice.",
 "all slices and comparison functions","algox has no tests.",["algox/sortx/sortx.go","algox/searchx/searchx.go"])
n("N05","Time truncation returns the start of the enclosing UTC unit",
 "Each truncation helper returns the greatest start of its unit not after the given second, for every 64-bit second in range.",
 "all seconds and units","truncatex has no tests.",["timex/truncatex/truncatex.go"])
n("N07","Option and result dispatch to exactly the matching branch",
 "Match on an option or result calls exactly the branch for its state with the stored value and returns what that branch returns.",
 "all values and callbacks","optionx and resultx have no tests.",["functionalx/optionx/optionx.go","functionalx/resultx/resultx.go"])
n("N08","Built-in converters convert values faithfully",
 "Each predefined conversion between numbers, booleans, strings, bytes and runes equals Go's own conversion or strconv result.",
 "all values of all registered pairs","convx has no tests.",["typex/convx/converters.go","typex/convx/init.go"])
n("N09","Optional parameters are applied left to right",
 "The option functions are applied in order to the parameter value and the constructor is called once with the result.",
 "all option lists","optionalx has no tests.",["configx/optionalx/optionalx.go"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+"\n")
print(len(P))
