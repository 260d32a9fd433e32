#!/usr/bin/env python3
# Generates properties.jsonl (kept as a script so the JSON stays well formed).
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),obs=(),hook=None):
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},
      "why_tests_cant":why,"anchors":{"files":files,"state":[dict(name=a,meaning=b,where=c) for a,b,c in state],
      "mechanism":[dict(name=a,where=b) for a,b in mech],"observe_at":list(obs),"hook_needed":hook}})
ST="inc/Tecs_storage.hh"; TX="inc/Tecs_transaction.hh"; LK="inc/Tecs_lock.hh"; EN="inc/Tecs_entity.hh"; EV="inc/Tecs_entity_view.hh"; OB="inc/Tecs_observer.hh"; PE="inc/Tecs_permissions.hh"; TR="inc/Tecs_tracing.hh"; H="inc/Tecs.hh"; CC="src/Tecs.cc"

p("C01","Committed state is exactly what the transaction history says",
 "After any sequence of transactions, a new transaction observes exactly the entities, component sets and component values that applying the same operations one after another to a simple model gives: every committed creation, removal and write is visible, and nothing that was not written has changed. This holds for both the values a reader sees and the values a later write transaction starts from.",
 ["inputs","histories"],"Every sequence of transactions (AddRemove and Write) and of NewEntity/Set/Get/Unset/Destroy operations in them, and every component value.",
 "The tests run one fixed history per feature with fixed values; the two buffers of each component type are kept equal by different code paths (full copy, partial copy, list swap) chosen by what the transaction touched, so only some combinations of touched types, entity density and order are ever executed.",
 [TX,LK,EN,ST],[("commit: swap buffers, then reset the write buffer from the read buffer","Transaction::~Transaction"),("rebuild of entity metadata and valid lists before commit","Transaction::PreCommitAddRemove*"),("element access and creation","Entity::Get/Set/Unset/Destroy, Lock::NewEntity")],
 [("read/write component buffers","committed and pending values",ST),("entity metadata bitsets","which entity has which components",H)],["Entity::Get/Has/Exists in later transactions","Lock::EntitiesWith"])
p("C02","Inside a transaction: own writes are visible, the previous view is frozen",
 "Within a transaction, the current view (exists, has, get, entity listing) reflects all of that transaction's own operations so far, and the previous view (existed, had, previous value, previous listing) keeps showing the state at the start of the transaction whatever the transaction does. A component or entity created in the transaction is not part of the previous view; one removed in it still is; a newly added component that was not given a value starts from its default value.",
 ["inputs","histories"],"Every start state, every sequence of operations inside one transaction, interleaved with every read of both views.",
 "The tests read both views at a few hand-picked points of a few histories; a read after any prefix of any operation sequence has to agree.",
 [EN,LK,ST],[("write buffer versus read buffer selected by transaction permissions","Entity::Get/Has/Exists, Lock::EntitiesWith/Entities"),("value reset when a component is first added","Entity::Get"),("value reset when a component is removed","Lock::RemoveComponents")],
 [("lock permission bits","which buffer the current view reads",LK)],["Entity::Exists/Existed/Has/Had/Get/GetPrevious","Lock::Entities/PreviousEntities"])
p("C03","Entity handles are unique and a stale handle never becomes valid again",
 "A handle returned by entity creation differs from every live handle and from every handle returned earlier by that ECS instance, is never null, and carries that instance's identifier. From the moment the entity is destroyed its handle does not exist and has no components, even after its slot is reused, and operations on one entity never affect another (up to the number of reuses of one slot that the generation counter can represent).",
 ["inputs","histories"],"Every history of creations and destructions across transactions, every generation value a slot may have reached, every instance identifier, and every 64-bit handle value.",
 "The tests reuse 100 slots twice; the generation counter has millions of states and slots are recycled in an order that depends on the whole history, within one transaction and across commits.",
 [LK,TX,EN],[("free list rebuilt with next generation at commit","Transaction::PreCommitAddRemoveMetadata"),("allocation from the free list or a new batch","Lock::NewEntity"),("generation packed with the instance identifier","GenerationWithIdentifier")],
 [("free entity list","slots and next generation to hand out",H)],["Lock::NewEntity","Entity::Exists/Has"])
p("C04","Invalid handles and missing components are rejected without effect",
 "In checked builds, reading, writing, removing a component of, or destroying an entity through a handle that is null, stale, out of range or not currently existing throws an exception, as does reading or (without add/remove permission) writing a component the entity lacks. A rejected operation leaves every entity, component value, listing and pending event as if it had not been called, both in the running transaction and after it commits; queries (exists, has, had) return false instead of throwing.",
 ["inputs","histories"],"Every 64-bit handle value, every state of the ECS, every operation and permission set.",
 "The tests try the null handle and one missing component; the rejection depends on a 32-bit index and a 32-bit generation compared with the state of each slot.",
 [EN,LK],[("index bound, existence bit and generation checks before access","Entity::Get/GetPrevious/Set/Unset/Destroy"),("component bit check","Entity::Get/Set")],
 [],["exceptions from Entity operations","state afterwards"])
p("C05","Entity listings are exact, duplicate-free and stable while iterating",
 "A committed listing (all entities, or entities with a component type) contains each matching live entity exactly once and nothing else, in read and write transactions alike. During a transaction that adds or removes, a listing already obtained never changes size or the handles it holds except that entries of entities removed since become null, while a listing obtained afterwards contains every currently matching entity exactly once, all other entries being null.",
 ["inputs","histories"],"Every history of operations, listings taken at every point of a transaction, every component type including ones the transaction did not touch.",
 "The tests check sizes and a few elements after fixed bulk operations; the lists, their index maps and the double buffering are maintained by separate code per operation.",
 [LK,TX,EN,EV],[("valid lists and index map updated on add/remove","Entity::Set/Get, Lock::NewEntity, Lock::RemoveComponents, Entity::Destroy"),("lists rebuilt before commit","Transaction::PreCommitAddRemove"),("lists swapped and copied on commit","Transaction::~Transaction")],
 [("valid entity lists and index map","which entities have a component",ST)],["Lock::EntitiesWith/Entities/PreviousEntitiesWith/PreviousEntities"])
p("C06","Observers receive exactly the net changes of each commit",
 "Each committed transaction that changes which entities exist or which components they have produces, for every such net change, exactly one event of the right kind carrying the right handle and, for components, the value at commit (added) or the last committed value (removed); a slot whose entity was replaced yields a removal and an addition in that order. No event is produced for value changes, for things added and removed again in the same transaction, or by transactions that commit nothing.",
 ["inputs","histories"],"Every start state and every sequence of operations in a transaction, for entity, component and global component events.",
 "The tests poll the events of one history; events are computed by comparing old and new metadata per slot, and the interesting cases are combinations of destroy, reuse, re-add and untouched types.",
 [TX,OB,H],[("old/new metadata comparison queues events","Transaction::PreCommitAddRemoveMetadata / PreCommitAddRemove"),("queued events appended to observers at commit","ECS::ObserverList::Commit")],
 [("pending event queue","events of the running commit",H)],["Observer::Poll"])
p("C07","Every observer sees each event once, in order, from registration until stopped",
 "An observer receives every event of its type from commits made while it is registered, each exactly once and in commit order, independently of other observers and of when it polls; events of a transaction are delivered only when it commits. After it is stopped it receives nothing, polls return false, and other observers are unaffected; registering or stopping observers, or polling, changes no entity data.",
 ["histories"],"Every interleaving of registering, stopping, polling and committing for several observers of the same and of different event types.",
 "The tests create each observer once at the start and stop it once; queues are shared by reference counting between the ECS and handles, so the order of stop, poll, commit and re-registration matters.",
 [OB,LK,H],[("registration and removal from the observer list","Lock::Watch / Lock::StopWatching"),("front-of-queue consumption","Observer::Poll"),("append to each observer at commit","ECS::ObserverList::Commit")],
 [("observer queues","undelivered events",H)],["Observer::Poll","Observer::operator bool"])
p("C08","Global components behave as one committed value with its own presence",
 "A global component is present after a commit exactly if the history of set, default-creating get and unset operations says so, with the last committed value; the current and previous views inside a transaction follow the same rules as for entities, including a default value when created without one. Reading a missing global component as const, or without add/remove permission, is rejected in checked builds without creating it, and no operation on it affects entities or other global components.",
 ["inputs","histories"],"Every sequence of transactions and operations on one or more global components, every value.",
 "The tests run one create/update/remove sequence for one global type; presence bits and storage are committed by different conditions, so order and access kind matter.",
 [LK,TX,H],[("presence bitset pair","ECS::globalReadMetadata/globalWriteMetadata"),("lock-level get/set/unset","Lock::Get/Set/Unset/Has/Had/GetPrevious"),("commit of presence with metadata","Transaction::~Transaction")],
 [],["Lock::Get/Has/Had/GetPrevious"])
p("C09","Lock conversions never grant more than the transaction holds",
 "A lock obtained by converting, subsetting or dynamically requesting from another lock only ever grants permissions the underlying transaction holds, a dynamic request succeeds for every permission set the source lock covers, and fails (returns nothing) for every one the transaction lacks. All locks of one transaction see the same pending changes, except that a read-only subset keeps seeing the state at the start of the transaction; a component cannot be changed through a lock without write permission for it.",
 ["inputs","configurations"],"Every pair of source and requested permission sets over the component types and AddRemove, and every ECS state read through the converted lock.",
 "The tests try a handful of conversions, always between plain read/write locks; the decision is computed by template metaprogramming plus run-time bitsets over all combinations.",
 [LK,PE],[("compile-time subset relation","is_lock_subset / has_permissions / is_*_allowed"),("run-time read/write bitsets","DynamicLock::TryLock"),("cleared permission bits select the read buffer","Lock::ReadOnlySubset")],
 [("permission bitsets","what the transaction and a dynamic lock hold",LK)],["DynamicLock::TryLock","Lock::Subset/ReadOnlySubset/has_permissions"])
p("C10","A transaction lives until its last lock is gone, one per instance and thread",
 "A transaction's changes become visible to others exactly when the last lock referring to it is released, never earlier and never more than once. Starting a second transaction on the same ECS instance from the same thread while one is active throws and leaves the active transaction and the instance usable, transactions on different instances may be active together in any nesting and release order up to the documented limit, and once released a new one can be started; transaction identifiers are never reused.",
 ["histories"],"Every order of starting, copying, subsetting and releasing locks of several ECS instances on one thread.",
 "The tests nest once on the same instance and once across two instances; the per-thread list of active transactions has to be right for every order of starts, failures and releases.",
 [TX,LK,CC,H],[("per-thread list of active instances checked at start and pruned at end","BaseTransaction"),("reference-counted transaction owned by locks","Lock")],
 [("active transaction list","instances with an active transaction on this thread",CC)],["ECS::StartTransaction","exceptions","visibility after release"])
p("C11","Handle packing, comparison, hashing and text are faithful",
 "Converting a handle to its 64-bit form and back gives the same handle, and packing a generation with an instance identifier and unpacking gives both back, for all values and supported integer widths. Equality means same index and generation, ordering is a strict total order consistent with equality, hashing depends on nothing else and distinguishes different handles, a handle is null exactly if its generation is zero, and its text form shows exactly its generation, index and instance.",
 ["inputs","configurations"],"All 2^64 handle values (pairs and triples of them for the relations) and the supported index/generation/identifier widths.",
 "The tests use one handle as a map key; the space is 2^64 values and the widths are configuration macros.",
 [EN],[("bit packing","Entity constructors, operator uint64_t, Generation*/Identifier*"),("comparison, hash, to_string","operator==/!=/<, std::hash, std::to_string")],
 [],["Entity operators","std::hash<Tecs::Entity>","std::to_string"])
p("C12","Entity views behave as bounds-checked ranges over the listing",
 "A view (and any sub-view of it) denotes a contiguous range of the listing: its size, emptiness, indexing, forward and reverse iteration and random-access iterator arithmetic all agree on the same elements in the same order. A sub-view contains exactly the elements from the given offset up to the given count or the end of its parent, and in checked builds any access outside the view's range throws instead of reading another element.",
 ["inputs"],"Every listing size within the bound, every pair of (offset, count) values including the default count and values near the integer limits, every index and iterator offset.",
 "The tests iterate forward over whole listings only; offsets and counts are 64-bit and their sums can wrap.",
 [EV],[("absolute start/end indexes with checks at access","EntityView, EntityView::iterator"),("clamped end of sub-view","EntityView::subview")],
 [("start and end index","range of the view in the listing",EV)],["EntityView members"])
p("C13","Component values are copied, kept and released exactly as the history requires",
 "Component values that own resources are never leaked, destroyed twice or used after destruction by any history of transactions. Once the removal of a component (or of its entity) is committed, and no observer still holds an event for it, no copy of its value remains inside the ECS; values still present are intact.",
 ["histories"],"Every sequence of add, overwrite, remove, destroy, slot reuse and storage growth over transactions, for component types with non-trivial copy and destruction.",
 "The tests watch one shared pointer in one global component; copies live in two buffers, in pending events and in storage that is resized, and each commit path copies them differently.",
 [TX,LK,EN],[("value reset on removal","Lock::RemoveComponents"),("write buffer reset from read buffer","Transaction::~Transaction"),("storage growth","Lock::AllocateComponents")],
 [],["live instance count of an owning component type"])
p("C14","Performance traces are bounded and complete",
 "While a trace is running, each transaction start/end and each lock transition on the metadata and on each component is recorded as one event in the order it happened, up to the fixed capacity and never beyond it; a stopped trace contains exactly the events since it was started. Nothing is recorded when no trace runs, starting twice or stopping without a start throws, and enabling traces changes no transaction result.",
 ["histories","inputs"],"Every number of events relative to the capacity, every sequence of start, transactions and stop.",
 "Only the benchmark builds tracing and it never checks what was recorded; overflow needs more events than the capacity.",
 [TR,ST,TX,H],[("atomic slot counter compared with capacity","TraceInfo::Trace/StartTrace/StopTrace"),("trace points in the locks","ComponentIndex lock functions")],
 [("event buffer and next index","recorded events",TR)],["ECS::StartTrace/StopTrace","PerformanceTrace contents"])
p("C15","Build configurations do not change the behaviour of valid programs",
 "A program that only uses valid handles and held permissions behaves the same, and stays within allocated memory, whether it is built checked or unchecked, with or without tracing, as C++17 or C++20, and with any supported index, generation and identifier width or allocation batch size. When the index type is exhausted, entity creation throws and the entities that exist stay usable.",
 ["configurations","histories"],"The supported configuration macros, and every valid history within the bound under each of them.",
 "The tests run the default widths and batch size only; unchecked mode is run on the same fixed histories.",
 [EN,LK,TX,ST,H],[("TECS_UNCHECKED_MODE, TECS_ENTITY_*_TYPE, TECS_ENTITY_ALLOCATION_BATCH_SIZE, tracing and atomic-wait conditionals","all headers")],
 [],["same observations as C01/C02/C05/C06 under each configuration"])

p("C16","Instances are independent of each other",
 "Every ECS instance is a world of its own: operations, commits, observers and exceptions in one instance change nothing observable in any other, whatever order their transactions are started, interleaved and released in. Instances have different identifiers (as many as the identifier type can represent), also when created by different threads at once, and a handle created by one instance does not exist in another and is rejected there.",
 ["histories","schedules"],"Every interleaving of the transactions of two instances on one thread, every population of both, and every interleaving of two threads creating instances.",
 "The tests use a second instance only for handle confusion; state shared by instances (identifier counters, per-thread transaction counters, caches in static storage) shows up only when the transactions of two instances are interleaved.",
 [H,EN,LK,TX],[("instance identifier allocation","ECS constructor, nextIdentifier"),("identifier stored in handles and checked on access","Lock::NewEntity, Entity::Exists"),("per-thread active transaction counters","BaseTransaction")],
 [],["ECS::GetInstanceId","results of every lock, entity and observer operation in both instances"])

p("S01","No data races between concurrently running transactions",
 "In every interleaving of transactions on different threads, using only the access their permissions give them, no two threads access the same ECS data at the same time with one of them writing: every pair of conflicting accesses is ordered by the library's own synchronization. This covers component values, entity metadata, listings, the free list, global components and observer queues.",
 ["schedules","programs"],"Every interleaving of the atomic operations of two or three concurrent transactions, for every combination of read, write and add/remove permission sets within the bound.",
 "The tests run a few threads with sleeps on x86; a missing or too weak synchronization shows up only in rare interleavings, and a weakened memory order may never show up on x86 at all.",
 [ST,TX,LK,OB],[("reader/writer spinlock per component and for metadata","ComponentIndex lock functions"),("acquire and release orders on lock words","ComponentIndex"),("order of lock, commit and unlock steps","Transaction constructor and destructor")],
 [("reader count and writer state words","lock state of each component",ST)],["happens-before order of conflicting accesses"])
p("S02","A transaction sees other commits all or nothing and a stable snapshot",
 "Everything a transaction reads through its permissions (existence, component sets, values, listings, events) comes from one committed state: for any other transaction, either all of its changes to what is read are visible or none. That state does not change while the transaction holds its locks, whatever other threads start or commit meanwhile, and uncommitted changes of other transactions are never visible.",
 ["schedules","programs"],"Every interleaving of two or three transactions with overlapping multi-component permission sets, including commits that start while readers are active.",
 "The tests check one multi-component commit with one blocked thread; the window between publishing one component and the next is a few instructions.",
 [TX,ST],[("all needed locks taken before use, with rollback","Transaction constructor"),("all commit locks taken before any buffer is swapped","Transaction::~Transaction")],
 [],["values read by concurrent transactions"])
p("S03","Writers of the same data are serialized; no update is lost",
 "When several threads run transactions with write permission for the same component type, or add/remove permission, each one starts from the state committed by the previous one, so that read-modify-write updates are never lost or applied to stale data. Two transactions with write permission for the same component type are never active at the same time, and an add/remove transaction is never active together with any writer.",
 ["schedules","programs"],"Every interleaving of two or three writing transactions over common component types.",
 "The tests start overlapping writers on different components once; lost updates need a second writer to enter between release steps of the first.",
 [ST,TX],[("exclusive writer state per component","ComponentIndex::WriteLock/WriteUnlock"),("write buffer brought up to date before the writer lock is released","Transaction::~Transaction")],
 [("writer state word","free, locked, committing",ST)],["values after all transactions"])
p("S04","Transactions always complete: no deadlock, lost wakeup or lock failure",
 "If every running transaction is eventually released by its owner, every transaction start and every commit on any thread eventually completes, in every interleaving and for all combinations of permission sets. No transaction start or commit ever fails with an internal lock-state error or terminates the program, and after all transactions are released every lock is free again.",
 ["schedules","programs"],"Every interleaving of two or three transactions with arbitrary permission sets; in particular every point at which a thread may go to sleep relative to another thread's state change.",
 "The tests contain a few overlap scenarios with sleeps; a lost wakeup or lock-order inversion needs a particular interleaving and would only show up as a rare hang.",
 [TX,ST],[("never block while holding a lock; roll back instead","Transaction constructor"),("notify after every state change","ComponentIndex unlock functions"),("wait only on a state that will be notified","ComponentIndex::ReadLock/WriteLock/CommitLock")],
 [],["completion of all threads","absence of exceptions"])
p("S05","Transactions only wait for transactions they conflict with",
 "Starting and finishing a read transaction never waits for a write or add/remove transaction that has not begun to commit, and transactions with disjoint component sets (and no add/remove changes) never wait for each other. A write or add/remove transaction that made no mutating access, and the untouched components of one that did, never wait for readers.",
 ["schedules","programs"],"Every interleaving of a transaction with another one that stays open indefinitely, for every pair of non-conflicting permission sets and accesses.",
 "The tests contain four such scenarios with fixed permissions and run only the interleaving the sleeps produce.",
 [TX,ST],[("commit skipped for untouched components","Transaction::~Transaction"),("readers only excluded by a commit","ComponentIndex::ReadLock"),("access flags","BaseTransaction::SetAccessFlag")],
 [("write access flags","which components a transaction may have changed",TX)],["completion while another transaction stays open"])
p("S06","A waiting commit is not overtaken by new readers",
 "Once a committing transaction waits for the readers of a component (or of the entity metadata) to finish, transactions started afterwards that read that data wait until the commit is done and then see its changes. The commit itself waits only for the transactions that were already reading the data when it began to wait, and completes as soon as they have finished, so a continuous stream of new readers cannot delay it forever.",
 ["schedules","programs"],"Every interleaving of an active reader, a committing writer and one or more later readers.",
 "One test overlaps readers with sleeps and passes if the commit gets through eventually; whether a late reader can slip in is a question about all interleavings.",
 [ST,TX],[("commit-pending writer state blocks new readers","ComponentIndex::CommitLock / ReadLock")],
 [],["order of late readers and the pending commit"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
    
