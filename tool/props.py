"""Property texts; tool/gen.py writes properties.jsonl and MANIFEST.json from them."""
P = []


def prop(id, title, statement, over, qtext, why, files, mech, technique, note, claim=True, reason=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  technique=technique, note=note, claim=claim, reason=reason, state=state))


NOTE = ('Decides the structural part on every path of the current source (resolved calls, inlined bounded path exploration, branch '
        'conditions valued by the rule\'s atoms). It does not execute the program and does not bound runtime values. ')

prop('C01', 'Commit is durable: everything is written and synced before it is published',
     'When a commit reports success, every page modified by the transaction, the change-logs and metadata naming them have been written '
     'to the file and synced before the small record that makes the new state visible is written and synced itself. Whatever point a crash '
     'or power loss hits, a file reopened afterwards therefore shows either the previous or the new state, never a state whose data is missing. '
     'Modified objects, caches and buffered blocks are always drained into the file before that record, and are marked clean only after they were written.',
     ['crash_points', 'histories', 'fault_sequences'],
     'every crash point inside every commit, with every combination of full pages, diffs, extension blocks and metadata pending',
     'the tests kill processes at a few scripted points and never reorder or drop writes; ordering of write and fsync on every path is not observable from them',
     ['src/dbzero/core/storage', 'src/dbzero/core/memory', 'src/dbzero/workspace/Fixture.cpp'],
     [('BDevStorage::flush', 'src/dbzero/core/storage/BDevStorage.cpp'), ('DRAM_IOStream::flushUpdates', 'src/dbzero/core/dram/DRAM_Prefix / storage/DRAM_IOStream.cpp'),
      ('BlockIOStream::flush', 'src/dbzero/core/storage/BlockIOStream.cpp'), ('CFile::fsync', 'src/dbzero/core/storage/CFile.cpp'),
      ('PrefixImpl::commit / PrefixCache::commit', 'src/dbzero/core/memory'), ('Fixture::tryCommit', 'src/dbzero/workspace/Fixture.cpp')],
     'path-sensitive ordering analysis (event typestate over the inlined call paths)',
     NOTE + 'Trusts the C library and the kernel to honour fwrite/fflush/fsync.')

prop('C02', 'Only complete, published data is ever used after reopening or refreshing',
     'Opening, refreshing or copying a file uses only index pages, change-log records and blocks that are complete (their checksum or header '
     'verifies) and that belong to a published state: torn, empty, stale or newer-than-published records are skipped or rejected, never applied. '
     'The newest published version of each page is always the one that is used, and a read that fails half-way leaves the stream position where it was.',
     ['crash_points', 'fault_sequences', 'histories'],
     'every file content a crash, a torn write or a concurrently committing writer can leave behind',
     'the tests reopen files after a handful of scripted crashes; torn records, checksum mismatches and newer-than-published pages practically never occur in them',
     ['src/dbzero/core/storage', 'src/dbzero/core/dram'],
     [('DRAM_IOStream::load / updateDRAMPage / completeApplyChanges', 'src/dbzero/core/storage/DRAM_IOStream.cpp'),
      ('isDRAM_ChunkValid', 'src/dbzero/core/storage/DRAM_IOStream.cpp'), ('BlockIOStream::readBlock / readChunk', 'src/dbzero/core/storage/BlockIOStream.cpp'),
      ('BDevStorage constructor', 'src/dbzero/core/storage/BDevStorage.cpp')],
     'path-sensitive guard enumeration (each combination of validity conditions explored)',
     NOTE + 'Checksum strength itself is trusted.')

prop('C03', 'Past states never change',
     'Once a state has been committed its content is fixed: a snapshot of it reads the same values for ever, whatever is written, deleted, cached, '
     'flushed or evicted afterwards. A later change of a page is always made in a copy that belongs to the running state; a cached page or range is '
     're-used for the new state only when nobody else holds it, and is then removed from the old state; a page version is looked up, fetched and '
     'stored under exactly the state that was asked for; storage never overwrites the pages or diffs of an earlier state; a snapshot can be taken '
     'only of a finalised state and can never be written to.',
     ['histories', 'schedules', 'inputs'],
     'every sequence of reads, writes, commits, cache evictions and open snapshots, over boundary-crossing, wide and diff-encoded pages',
     'tests compare a few snapshots after a few updates with a warm default-size cache; sharing of cached versions between states, ranges and diffs is not exercised',
     ['src/dbzero/core/memory', 'src/dbzero/core/storage', 'src/dbzero/workspace/WorkspaceView.cpp'],
     [('PrefixCache::findPage / findRange / createPage / insertCopy', 'src/dbzero/core/memory/PrefixCache.cpp'), ('PrefixImpl::mapPage / mapBoundaryRange / mapWideRange / getSnapshot', 'src/dbzero/core/memory/PrefixImpl.cpp'),
      ('PageMap', 'src/dbzero/core/memory/PageMap.hpp'), ('BDevStorage::write / writeDiffs / read', 'src/dbzero/core/storage/BDevStorage.cpp'), ('PrefixViewImpl', 'src/dbzero/core/memory/PrefixViewImpl.cpp')],
     'path-sensitive guard enumeration and event ordering over the cache and storage paths',
     NOTE)

prop('C05', 'An atomic operation is applied completely or not at all',
     'Leaving an atomic block normally makes all of its changes part of the running transaction; cancelling it (or leaving it with an exception) '
     'leaves every prefix, object, collection, index, string pool, allocator and cache exactly as before it began. Nothing changed inside reaches the '
     'file, the flush queue or another state before it completes; everything created, changed or freed inside is registered as revocable and is revoked '
     'on cancel, merged on completion; only prefixes open for writing take part, all their components take part in begin, end and cancel alike; the '
     'operation cannot be finished twice, an explicit commit inside is refused, and the lock excluding the autocommit thread is held from begin to end '
     'and released on every exit.',
     ['histories', 'inputs', 'schedules'],
     'every combination of object kinds, page layouts (single, boundary, wide, diff), cache states and open prefixes at begin, end and cancel, and exceptions at every step',
     'tests cancel small blocks with a warm cache and one prefix; residual pages, boundary pages, volatile slabs, deferred frees and failures half-way are practically never combined',
     ['src/dbzero/workspace', 'src/dbzero/core/memory'],
     [('AtomicContext', 'src/dbzero/workspace/AtomicContext.cpp'), ('Fixture / Workspace begin/end/cancelAtomic', 'src/dbzero/workspace'),
      ('PrefixCache::merge / rollback', 'src/dbzero/core/memory/PrefixCache.cpp'), ('PrefixImpl::beginAtomic / endAtomic / cancelAtomic / mapRange', 'src/dbzero/core/memory/PrefixImpl.cpp'),
      ('SlabManager / MetaAllocator / VObjectCache / GC0 atomic phases', 'src/dbzero/core/memory, src/dbzero/workspace/GC0.cpp')],
     'component-symmetry and path-sensitive event-ordering analysis of the begin/end/cancel protocol, including exceptional exits',
     NOTE)

prop('C15', 'The page cache never loses or forgets a modification',
     'Every modification made through the cache is flushed with the transaction it belongs to: taking write access marks the page (or range, or both pages '
     'an object spans) modified and registers it for flushing and for the commit; a page is marked clean only after its content was handed to storage under its own '
     'state, and stays modified when storage refuses; all pages of a multi-page range are written together, including the partial last page kept separately; '
     'pages that are modified or still in use are never evicted, flushed early or replaced in the page index.',
     ['histories', 'inputs', 'resource_limits'],
     'every sequence of modifications, flushes, refusals and evictions, over single, boundary-crossing and multi-page objects and any cache size',
     'tests use a cache larger than their data and small objects; partially modified large objects, refused diffs and eviction under pressure are practically never combined',
     ['src/dbzero/core/memory', 'src/dbzero/core/vspace'],
     [('DP_Lock / WideLock / BoundaryLock flush', 'src/dbzero/core/memory'), ('ResourceLock::setDirty / resetNoFlush', 'src/dbzero/core/memory/ResourceLock.cpp'),
      ('DirtyCache', 'src/dbzero/core/memory/DirtyCache.cpp'), ('CacheRecycler::adjustSize', 'src/dbzero/core/memory/CacheRecycler.cpp'), ('v_ptr::modify', 'src/dbzero/core/vspace/v_ptr.hpp')],
     'path-sensitive event ordering and guard enumeration over the flush, registration and eviction paths',
     NOTE)

prop('C06', 'A reader follows the writer completely and moves only between published states',
     'A read-only prefix notices every state the writer publishes, however far the change-logs have grown, and moves to it as a whole: all index pages '
     'of that state are read and verified first, every page changed since the previous state is dropped from its caches, every cached object, buffer, '
     'index root and string pool is detached before the state number moves. Index pages that do not belong together, or lead to another state than '
     'announced, are never used; pages of a state not yet published are not announced; a read that fails half-way is repeated later from the same place; '
     'a file in which nothing new was found is looked at again next time. A prefix open for writing is never refreshed.',
     ['schedules', 'histories', 'fault_sequences'],
     'every interleaving of the writer\'s block writes with the reader\'s reads, over change-logs of any length and with extension space',
     'tests refresh after a few commits; a reader that meets a half-written block, or a change-log that outgrows its first block (more than 270 commits), never occurs in them',
     ['src/dbzero/core/storage', 'src/dbzero/core/memory', 'src/dbzero/workspace'],
     [('BDevStorage::beginRefresh / completeRefresh', 'src/dbzero/core/storage/BDevStorage.cpp'), ('BlockIOStream::refresh', 'src/dbzero/core/storage/BlockIOStream.cpp'),
      ('PrefixImpl::completeRefresh / PrefixCache::markAsMissing', 'src/dbzero/core/memory'), ('Fixture::refresh / onRefresh', 'src/dbzero/workspace/Fixture.cpp'),
      ('RefreshThread', 'src/dbzero/workspace/FixtureThreads.cpp')],
     'path-sensitive guard enumeration and event ordering over the refresh protocol, including exceptional exits',
     NOTE)

prop('C14', 'Commit, detach and flush reach every persistent object and all of its parts',
     'A commit first applies everything objects still buffer (index builders, class schemas, tags), then finalises every modified object through the operations registered '
     'for its own type, every shared structure of the prefix (class, enumeration and tag indexes, string pool, object catalogue) and, in every composite object, '
     'each base and member that keeps mapped data; detach (refresh, cancel, end of an atomic operation) likewise reaches each of them. No collection, index, key type '
     'or cached part is left out, so after a commit or a refresh no part of any object keeps using memory of an older state, and no later modification goes unregistered. '
     'Objects without references found at a commit are remembered for collection, and referenced ones never are.',
     ['histories', 'inputs'],
     'every kind of persistent object and every one of its parts, in every order of modification, commit, refresh and cancel',
     'a forgotten part shows only when the same live object is used across two transactions in exactly that part; tests cover a few of the many combinations',
     ['src/dbzero/object_model', 'src/dbzero/core/collections', 'src/dbzero/core/memory', 'src/dbzero/workspace'],
     [('GC0::commitAllOf / detachAll / flushAllOf', 'src/dbzero/workspace/GC0.cpp'), ('ObjectBase::getGC_Ops', 'src/dbzero/object_model/ObjectBase.hpp'),
      ('Fixture::tryCommit / detach', 'src/dbzero/workspace/Fixture.cpp'), ('commit / detach of every composite class', 'src/dbzero/object_model, src/dbzero/core/collections'),
      ('initializer', 'src/dbzero/object_model/ObjectModel.cpp')],
     'enumeration of every record with its bases and members, and path-sensitive must-call analysis of its commit and detach operations',
     NOTE + 'Members whose operation is empty, shared plumbing (memory spaces) and non-owned handles listed in the rule are exempt.')

prop('C07', 'I/O errors are reported, never swallowed, and leave the file object truthful',
     'A read, write, seek, flush, sync, create, open or close that fails (or transfers less than was asked for) is reported as an error by the operation that needed it; '
     'it never returns as if it had succeeded, and no error handler on the way up ends the propagation, except where the failure is turned into another documented result. '
     'Data is transferred at the requested address, whatever was transferred before and whether or not that failed; data still buffered is flushed before it is read back; '
     'unflushed data stays marked unflushed. A commit whose flush failed does not advance the state and can be repeated. A reader that meets an unfinished write restores its '
     'positions and tries again. A failed open removes the file only if it created it itself, never an existing one; files that are not dbzero files are refused.',
     ['fault_sequences', 'histories'],
     'every failure of every system call at every point of an operation, in any sequence',
     'the tests run on a healthy file system: no write, sync or read ever fails in them',
     ['src/dbzero/core/storage/CFile.cpp', 'src/dbzero/core/storage/BDevStorage.cpp', 'src/dbzero/workspace'],
     [('CFile', 'src/dbzero/core/storage/CFile.cpp'), ('BDevStorage::completeRefresh / readConfig', 'src/dbzero/core/storage/BDevStorage.cpp'),
      ('PrefixImpl::commit', 'src/dbzero/core/memory/PrefixImpl.cpp'), ('Fixture::tryCommit', 'src/dbzero/workspace/Fixture.cpp'),
      ('Workspace::tryGetFixtureEx / BaseWorkspace::openMemspace', 'src/dbzero/workspace/Workspace.cpp')],
     'path-sensitive analysis of every C library result and of every exception handler (each call explored as succeeding and failing)',
     NOTE)

prop('C04', 'Read-only prefixes and snapshots are never modified',
     'A prefix opened read-only, and every snapshot, stays as it is whatever the program does: each operation of the language interface that changes a stored object '
     '(attribute assignment and deletion, every mutator of lists, dicts, sets, tuples, byte arrays and indexes, dropping, creating and storing objects) locks the prefix of '
     'that object for modification before it changes anything, and the lock is refused with an error unless the prefix is open for writing. Tags are changed only if all '
     'objects concerned are writable; classes and enumerations are never created on a read-only prefix. Its file is opened without write access, never created, formatted, '
     'flushed, synced or committed (not even by close), and unreferenced objects are not collected there. A snapshot refuses requests for write access and '
     'cannot be committed; pages it shares with the live cache are frozen so that later transactions copy them instead of changing them in place.',
     ['inputs', 'histories'],
     'every mutating operation of every persistent type on every path, and every place of the workspace and storage where a prefix could be written',
     'tests try a handful of mutators on a read-only prefix; one forgotten lock in any other mutator modifies the in-memory image of a read-only prefix silently',
     ['src/dbzero/bindings/python', 'src/dbzero/object_model', 'src/dbzero/workspace', 'src/dbzero/core/storage'],
     [('FixtureLock', 'src/dbzero/workspace/Fixture.hpp'), ('language-level mutators', 'src/dbzero/bindings/python'), ('ClassFactory / EnumFactory', 'src/dbzero/object_model'),
      ('ObjectTagManager::add / remove', 'src/dbzero/object_model/tags/ObjectTagManager.cpp'), ('WorkspaceView / PrefixViewImpl', 'src/dbzero/workspace, src/dbzero/core/memory'),
      ('Workspace::commit / Fixture::close / BDevStorage::close', 'src/dbzero/workspace, src/dbzero/core/storage')],
     'demand analysis over every user of the mutable-extraction operation (lock before mutation on every path) and guard enumeration over access modes',
     NOTE)

prop('C11', 'Every call from Python succeeds or raises; it never aborts or loses an error',
     'Whatever a Python program passes to the interface, the call returns a result or raises a Python exception; the process does not terminate. No C++ exception leaves an entry of a slot or '
     'method table; an exception of the engine becomes a Python exception and an error value (-1 for integral slots) and the same holds when a Python error is pending after a call. A binary operator '
     'called with a foreign left operand, a method called with too few arguments, and a string that cannot be encoded as UTF-8 are refused or answered with NotImplemented instead of being '
     'dereferenced. Methods are declared with the calling convention they implement. A function that has set an error does not return success, one that returns its error value has '
     'a reason set, and pending errors are not dropped except where an attribute or length is optional.',
     ['inputs'],
     'every entry the interpreter can call (slots, methods, getters), with any number of arguments of any type and any string content',
     'the tests call the methods the way the documentation says; a wrong operand, a missing argument or an unencodable string crashed the process in more than ten places without any test noticing',
     ['src/dbzero/bindings/python'],
     [('runSafe', 'src/dbzero/bindings/python/PyInternalAPI.hpp'), ('slot and method tables', 'src/dbzero/bindings/python'), ('PyToolkit::asUTF8', 'src/dbzero/bindings/python/PyToolkit.cpp')],
     'enumeration of all slot and method tables with exception-escape reachability, argument-count exploration, and path-sensitive analysis of the error protocol',
     NOTE + 'The no-escape rule exempts three entries whose callees cannot fail in the situation they are called in (listed in the rule).')

prop('C22', 'Python references are balanced: no leak, no premature release',
     'Objects of the Python program live exactly as long as they are referenced. Whatever an operation of the interface does, on success, on failure and on every early return, it gives back each '
     'reference it acquired and never gives back one it does not own: a call returns a result its caller owns, items read from stored collections, loaded values, decorated and filtered query '
     'results, enum members, class objects and comparison methods are neither leaked nor released too often. Deallocating an object destroys its native instance before its memory is freed, '
     'every type the module creates objects of can be deallocated, and an index with unflushed updates keeps its Python object alive until it is flushed.',
     ['inputs', 'histories'],
     'every path of every function that handles Python objects, including error paths',
     'a leaked reference does not change any result and a reference released once too often usually crashes much later: tests that check results do not see either',
     ['src/dbzero/bindings/python', 'src/dbzero/object_model'],
     [('Py_OWN / Py_BORROW / shared_py_object', 'src/dbzero/bindings/python/shared_py_object.hpp'), ('language interface', 'src/dbzero/bindings/python'),
      ('unloadMember', 'src/dbzero/object_model/value/Member.cpp'), ('PyInit_dbzero', 'src/dbzero/bindings/python/dbzero.cpp')],
     'path-sensitive ownership (typestate) analysis of Python references with inferred summaries of every function',
     NOTE + 'Reference cycles through Python objects are not considered.')

prop('C12', 'Sets and dictionaries keep each key once and find it by value; iteration holds',
     'A dictionary, set or weak set holds each key once and finds it by its value: keys that only share a hash value are told apart in look-up, insertion, replacement and removal, the hash value used is '
     'always the one dbzero computes for that very key, the recorded size follows every insertion and removal, and an item stays reachable when the storage of its hash value is moved. '
     'Iterators of lists, sets and dictionaries survive changes of the collection: each item that is present throughout the iteration is returned exactly once. '
     'Two values are unequal exactly when they are not equal; an index that is not below the length is refused; every kind of value that can be stored can be read back.',
     ['inputs', 'histories'],
     'all keys (with and without hash collisions), all sequences of insertions, removals and iteration steps, every kind of value',
     'tests use keys that do not collide; with colliding keys the wrong item was removed, and iterating while modifying lost or repeated items, without any test noticing',
     ['src/dbzero/object_model', 'src/dbzero/bindings/python/collections'],
     [('Dict', 'src/dbzero/object_model/dict/Dict.cpp'), ('Set', 'src/dbzero/object_model/set/Set.cpp'), ('WeakSet', 'src/dbzero/object_model/set/WeakSet.cpp'),
      ('iterators', 'src/dbzero/object_model/dict/DictIterator.cpp'), ('collections of the interface', 'src/dbzero/bindings/python/collections')],
     'guard enumeration over key comparison and bucket relocation, counting of size updates on every path, relational check of hash and key arguments, dispatch-table completeness',
     NOTE + 'Does not decide the order of items, the balance of the underlying trees or the quality of hash values. Known limits of the current code (removal of the key an iterator stands on when it was the last of its '
     'hash value) are described in DESIGN.md.')

prop('C13', 'An object stays in the store exactly as long as something refers to it',
     'Storing an object in a member, an item, a key, an index or a tag takes exactly one reference to it; when the member is replaced or deleted, the item removed, the collection cleared or destroyed, '
     'the tag removed or the owner destroyed, exactly that reference is given back. An object is destroyed, with its storage, as soon as neither the store nor the program refers to it and never before: '
     'not while referenced, while used by the program, on a read-only prefix or while a commit runs; what was put off is recorded with the commit and collected when the file is next opened for writing. '
     'A weak reference never keeps its target alive and never yields another object that took its place.',
     ['inputs', 'histories', 'crash_points'],
     'every kind of stored value, every way a reference starts and ends, every interleaving with commits and reopening',
     'a reference too many leaks storage for ever and one too few destroys an object that is still used, long after the operation that was wrong; neither changes the result of that operation',
     ['src/dbzero/object_model', 'src/dbzero/workspace/GC0.cpp'],
     [('createMember / unrefMember', 'src/dbzero/object_model/value/Member.cpp'), ('ObjectImplBase', 'src/dbzero/object_model/object/ObjectImplBase.cpp'), ('Object', 'src/dbzero/object_model/object/Object.cpp'),
      ('GC0', 'src/dbzero/workspace/GC0.cpp'), ('TagIndex', 'src/dbzero/object_model/tags/TagIndex.cpp')],
     'reference-counting (effect) analysis: completeness of dispatch tables, number of references taken and released on every path, release before overwrite, guard enumeration of the collector',
     NOTE + 'Reference cycles keep objects alive by design and are not considered.')

prop('C08', 'One process at a time has a prefix open for writing',
     'Opening an existing prefix for writing takes the lock of its file, under a name derived from the path of the file, before anything is read from it, and what is known of the file (its size) is taken while '
     'the lock is held. If the lock is refused, not obtained in time, or asking for it fails in any way, the prefix is not opened. The lock is held until the file is closed, which happens after everything was '
     'written, and is then given up. Whether to wait, for how long, and whether to remove a left-over lock follow the flags given when the prefix is opened or, without them, those given at init(). '
     'No configuration opens an existing file for writing unlocked, and readers never take the lock.',
     ['schedules', 'inputs'],
     'every interleaving of processes that open, wait for and close the same prefix, every combination of lock flags, every outcome of the locking library',
     'the tests check one refused open; a process that waited for the lock wrote over what the former owner had appended without any test noticing',
     ['src/dbzero/core/storage/CFile.cpp', 'src/dbzero/core/utils/InterProcessLock.cpp', 'src/dbzero/workspace'],
     [('CFile', 'src/dbzero/core/storage/CFile.cpp'), ('InterProcessLock', 'src/dbzero/core/utils/InterProcessLock.cpp'), ('LockFlags', 'src/dbzero/workspace/LockFlags.cpp'),
      ('BaseWorkspace::openMemspace', 'src/dbzero/workspace/Workspace.cpp')],
     'typestate of the lock over all paths of opening and closing, enumeration of the outcomes of the locking library, argument-forwarding analysis of the lock flags, call-graph census of functions that open files',
     NOTE + 'Trusts the locking library (fasteners). Creation of one new prefix by two processes at the same moment is not covered: the file is created before it is locked.')
