# Writes properties.jsonl (kept as a script only to keep the JSON readable).
import json, os
I='src/efsw/FileWatcherInotify.cpp'; G='src/efsw/FileWatcherGeneric.cpp'; D='src/efsw/DirWatcherGeneric.cpp'
S='src/efsw/DirectorySnapshot.cpp'; FI='src/efsw/FileInfo.cpp'; FS='src/efsw/FileSystem.cpp'
PF='src/efsw/platform/posix/FileSystemImpl.cpp'; PS='src/efsw/platform/posix/SystemImpl.cpp'
C='src/efsw/FileWatcherCWrapper.cpp'; L='src/efsw/Log.cpp'; FW='src/efsw/FileWatcher.cpp'; IM='src/efsw/FileWatcherImpl.cpp'
H='include/efsw/efsw.hpp'; HC='include/efsw/efsw.h'
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,obs=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if obs: d['anchors']['observe_at']=obs
    d['anchors']['hook_needed']=None
    P.append(d)
p('C01','Watcher state is never touched by two threads without a common lock',
  'Whatever threads call addWatch, removeWatch, watch and directories at the same time, and while the background thread delivers events, no internal record of watches, of their paths or of pending moves is read by one thread while another writes it, unless both hold a common lock. This holds for the inotify and for the polling backend.',
  ['schedules'],'all interleavings of API calls from any number of threads with the worker thread, both Linux backends',
  'The tests drive the API from one thread; a data race needs a particular interleaving and may corrupt memory silently.',
  [I,'src/efsw/FileWatcherInotify.hpp',G,'src/efsw/FileWatcherGeneric.hpp',D,'src/efsw/WatcherGeneric.cpp'],
  [('mWatchesLock / mRealWatchesLock / mInitLock',I),('mWatchesLock',G)],
  [('mWatches, mRealWatches, mWatchesRef','registries of the active watches',I),('mMovedOutsideWatches, mDeletedWatches','pending moves and watches to free',I),('mWatches','active polling watches',G)])
p('C02','Last error and C callback registry are safe under concurrent use',
  'Setting, reading and clearing the process-wide last error, from any threads and any watchers, never races, and the same holds for the process-wide table of C callbacks and for every other object shared by the whole process. Text returned by the C last-error function is never overwritten by a call made from another thread.',
  ['schedules'],'all interleavings of API calls on any number of watchers in any number of threads',
  'The tests use one watcher at a time from one thread, so the globals are never contended.',
  [L,C],[('last error mutex',L),('g_callbacksMutex',C)],
  [('LastError, LastErrorCode','last error of the process',L),('g_callbacks','listeners created by the C API',C)])
p('C03','No lock cycle: API calls, callbacks and the worker can never deadlock',
  'The locks taken by API calls, by the worker thread and by destruction are always acquired in one consistent order, a thread never blocks on a lock it already holds, no thread is waited for while holding a lock that thread may still need, and no lock is held while sleeping or waiting for notifications. Listeners may call the API of their own watcher from a callback.',
  ['schedules'],'all interleavings of API calls, callbacks and destruction, both Linux backends and the C API',
  'A deadlock needs two threads to meet at particular points; the tests are practically single threaded.',
  [I,G,C,L,'src/efsw/Thread.hpp','src/efsw/Mutex.hpp'],[('recursive mutexes in a fixed order',I),('join without locks in the destructor',I)])
p('C04','Destroying a watcher stops its thread before anything it uses is released',
  'Destroying a watcher always ends its background thread within a bounded time, without needing any further file system event, and waits for it. Only after the thread has ended are the watches, the notification descriptor and the remaining state released, so no callback runs and no freed state is used once destruction returns.',
  ['schedules','histories'],'destruction at any moment of the life of a watcher, started or not, both Linux backends',
  'Tests destroy watchers only when idle; the window between the flag, the join and the release is never hit.',
  [I,G,'src/efsw/Thread.hpp',FW],[('mInitOK flag, bounded wait and join',I),('mInitOK, join',G),('destructor joins','src/efsw/Thread.hpp')])
p('C05','No callback for a watch after removeWatch for it has returned',
  'Once removeWatch, by id or by path, has returned, no listener call is made for that watch nor for any subdirectory it covered, even for events already read from the system, and even when the removal was made by the listener itself in the middle of a batch. Removing a recursive watch removes everything it covered.',
  ['schedules','histories'],'removal at every point of event processing, from another thread or from inside a callback, inotify and polling backends',
  'The removal test waits for quiescence first; the race with an event in flight is not sampled.',
  [I,G,D],[('registration re-checked under mInitLock before every notification',I),('removeWatchLocked removes the subtree',I),('mWatchesLock held during a poll, listener cleared on removal',G)],
  None,['calls to handleFileAction / handleMissedFileActions'])
p('C06','A watch object is never used after it has been freed',
  'The internal object of a watch is freed only when it has been taken out of every table, list and parent link that could reach it, and never while the worker thread may still be using it. Removing, renaming, moving or deleting watched directories in any order, including from inside callbacks, never leaves a dangling reference that is used later.',
  ['schedules','histories'],'every sequence of removals, moves and deletions, relative to every point of the event loop',
  'Use after free shows only with a particular sequence across loop iterations and usually does not crash.',
  [I,'src/efsw/WatcherInotify.cpp',G,D],[('removed watches are queued and freed by the worker at the end of an iteration',I),('subtree removed with its parent',I),('removal during a poll is deferred',G)],
  [('mDeletedWatches','watches out of the tables, not yet freed',I)])
p('C07','Each kernel notification becomes the right report',
  'With the inotify backend a creation is reported as Add, a write or modification as Modified, a deletion as Delete, a rename inside one directory as a single Moved carrying the old name, an arrival from elsewhere as Add followed by Modified, and a departure to elsewhere as Delete; lost events are reported to the listeners through the missed-actions callback. The report carries the id and directory of the watch the notification belongs to, and the name from the notification; no other notification produces a report.',
  ['inputs','histories'],'every combination of notification mask bits, watch and name',
  'The tests see a handful of masks (never a queue overflow, nor combined bits).',
  [I],[('subscription mask',I),('handleAction',I),('overflow handling in the event loop',I)],None,['handleFileAction','handleMissedFileActions'])
p('C08','After a watched directory is renamed every path beneath is rewritten',
  'With the inotify backend, when a directory inside a recursive watch is renamed in place, every watch on it and on any directory below it follows: the paths reported from then on, the paths listed and the paths accepted by removeWatch use the new name. Watches on other directories, including ones whose path merely begins with the same characters, are left as they are. The same holds if the directory has been renamed again, or replaced by another one, before the notification is handled.',
  ['inputs','histories'],'every tree of watched directories and every old and new name',
  'The tests rename one directory with one child; sibling names sharing a prefix, deep trees and removal by the new path are not tried.',
  [I],[('re-rooting loop in the move handler',I)],[('Directory','path of a watch',I),('mWatchesRef','path to id index',I)])
p('C09','Pending renames are neither lost nor paired with the wrong file',
  'With the inotify backend a departure is combined with an arrival only when both carry the same rename cookie; an arrival that does not match is reported as Add, never as Moved from an unrelated name. Every departure whose arrival does not follow is reported as Delete, also when several departures follow each other, when other events come between, or when the batch ends there.',
  ['inputs','histories'],'every sequence of move notifications over any watches, split in any way into reads',
  'The order and batching of notifications is up to the kernel and the scheduler; tests produce single renames only.',
  [I],[('currentMoveFrom / cookie / OldFileName state machine',I)],[('mMovedOutsideWatches','departures without arrival',I)])
p('C10','Recursive watches cover every eligible directory, old and new',
  'A recursive watch covers each readable directory below it: all those present when it is added, at any depth, and every directory that later appears in a covered directory by creation or by being moved in, together with the directories already inside it, also if it has been renamed, or has replaced an empty watched one, before the notification is handled. A directory is left out only if it cannot be accessed, is on a remote file system (inotify backend only), is a link excluded by the link rules, or is already watched.',
  ['inputs','histories'],'every directory tree and every creation or move into it, inotify and polling backends',
  'Tests use trees one or two levels deep with one new directory at a time.',
  [I,D,'src/efsw/WatcherGeneric.cpp'],[('recursion in addWatch, checkForNewWatcher',I),('addChildren, createDirectory',D)])
p('C11','Non-recursive watches never reach into subdirectories',
  'A watch added as non-recursive reports changes of the direct entries of its directory only: no watch is ever created for a subdirectory, neither when it is added nor when subdirectories appear, are moved or are renamed later, and nothing inside a subdirectory is reported. Every subdirectory watch of a recursive watch is itself recursive and uses the same listener and id.',
  ['inputs','histories'],'every directory tree and history, inotify and polling backends',
  'No test checks the absence of events from inside a subdirectory that appears later.',
  [I,D],[('Recursive checks',I),('Recursive checks',D)])
p('C12','Links are followed only when allowed and only in scope',
  'A recursive watch enters a linked directory only if following links is enabled, and then only if the target lies inside the directory holding the link or out-of-scope links are also enabled, and only if the target is not already watched. A watch added directly on a link is allowed if the target is in scope, or if following links and out-of-scope links are both enabled; otherwise it fails with the out-of-scope error (or repeated, if its target is already watched), and one that is allowed watches the real path of the target.',
  ['inputs','configurations'],'every link, target, setting of both switches, both backends, both at addition and when the link appears later',
  'Two tests cover two of the combinations on one backend path.',
  [I,D,G,IM,FW,FS],[('linkAllowed',IM),('followSymlinks checks',I),('followSymlinks checks',D)])
p('C13','addWatch validates its argument and a failed addWatch leaves nothing behind',
  'addWatch on something that is not an existing directory fails with FileNotFound, on an unreadable one with FileNotReadable, on one already added with FileRepeated; otherwise the new id is returned and the watch is active. When a negative code is returned no watch is registered, no callback will come for it and the same path can be added later.',
  ['inputs','fault_sequences'],'every path argument and every failure of the underlying system calls, both backends',
  'Tests add only valid directories; the error paths and kernel failures are not exercised.',
  [I,G,FW],[('checks at the start of addWatch',I),('checks at the start of addWatch',G)])
p('C14','The set of active watches is tracked exactly',
  'directories() lists exactly the directories the user added and has not removed, each once, and a path is accepted with or without its trailing separator with the same meaning in addWatch and removeWatch. Adding and removing keep all internal tables in agreement, so a removed watch can be added again and removing it by id or by path has the same effect; removing something unknown changes nothing.',
  ['histories','inputs'],'every sequence of additions and removals by id or path',
  'Tests add one or two watches and remove one by id.',
  [I,G,FS],[('coupled updates of the tables',I),('mWatches',G),('dirAddSlashAtEnd',FS)],
  [('mWatches, mRealWatches, mWatchesRef','by id, added by user, by path',I)])
p('C15','A directory poll reports the exact difference with the previous one',
  'With the polling backend, comparing a directory with its previous snapshot classifies every entry correctly: new entries as created, entries whose attributes changed as modified, entries that are gone as deleted, and an entry whose old name is gone and whose file appears under a new name as moved, never two of these for one change; an entry replaced by one of the other kind counts as a deletion and a creation. Files and directories are kept apart, and the snapshot is updated so that the same difference is never reported again and none is lost.',
  ['inputs','histories'],'every pair of consecutive directory contents, including hard links, replaced files and a removed directory',
  'Tests change one file between polls.',
  [S,FI,'src/efsw/DirectorySnapshotDiff.cpp'],[('DirectorySnapshot::scan',S),('FileInfo comparison',FI)])
p('C16','Every polled difference becomes its report and updates the tree',
  'With the polling backend each created, modified, deleted and moved file or directory found by a poll is reported once with the matching action, the bare name, the path of its directory and, for moves, the old name. A new directory starts being watched and its contents are reported, a deleted one stops being watched after its contents are reported as deleted, a moved one keeps being watched under its new path, and every watched subdirectory is polled in each round.',
  ['inputs','histories'],'every set of differences and every tree',
  'Tests cover one difference per poll and shallow trees.',
  [D,'src/efsw/WatcherGeneric.cpp',G],[('DirWatcherGeneric::watch',D),('createDirectory, removeDirectory, moveDirectory',D)])
p('C17','The C API means exactly what the C++ API means',
  'Each C function has the effect of its C++ counterpart: arguments, flags and options are passed on unchanged, results and events come back unchanged, including the old name, the user parameter and the watch id. All action, error and option codes have equal values in both interfaces.',
  ['inputs'],'every C function, argument and event',
  'The C test program is a demo that checks no result.',
  [C,HC,H],[('wrapper functions and Watcher_CAPI',C)])
p('C18','C callbacks live exactly as long as they can be called',
  'The listener behind a C callback exists from before its watch is registered until the watcher it was registered with has been released and its thread has ended, and is then freed: releasing a watcher frees all of its listeners and none of another watcher. A listener is reused for a new watch only if watcher, function, user parameter and missed-actions function are all the same.',
  ['histories','schedules'],'every sequence of create, add, remove and release over any number of watchers',
  'The C demo creates one watcher with one callback and never checks memory.',
  [C],[('find_callback, remove_callbacks, efsw_release',C)],[('g_callbacks','listeners alive',C)])
p('C19','A failed call always leaves its code and text as the last error',
  'Every negative code returned by addWatch is also the code returned by the last-error query, together with a non-empty text that names the problem of that code and the path or system message; clearing resets both. Every documented error code has its own text.',
  ['inputs','fault_sequences'],'every error code and failing path',
  'No test reads the last error.',
  [L,H],[('createLastError',L)],[('LastError, LastErrorCode','last error',L)])
p('C20','System handles and buffers are released on every path',
  'Every directory stream, mount table, notification descriptor, synchronisation object, system-allocated string and heap buffer obtained by the library is released exactly once on every path, including the failing ones, so that any number of operations can be repeated without exhausting descriptors or memory.',
  ['inputs','fault_sequences'],'all paths through the functions that acquire system resources',
  'A leak on an error path needs the error and thousands of repetitions to show.',
  [PF,PS,FI,I,G,FW],[('opendir/closedir, setmntent/endmntent',PF),('realpath/free',FI),('inotify_init/close',I)])
p('C21','Results of failed system calls are never used',
  'When a system call that fills in a structure, buffer or descriptor fails, what it would have filled in is not used: the documented fallback applies (missing file, local file system, end of listing, fallback backend, no event). No decision or report depends on uninitialised data, so two looks at an unchanged file always compare equal.',
  ['fault_sequences','inputs'],'every failure of stat, statfs, realpath, opendir, readlink, getcwd, read, inotify calls',
  'Tests never make system calls fail.',
  [PF,FI,FS,I,PS],[('result checks',PF),('result checks',FI)])
p('C22','The working directory of the process is unchanged by any call',
  'No API call leaves the current working directory of the process different from what it was before, on success and on every failure.',
  ['fault_sequences','inputs'],'every path through the mount point lookup used for FUSE file systems',
  'Tests do not run on FUSE mounts nor make chdir, stat or getcwd fail.',
  [PF],[('findMountPoint saves and restores',PF)])
p('C23','Remote file systems are refused by the native backend, local ones accepted',
  'With the inotify backend adding a directory on a known network, cluster or kernel-pseudo file system type fails with the remote error, FUSE block file systems are remote unless their mount has a backing device entry, and every other type is accepted; the polling backend accepts all of them. The same classification keeps recursive watches from entering remote subdirectories.',
  ['inputs','configurations'],'every file system type number',
  'Tests run on one local file system.',
  [PF,FW,I,D],[('isRemoteFS',PF),('FileWatcher::addWatch',FW)])
p('C24','The requested backend is used, with one worker and a working fallback',
  'A watcher created in generic mode polls with the requested frequency; otherwise the native backend is used, and if it cannot be initialised the polling backend replaces it so that the watcher still works. Calling watch any number of times starts one worker thread, and every public call reaches the chosen backend.',
  ['configurations','fault_sequences','histories'],'all constructors and settings, failing initialisation, repeated calls',
  'Initialisation of inotify never fails in tests and watch is called once.',
  [FW,I,G,'src/efsw/Thread.hpp'],[('constructor and fallback',FW),('watch()',I)])
p('C25','Options take effect only as given',
  'An option has the value given for it in the option list, the first one if repeated, and its documented default otherwise, whatever other options are present. Synthetic Add reports are produced only by watches that asked for them, once for each entry found in a directory that appears later, and subdirectory watches inherit the setting.',
  ['configurations','inputs'],'every list of options',
  'No test passes options.',
  [IM,I,C],[('getOptionValue',IM),('syntheticEvents',I)])
p('C26','Every notification in a batch is handled once and memory bounds are kept',
  'Whatever the number and size of notifications returned by one read, each is decoded and handled exactly once in order, with no access beyond the data returned, and a failed or empty read is handled as no event. Descriptor numbers of any size are supported.',
  ['inputs'],'every content and length of the notification buffer, every descriptor number',
  'Tests produce small batches and low descriptor numbers.',
  [I],[('event loop cursor',I)])
p('C27','Timely delivery',
  'Every change made while a watch is active is reported within a bounded time after it happens, unless a missed-actions report is made.',
  ['schedules','histories'],'all schedules and kernel timings',
  'Depends on the kernel queue and the scheduler; tests wait for seconds and sample a few changes.',
  [I,G],[('event loop',I)])
p('C28','Polling notices every change of a file',
  'With the polling backend every change of the content of a file between two polls is reported.',
  ['histories','inputs'],'all pairs of contents and times',
  'Needs the time stamps of the file system; whole seconds are compared.',
  [FI],[('FileInfo comparison',FI)])
p('C29','Other platforms keep the same guarantees',
  'The Windows, macOS and BSD backends give the same guarantees as the Linux ones.',
  ['configurations','schedules'],'other operating systems',
  'Not built on this platform.',
  ['src/efsw/FileWatcherWin32.cpp','src/efsw/FileWatcherFSEvents.cpp','src/efsw/FileWatcherKqueue.cpp'],[('backends','src/efsw')])
p('C30','Unicode conversions round trip',
  'Converting a string between UTF-8, UTF-16, UTF-32 and wide characters and back gives the same string for all valid text.',
  ['inputs'],'all strings',
  'No test converts strings.',
  ['src/efsw/Utf.inl','src/efsw/String.cpp'],[('encoding tables','src/efsw/Utf.inl')])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'properties.jsonl')
with open(out,'w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
print(len(P))
