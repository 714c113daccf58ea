#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the statements are reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=None)))
INO='src/efsw/FileWatcherInotify.cpp'; GEN='src/efsw/FileWatcherGeneric.cpp'; DW='src/efsw/DirWatcherGeneric.cpp'
SNAP='src/efsw/DirectorySnapshot.cpp'; FI='src/efsw/FileInfo.cpp'; FS='src/efsw/FileSystem.cpp'
PFS='src/efsw/platform/posix/FileSystemImpl.cpp'; PSYS='src/efsw/platform/posix/SystemImpl.cpp'
CW='src/efsw/FileWatcherCWrapper.cpp'; LOG='src/efsw/Log.cpp'; IMPL='src/efsw/FileWatcherImpl.cpp'; FW='src/efsw/FileWatcher.cpp'
CB='FileWatchListener::handleFileAction callbacks'
LINUXHIST='histories of file-system operations, name choices, and the points at which the watcher thread reads the kernel queue (so every split of the event stream into batches)'

prop('C01','Native watch of one directory reports exactly what happened',
 'For a directory watched with the native Linux backend, every creation, content change and deletion of an entry directly inside it that the kernel announces is delivered to the listener of that watch, in the kernel\'s order, as Add, Modified and Delete respectively. Each callback carries the id addWatch returned, the watched directory path ending in a slash, the plain entry name and an empty old name. Nothing is delivered that does not correspond to such a change.',
 ['histories','schedules'], LINUXHIST, 'The tests issue one or a few operations with seconds of slack; they never see other batchings, repeated operations on the same name, or several watches at once.',
 [INO],[('run(): read loop and dispatch by watch descriptor',INO),('handleAction(): mask to Action',INO)],
 [('mWatches','watch descriptor to watch',INO)],[CB])
prop('C02','Renames and moves are classified and paired correctly',
 'With the native Linux backend a rename inside one watched directory is delivered as one Moved callback with the new name and the old name, and a move between two watched directories, out of the watched tree, or into it, as Delete of the old name in the source directory and Add of the new name in the destination directory (whichever of the two is watched). An entry is never reported as moved from a name that was not renamed to it, whatever other events surround the move. If the two halves of a rename are read from the kernel separately, Delete of the old and Add of the new name is the accepted alternative to Moved.',
 ['histories','schedules'], LINUXHIST+'; one and two watched directories', 'Pairing depends on cookies, on neighbouring events and on how reads split the queue; tests perform isolated moves only.',
 [INO],[('currentMoveFrom / cookie pairing in run()',INO),('OldFileName in handleAction()',INO),('mMovedOutsideWatches sweep in run()',INO)],
 [('OldFileName','pending source name of a rename','src/efsw/Watcher.hpp'),('mMovedOutsideWatches','sources whose destination never showed up',INO)],[CB])
prop('C03','A recursive native watch covers the whole current tree',
 'While a recursive native watch is active and the watcher has caught up with the kernel queue, a change to an entry of any readable subdirectory then in the tree is delivered exactly as for the root directory, with the id of the root watch and the current path of that subdirectory. This covers subdirectories that existed when the watch was added, were created later (including several levels at once), were moved in from outside, or were renamed or moved inside the tree, and everything below them.',
 ['histories','schedules'], LINUXHIST+'; trees up to three levels', 'Tests create one directory and wait; the property quantifies over sequences of directory creation, rename, move and removal relative to watcher progress.',
 [INO,'src/efsw/WatcherInotify.cpp'],[('addWatch() recursion',INO),('checkForNewWatcher()',INO),('Directory rewriting after IN_MOVED_TO in handleAction()',INO)],
 [('Directory','current path of each watched directory','src/efsw/Watcher.hpp')],[CB])
prop('C04','Directories that leave a watched tree are forgotten',
 'After a subdirectory of a recursive native watch is deleted or moved out of the tree and the watcher has caught up, nothing that happens inside it is reported any more, and no kernel watch on it or on anything below it is kept. If a directory of the same name is created again, or the same directory is moved back in, it is covered again.',
 ['histories','schedules'], LINUXHIST+'; removal by rmdir, move out, and rename over an existing directory', 'No test removes or moves out a directory and then acts on it again; the stale-state combinations are not sampled.',
 [INO],[('IN_DELETE branch of handleAction()',INO),('mMovedOutsideWatches sweep in run()',INO),('removeWatchLocked()',INO)],
 [('mDeletedWatches','removed watches awaiting deallocation',INO)],[CB,'inotify_rm_watch calls'])
prop('C05','The poller reports the difference between consecutive listings',
 'On each poll the generic (polling) backend reports, for every watched directory, exactly the difference between the previous and the current listing of its regular files and directories: new names as Add, vanished names as Delete, and names whose modification time, size, owner, group, permissions or inode changed as Modified. A vanished name whose inode now appears under a new name is reported as Moved from the old to the new name instead of Delete and Add, and names that did not change produce no callback. This holds even if the directory\'s own modification time, which has one-second resolution, did not change.',
 ['inputs','histories'], 'arbitrary pairs and triples of consecutive directory listings with arbitrary attributes', 'Six generic tests are disabled upstream as racy exactly because of this behaviour; sampling with sleeps cannot cover the space of listing pairs.',
 [SNAP,DW,FI],[('DirectorySnapshot::scan()',SNAP),('DirWatcherGeneric::watch()',DW),('FileInfo::operator==',FI)],
 [('Files','previous listing',SNAP)],[CB])
prop('C06','A recursive polling watch covers the whole current tree',
 'With a recursive watch of the generic backend, after each poll every readable local subdirectory in the tree is itself tracked: changes inside it are reported on the following poll with the id of the watch and that subdirectory\'s current path, including subdirectories that were created, renamed or replaced after the watch was added. When a subdirectory appears (or becomes readable) what it holds is reported as Add at all levels, when it disappears what was known of it is reported as Delete, a subdirectory renamed in place is reported as Moved alone, and one replaced by another directory as Modified with the difference of their contents.',
 ['histories'],'sequences of directory trees observed at successive polls', 'Tests only create one directory with one file after a pause.',
 [DW,'src/efsw/WatcherGeneric.cpp'],[('addChildren()/createDirectory()/removeDirectory()/moveDirectory()',DW)],
 [('Directories','child directory trackers',DW)],[CB])
prop('C07','addWatch accepts or rejects each path with the documented result',
 'For both backends addWatch returns a positive id exactly when the path is an existing readable directory that is not already watched by that FileWatcher and that passes the symlink-scope rule and (native backend) is not on a remote file system. Otherwise it returns, first match first, FileRemote if remote (native backend), FileNotFound if it is no existing directory, FileNotReadable if its owner may not read it (and the caller is not root), FileRepeated if already watched (for the generic backend also as a subdirectory of a recursive watch), FileOutOfScope if the symlink target is not allowed, and registers nothing: no callback, no entry in directories() and no kernel watch results. A trailing slash on the path makes no difference.',
 ['inputs','configurations'],'path kind (missing, file, directory, symlink to each, dangling), mode bits, caller privilege, remote or local file system, prior watches, backend','Tests add valid temporary directories only; no test checks a single error code.',
 [INO,GEN,FW,IMPL],[('FileWatcher::addWatch()',FW),('FileWatcherInotify::addWatch()',INO),('FileWatcherGeneric::addWatch()',GEN),('linkAllowed()',IMPL)],
 [('mRealWatches','user-added native watches',INO)],['addWatch return value','directories()'])
prop('C08','Watch ids are unique and directories() lists the live watches',
 'At any time the ids of the active watches of one FileWatcher are positive and pairwise distinct, and directories() returns exactly the directories of the watches that were added successfully and not removed since, each once and with a trailing slash. Failed additions, subdirectories covered by a recursive watch, and file-system events never change that list\'s membership (for watched trees that do not overlap).',
 ['histories'],'sequences of addWatch and removeWatch calls (by id and by path, valid and invalid arguments) on both backends, interleaved with events','The tests never call directories() and never mix several additions and removals.',
 [INO,GEN],[('mRealWatches bookkeeping',INO),('mWatches/mLastWatchID',GEN)],[('mLastWatchID','last id given out',GEN)],['addWatch return value','directories()'])
prop('C09','removeWatch silences exactly the watch it names',
 'Once removeWatch (by id or by directory path) has returned, the removed watch and, if recursive, everything below it deliver no further callback, its kernel watches are gone once the watcher has caught up, and the directory can be watched again. All other watches keep working unchanged, and removing an unknown id or path has no effect.',
 ['histories','schedules'],'sequences of addWatch, removeWatch, file-system operations and watcher progress on both backends','One test removes a single native watch and waits; it does not examine siblings, subdirectories, re-adding or unknown arguments.',
 [INO,GEN],[('removeWatchLocked()',INO),('removeWatch()',GEN)],[('mWatchesRef','path to descriptor',INO)],[CB,'inotify_rm_watch calls'])
prop('C10','Lost kernel events are announced',
 'When the kernel reports that its event queue overflowed, handleMissedFileActions is called once per overflow for every watch the user added on that FileWatcher, with its id and directory, and event delivery continues correctly afterwards. handleMissedFileActions is never called when nothing was lost.',
 ['histories','fault_sequences'],'event streams with overflow notifications at any position, any number of watches','Overflow needs thousands of pending events and never happens in the tests.',
 [INO],[('IN_Q_OVERFLOW branch of handleAction()',INO),('dispatch by descriptor in run()',INO)],[],['FileWatchListener::handleMissedFileActions callbacks'])
prop('C11','Any kernel event stream is processed memory-safely',
 'For every well-formed inotify event stream (any descriptors, masks, cookies and names, in any order and batching, including events for unknown or removed descriptors) the native watcher thread neither reads or writes invalid or freed memory nor uses uninitialised data, terminates each batch, and delivers callbacks only for descriptors of active watches.',
 ['inputs','histories'],'symbolic event records: descriptor, mask, cookie, name and batching are all unconstrained within the record format','Tests can only provoke the handful of orderings the local kernel happens to produce.',
 [INO],[('record parsing loop in run()',INO),('deferred deletion through mDeletedWatches',INO)],[('mMovedOutsideWatches','raw watch pointers kept across events',INO)],['memory accesses',CB])
prop('C12','Symbolic links are followed only as configured',
 'With followSymlinks off, no recursive watch of either backend ever descends through a symbolic link to a directory; with it on, a link is followed only if its target lies below the directory containing the link or allowOutOfScopeLinks is on, and never when the target is already watched. Both switches are off by default, read back what was set, a link to a directory passed directly to addWatch is accepted only if its target lies below the directory containing the link or both switches are on, and links that lead back to their own tree never make a call or a poll run forever.',
 ['configurations','inputs'],'both switches, link targets inside, beside, above and outside the tree, chains and loops, links present at addWatch or created later, both backends','Two tests cover two link placements with one setting each.',
 [INO,DW,IMPL,FS],[('linkAllowed()',IMPL),('getLinkRealPath()',FS),('addWatch()',INO),('addChildren()/createDirectory()',DW)],[],[CB,'addWatch return value'])
prop('C13','The native backend is thread-safe',
 'Calls to addWatch, removeWatch (by id and path) and directories() from user threads may run concurrently with each other and with the watcher thread delivering events: there is no data race, no use of freed memory, no deadlock, and each call takes effect atomically.',
 ['schedules'],'interleavings of one or two user threads with the watcher thread, switching at every synchronisation operation and system call','Tests drive one user thread with long sleeps, so essentially one interleaving is ever seen.',
 [INO,'src/efsw/Thread.hpp','src/efsw/Atomic.hpp',LOG],[('mWatchesLock, mRealWatchesLock, mInitLock',INO)],[('mIsTakingAction','a callback is in progress',INO)],['memory accesses','lock operations'])
prop('C14','The polling backend is thread-safe',
 'Calls to addWatch, removeWatch (by id and path) and directories() from user threads may run concurrently with each other and with the polling thread: there is no data race, no use of freed memory, no deadlock, and ids stay unique.',
 ['schedules'],'interleavings of one or two user threads with the polling thread, switching at every synchronisation operation and system call','Same as the native backend: tests see one interleaving.',
 [GEN,'src/efsw/WatcherGeneric.cpp'],[('mWatchesLock',GEN)],[('mWatches','list of watches',GEN)],['memory accesses','lock operations'])
prop('C15','Destroying a watcher always terminates and silences it',
 'Destroying a FileWatcher of either backend at any moment, with or without watch() having been called, with watches active and events pending or being delivered, returns without deadlock, and no callback is delivered after it has returned.',
 ['schedules','histories'],'interleavings of destruction with the watcher thread and pending events','Tests destroy watchers only when idle.',
 [INO,GEN,'src/efsw/Thread.hpp'],[('~FileWatcherInotify()',INO),('~FileWatcherGeneric()',GEN)],[('mInitOK','the backend is running','src/efsw/FileWatcherImpl.hpp')],[CB,'thread termination'])
prop('C16','Nothing leaks',
 'When a FileWatcher is destroyed every file descriptor, directory stream, mount-table stream, kernel watch, thread and heap block it acquired has been released, each exactly once, whatever calls, failures and events preceded. Rejected addWatch calls and removed watches leave no kernel watch or descriptor behind even before destruction.',
 ['histories','fault_sequences'],'sequences of additions, removals, file-system events and failing system calls on both backends','Tests do not count descriptors or kernel watches and run without leak checking.',
 [INO,GEN,PFS,DW],[('destructors',INO),('closedir/endmntent calls',PFS)],[],['close, closedir, endmntent, inotify_rm_watch, operator delete'])
prop('C17','The C API behaves like the C++ API',
 'Every efsw_* function has exactly the effect of the corresponding C++ call: the same watches with the same recursion and options, the same ids and error codes, the same switches and last-error text, and callbacks with the same id, directory, file name, action and old name, together with the efsw_watcher and the user parameter given for that watch. The missed-events callback is invoked exactly when handleMissedFileActions would be, and may be NULL.',
 ['inputs','histories'],'calls with arbitrary flags, options, parameters and event values through both APIs','There is no test of the C API.',
 [CW,'include/efsw/efsw.h'],[('Watcher_CAPI forwarding',CW)],[('g_callbacks','registered C callbacks',CW)],['C callbacks','return values'])
prop('C18','C API callbacks live exactly as long as their watcher',
 'Each efsw_addwatch call delivers to the function, parameter and missed-events function passed in that very call, for any mix of watchers, functions and parameters. A registered callback stays valid until the last callback of its watcher has been delivered, efsw_release frees all of that watcher\'s registrations and no others, and a watcher created later never inherits old registrations.',
 ['histories','schedules'],'sequences of create, addwatch with equal and different callbacks, release, recreate; release racing with event delivery','No test uses the C API.',
 [CW],[('find_callback()/remove_callback()',CW),('efsw_release()',CW)],[('g_callbacks','registered C callbacks',CW)],['C callbacks','memory accesses'])
prop('C19','The error log always matches the last failure',
 'After any failing addWatch, getLastErrorCode returns the very code addWatch returned and getLastErrorLog a non-empty text containing the path (or system error) concerned, including through efsw_getlasterror. Different error codes have different texts, clearLastError resets both to NoError and the empty string, and successful calls that met no unwatchable subdirectory leave them unchanged. All of these functions may be called by several threads at once: there is no data race, and every text read is one that was stored (or empty).',
 ['histories','inputs','schedules'],'all error codes, arbitrary log strings, sequences of failures, clears and successes; interleavings of two threads','The unit tests never read the error log.',
 [LOG,CW],[('createLastError()',LOG)],[('LastError, LastErrorCode','last failure',LOG)],['Errors::Log::*','efsw_getlasterror'])
prop('C20','Path helpers compute what their names say',
 'For every path string, adding a trailing slash is idempotent and changes at most the last character, removing it undoes adding it, the file name of a path contains no slash and, for paths with a directory part, parent directory plus file name reproduces the path up to a trailing slash. Prefix tests hold exactly when one string starts with the other (non-empty) string, and splitting on the separator yields the pieces between separators, whose join reproduces the string up to a final separator.',
 ['inputs'],'all byte strings up to the stated length','Path helpers have no unit tests; errors show only for unusual names (empty, only slashes, repeated slashes).',
 [FS,'src/efsw/String.cpp'],[('dirAddSlashAtEnd, dirRemoveSlashAtEnd, fileNameFromPath, pathRemoveFileName',FS),('strStartsWith, split','src/efsw/String.cpp')],[],['return values'])
prop('C21','Unicode conversions round-trip and never overrun',
 'For every sequence of Unicode scalar values, converting between UTF-8, UTF-16, UTF-32 and wide strings and back yields the original sequence, each encoding is the standard one, and lengths counted agree with the code points. Decoding arbitrary malformed input terminates, never reads or writes outside the given range, and never produces malformed UTF-8 or UTF-16.',
 ['inputs'],'all code points and all byte/unit sequences up to the stated length','There are no tests of the conversion code.',
 ['src/efsw/Utf.inl','src/efsw/Utf.hpp','src/efsw/String.cpp'],[('Utf<8>, Utf<16>, Utf<32>','src/efsw/Utf.inl'),('String::toUtf8, fromUtf8, toWideString','src/efsw/String.cpp')],[],['return values','memory accesses'])
prop('C22','Watch options take effect exactly where set',
 'With LinuxProduceSyntheticEvents set to non-zero on a recursive native watch, every file and directory (links to them included) already present in a directory that is created in or moved into the tree is reported as Add exactly once by the discovery of that directory, down to all levels (links are not followed); without it (or with zero) no such extra callback appears. Options of other platforms and options on other watches have no effect, and directories present at the initial addWatch are never reported.',
 ['configurations','histories'],'option lists with arbitrary ids and values, trees entering by creation or move','No test passes options.',
 [INO,IMPL],[('getOptionValue()',IMPL),('synthetic event loop in addWatch()',INO)],[('syntheticEvents','option of the watch','src/efsw/WatcherInotify.hpp')],[CB])
prop('C23','System-call failures are survived',
 'If any system call made by either backend fails (permission lost, entry vanished, out of descriptors or kernel watches, interrupted or empty reads, unreadable directories), the library does not crash, hang or use uninitialised data: addWatch returns an error code or an id for a watch that works, and afterwards events in every directory not concerned by the failure are still delivered. A failure on one directory keeps no other from being watched, and one that was hit is looked at again at the latest when it changes (generic backend).',
 ['fault_sequences'],'failures injected at any one or two system calls with any errno the call documents','Tests run without faults.',
 [INO,GEN,PFS,FI,PSYS],[('error branches around inotify_add_watch, read, select',INO),('stat/opendir/readdir error handling',PFS)],[],[CB,'addWatch return value','memory accesses'])
prop('C24','Remote file systems are recognised and rejected',
 'The native backend refuses with FileRemote exactly the directories located on a network or FUSE file system type it lists (FUSE block devices being remote unless the mount point is found in the system mount table), neither watches them nor any subdirectory mounted on one, while the generic backend accepts a remote root. The check leaves the process working directory unchanged and works if the file system cannot be queried.',
 ['inputs','configurations'],'all values of the file-system type, mount-table contents and mount placement','Tests run on one local file system.',
 [PFS,FW,INO],[('isRemoteFS()',PFS),('findMountPoint()/findDevicePath()',PFS),('FileWatcher::addWatch()',FW)],[],['addWatch return value','getcwd()'])
prop('C25','The polling interval is honoured',
 'Between two polls the generic backend waits, uninterrupted by locks, the polling frequency given at construction (1000 ms by default) measured from the current time, with a normalised absolute deadline for every clock value. All watches are polled once in every cycle and the first poll happens immediately after watch().',
 ['inputs','configurations'],'all clock values and frequencies in the stated range','The deadline arithmetic has carries and unit conversions that tests hit with a single frequency.',
 [PSYS,GEN,FW],[('System::sleep()',PSYS),('FileWatcherGeneric::run()',GEN),('FileWatcher constructors',FW)],[('mPollingFreq','polling period in ms',GEN)],['pthread_cond_timedwait deadline'])
prop('C26','A non-recursive watch stays in its directory',
 'A watch added without recursion, on either backend, only ever reports entries directly inside the watched directory: whatever is created, changed, moved or removed inside its subdirectories, including ones created or moved in later, yields no callback other than those for the subdirectory entry itself.',
 ['histories'],'sequences of operations in the directory and in existing, new, renamed and moved-in subdirectories','Tests with non-recursive watches never touch subdirectory contents.',
 [INO,DW],[('Recursive checks',INO),('createDirectory()',DW)],[('Recursive','watch covers subdirectories','src/efsw/Watcher.hpp')],[CB])
prop('C27','Listeners may call back into the watcher',
 'From inside a callback the listener may call addWatch, removeWatch (of any watch, including the one reporting) and directories() on the same FileWatcher, on either backend, without deadlock, crash or use of freed memory; a watch removed there delivers nothing more after the callback returns, and a watch added there works.',
 ['histories','schedules'],'every callback position and every such call with any active watch as argument','No test calls the watcher from a callback.',
 [INO,GEN,DW],[('recursive mutexes','src/efsw/Mutex.hpp'),('mDeletedWatches',INO),('run() iteration',GEN)],[],[CB,'memory accesses'])
prop('C28','The watcher falls back to polling when the native backend is unavailable',
 'If the native backend cannot be initialised, the constructed FileWatcher works as a polling watcher with the requested frequency and all calls behave as documented for the generic backend; if it can, the native backend is used unless generic mode was requested. Calls on any such watcher before or without watch() are safe, and calling watch() repeatedly starts only one thread.',
 ['configurations','fault_sequences'],'inotify initialisation succeeding or failing, constructor arguments, repeated watch() calls','Needs inotify initialisation to fail.',
 [FW,INO,GEN],[('FileWatcher constructor',FW),('watch()',INO)],[('mInitOK','backend initialised','src/efsw/FileWatcherImpl.hpp')],[CB,'addWatch return value','threads created'])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for p in P: f.write(json.dumps(p)+'\n')
for p in P: assert len(p['title'])<=80, p['title']
print(len(P),'properties')
