"""Which symbolic executions decide which property, with their bounds."""
ASSUMPTIONS = [
 'the kernel and libc behave like model/env.cpp (inotify(7), directory streams, stat, mount table, clock, pthread mutexes and conditions, std::thread), libstdc++ out-of-line code like model/rt_stl.cpp',
 'sequentially consistent atomics; the machine code equals the LLVM bitcode clang -O1 produces for /repo (Linux, x86-64)',
 'thread switches happen at modelled library and system calls and at atomic operations; races between those points are found by the happens-before check, not by interleaving',
]
PLAN = {}
def P(id, bounds, quick, thorough=(), outside='', **kw): PLAN[id] = dict(bounds=bounds, quick=sorted(quick, key=lambda r: bool(r.get('big'))), thorough=list(thorough), outside=outside, **kw)
def R(h, covers=(), preempt=None, race=False, bounds='', maxinstr=None, big=False, **params):
    r = dict(h=h, params=params, covers=list(covers), bounds=bounds)
    if preempt is not None: r['preempt'] = preempt
    if race: r['race'] = True
    if maxinstr: r['maxinstr'] = maxinstr
    if big: r['big'] = True; r['maxinstr'] = maxinstr or 6000000000
    return r

_dp = ['changed', 'probed']
P('C01', 'one watched directory, 2 entry names of 1-2 symbolic bytes (5 bytes, or 254-255 bytes of which 1-2 are symbolic, for 2 changes; watch descriptors near 2^31), 3 changes out of 9 kinds, recursive or not, events read after each change or in symbolic batches at the end; a directory with 8 entries, 8 of them changed in one batch; a history of 2500 changes; the watched path written relative to the working directory as well; a directory with 120 entries; descriptors from 0 on',
  [R('deep', _dp, big=True, part=1, n=120, few=3), R('c01', ['settled step', 'batch'], steps=2, fd0=0), R('c01', ['settled step', 'batch'], big=True, steps=1, fd0=1030), R('c01', ['settled step', 'batch'], steps=2, rel=1), R('c01', ['settled step', 'batch'], steps=2, rel=4), R('deep', _dp, part=1, n=8), R('deep', _dp, part=3, n=2500), R('c01', ['settled step', 'batch'], steps=3), R('c01', ['settled step', 'batch'], steps=2, nlen=5), R('c01', ['settled step', 'batch'], steps=2, long=1, wd0=2147483600)], [R('c01', ['settled step', 'batch'], steps=4), R('c01', ['settled step', 'batch'], steps=2, nlen=9)], 'longer histories')
P('C02', 'two watched and one unwatched directory, 2 entry names of 1-2 symbolic bytes, 5 initial populations, 2 operations (rename/move/create/delete) with symbolic operands, symbolic batching; also between two directories of one recursive watch; names of 4 and of 255 bytes; watch descriptors above 2^16, any distinct 32-bit cookies; a directory with 10 entries, chained and swapping renames in one batch; the watched path written relative to the working directory as well',
  [R('c02', ['settled move'], steps=1, rel=2), R('deep', _dp, part=1, n=10), R('c02', ['settled move'], steps=2), R('c02', ['batched move'], steps=2, settled=0), R('c02', ['settled move'], steps=2, sub=1, nlen=1, names=3), R('c02', ['batched move'], steps=2, sub=1, nlen=1, names=3, settled=0), R('c02', ['settled move'], steps=1, nlen=4),
   R('c02', ['settled move'], steps=2, long=1, nlen=1, wd0=70000, cookiesym=1), R('c02', ['batched move'], steps=2, settled=0, nlen=1, cookiesym=1)], [R('c02', ['settled move'], steps=3)], 'longer histories; rename exchanges')
P('C03', 'recursive watch, tree of up to 3 levels plus an outside tree, 2 operations with symbolic entry names of 1-2 bytes (1 operation with 4 and 255 bytes) or fixed ones, settled after each, then every directory probed; chains of 7 directories, operations at any 2 levels; 2 operations before any of their events is read (1 with a preemption inside the processing), no name used twice; the root directory "/" watched; the watched path written relative to the working directory as well; a chain of 110 directories',
  [R('deep', _dp, big=True, part=0, n=110, ops=1, few=3), R('c03', ['batch', 'probed'], batch=1, steps=2, strict=1), R('c03', ['batch', 'probed'], batch=1, steps=1, strict=1, preempt=1), R('deep', _dp, part=5, n=1), R('c03', ['settled step', 'probed'], steps=2, rel=1), R('deep', _dp, part=0, n=7, ops=2), R('c03', ['settled step', 'probed'], steps=2, sym=1), R('c03', ['settled step', 'probed'], steps=2, names=3), R('c03', ['settled step', 'probed'], steps=1, sym=1, nlen=4), R('c03', ['settled step', 'probed'], steps=1, sym=1, long=1, nlen=1, wd0=70000)], [R('c03', ['batch', 'probed'], batch=1, steps=3, strict=1), R('c03', ['batch', 'probed'], batch=1, steps=2, preempt=1), R('deep', _dp, part=5, n=2), R('c03', ['settled step', 'probed'], steps=3), R('c03', ['settled step', 'probed'], steps=3, reverse=1, selffirst=0)], 'names used again, for something else, before the watcher caught up; changes inside directories created since then')
P('C04', 'recursive watch, a subdirectory subtree deleted or moved out (and possibly back), symbolic entry names, then changes inside it, recreation under the same name; names of 1-2, 4 and 255 bytes; chains of 6 directories, operations at any 2 levels; 2 operations before any of their events is read; the watched path written relative to the working directory as well; a chain of 110 directories',
  [R('deep', _dp, big=True, part=0, n=110, ops=1, few=3), R('c03', ['batch', 'probed'], batch=1, steps=2), R('c04', ['moved back', 'probed', 'recreated'], len=1, settled=1, rel=1), R('deep', _dp, part=0, n=6, ops=2), R('c04', ['moved back', 'outside is silent', 'probed', 'recreated'], len=2, settled=1), R('c04', ['moved back', 'probed', 'recreated'], len=2, settled=0), R('c04', ['moved back', 'probed', 'recreated'], settled=1, nlen=4), R('c04', ['moved back', 'probed', 'recreated'], settled=1, long=1, nlen=1, wd0=70000)],
  [R('c04', ['probed', 'recreated'], len=3, settled=1), R('c04', ['probed', 'recreated'], len=3, settled=0, reverse=1), R('c03', ['settled step', 'probed'], steps=3)], 'deeper trees')
P('C05', 'one polled directory (recursive or not), 2 changes with symbolic metadata (any 64-bit mtime, size and inode, any owner and permissions) between 2 polls, or 3 with fixed names, or 1 with names of 4 and 255 bytes; a directory with 8 entries, several changed between 2 polls; a history of 900 changes; the watched path written relative to the working directory as well; a directory with 120 entries',
  [R('deep', _dp, big=True, part=1, n=120, few=3, backend=2), R('c05', ['polled', 'difference'], steps=1, sym=0, rec=1, rel=1), R('deep', _dp, part=1, n=8, backend=2), R('deep', _dp, part=3, n=900, backend=2), R('c05', ['polled', 'difference'], steps=2, rec=1), R('c05', ['polled', 'difference'], steps=3, sym=0, tick=1), R('c05', ['polled', 'difference'], steps=1, nlen=4), R('c05', ['polled', 'difference'], steps=1, long=1)], [R('c05', ['polled', 'difference'], steps=3, sym=0), R('c05', ['polled', 'difference'], steps=2, rec=1)], 'longer histories between polls')
P('C06', 'recursive polling watch, tree of up to 3 levels plus an outside tree, 2 operations polled one by one or together (1 with symbolic names of 4 and 255 bytes), then every directory probed; chains of 6 directories, operations at any 2 levels; the root directory "/" watched; the watched path written relative to the working directory as well; a chain of 110 directories',
  [R('deep', _dp, big=True, part=0, n=110, ops=1, few=3, backend=2), R('deep', _dp, part=5, n=1, backend=2), R('deep', _dp, part=0, n=4, ops=1, backend=2, rel=1), R('deep', _dp, part=0, n=6, ops=2, backend=2), R('c06', ['polled', 'difference', 'probed'], each=1), R('c06', ['polled', 'difference', 'probed'], each=0), R('c06', ['polled', 'difference', 'probed'], names=3, tick=1), R('c06', ['polled', 'difference', 'probed'], steps=1, sym=1, nlen=4), R('c06', ['polled', 'difference', 'probed'], steps=1, sym=1, nlen=1, long=1)], [R('deep', _dp, part=5, n=2, backend=2), R('c06', ['polled', 'difference', 'probed'], steps=3, tick=1), R('c06', ['polled', 'difference', 'probed'], each=0)], 'longer histories, deeper trees')
P('C07', 'both backends, 2 addWatch calls with paths from a family of spellings, kinds, permissions, file systems and links; symbolic permission bits and owners',
  [R('c07', ['accepted', 'rejected', 'probed'], calls=2)], [R('c07', ['accepted', 'rejected', 'probed'], calls=2), R('c07', ['accepted', 'rejected', 'probed'], calls=2, magic=1)], 'path spellings outside the family; more than two watches')
P('C08', 'both backends, histories of 4 calls of addWatch and removeWatch (id, path) and directory deletions; ids and directories() compared with the specification after each; 8 watches, any 2 removed and one added again; 277 (poller: 100) watches added and removed one after another; the root directory "/" watched; the watched path written relative to the working directory as well; 26 watches; 600 additions and removals',
  [R('deep', _dp, big=True, part=2, n=26, few=3), R('deep', _dp, big=True, part=2, n=26, few=3, backend=2), R('deep', _dp, big=True, part=6, n=600), R('deep', _dp, big=True, part=6, n=600, backend=2), R('deep', _dp, part=5, n=1), R('deep', _dp, part=5, n=1, backend=2), R('deep', _dp, part=2, n=4, rel=1), R('deep', _dp, part=2, n=4, backend=2, rel=2), R('deep', _dp, part=2, n=8), R('deep', _dp, part=2, n=8, backend=2), R('deep', _dp, part=3, n=2500), R('deep', _dp, part=3, n=900, backend=2), R('c09', ['add failed', 'added again', 'removed by path', 'root deleted', 'unknown id'], steps=4, first=2), R('c07', ['accepted', 'rejected', 'probed'], calls=2)], [R('c09', ['add failed', 'added again', 'removed by path', 'root deleted', 'unknown id'], steps=5)], 'longer histories')
P('C09', 'both backends, histories of 4 calls of addWatch, removeWatch (id, path), deletions, with symbolic names, events pending or settled, then every directory probed; 8 watches, any 2 removed and one added again; 277 (poller: 100) watches added and removed one after another; 26 watches; 600 additions and removals; chains of 110 directories',
  [R('c13', ['probed'], preempt=2, race=True, backend=1, preempts=1), R('c13', ['probed'], preempt=2, race=True, backend=2, preempts=1), R('deep', _dp, big=True, part=2, n=26, few=3), R('deep', _dp, big=True, part=2, n=26, few=3, backend=2), R('deep', _dp, big=True, part=6, n=600), R('deep', _dp, big=True, part=6, n=600, backend=2), R('deep', _dp, big=True, part=0, n=110, ops=1, few=3), R('deep', _dp, part=2, n=8), R('deep', _dp, part=2, n=8, backend=2), R('deep', _dp, part=3, n=2500), R('deep', _dp, part=3, n=900, backend=2), R('c09', ['add failed', 'added again', 'probed', 'removed by path', 'removed with events pending', 'root deleted', 'unknown id'], steps=4)], [R('c09', ['added again', 'probed', 'removed by path', 'removed with events pending', 'root deleted'], steps=5)], 'longer histories')
P('C10', 'up to 3 watches, 2 rounds of up to 2 changes each against a kernel queue of 2, 8 or 1 events; 8 watches; 26 watches',
  [R('deep', _dp, big=True, part=2, n=26, few=3), R('deep', _dp, part=2, n=8), R('c10', ['no overflow', 'overflow', 'second overflow'], rounds=2, events=2, limits=3)], [R('c10', ['no overflow', 'overflow', 'second overflow'], rounds=2, events=2, limits=6)], 'longer queues')
P('C11', 'any stream of 2 (3 with fewer kinds) events with symbolic descriptors, masks, cookies and names, split at any point, to a watcher with a tree of watches',
  [R('c11', ['callback', 'delivered afterwards', 'stream processed'], events=2), R('c11', ['callback', 'delivered afterwards', 'stream processed'], events=3, kinds=3, split=0), R('c11', ['callback', 'delivered afterwards', 'stream processed'], len=2, vrec=1)],
  [R('c11', ['callback', 'delivered afterwards', 'stream processed'], events=3)], 'longer streams; names over 3 bytes')
P('C12', 'both backends, 2 links with symbolic choice of place and target (in the tree, out of it, a parent, each other), both switches on or off, present or created later; a link passed to addWatch directly; links at 7 places of trees with 3 levels leading to 17 kinds of targets (2 links natively, 1 polled)',
  [R('c12', ['followed out of the tree', 'not followed'], links=1, deep=1, backend=1), R('c12', ['followed out of the tree', 'not followed'], links=1, deep=1, backend=2), R('c12', ['followed out of the tree', 'not followed'], links=2, deep=1, backend=1), R('c12', ['followed out of the tree', 'not followed'], links=2), R('c07', ['accepted', 'rejected', 'probed'], calls=1)], [R('c12', ['followed out of the tree', 'not followed'], links=2, deep=1, backend=2), R('c12', ['followed out of the tree', 'not followed'], links=2), R('c12', ['followed out of the tree', 'not followed'], links=2, reverse=1), R('c07', ['accepted', 'rejected', 'probed'], calls=2)], 'more than two links')
P('C20', 'every path of up to 8 symbolic bytes; paths of about 300 bytes ending in 3-5 symbolic ones',
  [R('c20', ['ends in a slash', 'no trailing slash'], part=0, n=3, pad=300), R('c20', ['with a directory'], part=1, n=5, pad=300), R('c20', ['prefix', 'no prefix'], part=2, n=4, pad=300), R('c20', ['several pieces', 'one piece'], part=3, n=3, pad=20),
   R('c20', ['ends in a slash', 'no trailing slash'], part=0, n=8), R('c20', ['plain name', 'with a directory'], part=1, n=8), R('c20', ['prefix', 'no prefix'], part=2, n=8), R('c20', ['several pieces', 'one piece'], part=3, n=8)],
  [R('c20', ['ends in a slash', 'no trailing slash'], part=0, n=12), R('c20', ['plain name', 'with a directory'], part=1, n=12), R('c20', ['prefix', 'no prefix'], part=2, n=10), R('c20', ['several pieces', 'one piece'], part=3, n=10)], 'longer paths')
P('C21', 'every sequence of up to 3 scalar values, every string of up to 5 arbitrary code units; 61 code points of which the last, 43 bytes of which the last 3 are symbolic',
  [R('c21', ['ASCII', 'astral', 'other'], part=0, n=3), R('c21', ['Latin-1'], part=1, n=4), R('c21', [], part=2, n=5), R('c21', [], part=3, n=4), R('c21', ['malformed', 'well-formed'], part=4, n=3), R('c21', [], part=0, n=1, pad=60), R('c21', ['malformed', 'well-formed'], part=2, n=3, pad=40)],
  [R('c21', ['ASCII', 'astral', 'other'], part=0, n=4), R('c21', ['Latin-1'], part=1, n=6), R('c21', [], part=2, n=7), R('c21', [], part=3, n=6), R('c21', ['malformed', 'well-formed'], part=4, n=5)], 'longer strings')
P('C22', 'native backend, two watches with the synthetic-events option symbolically set, unset or zero, recursive or not, 2 operations that bring populated directories in; chains of 5 directories with the option; the watched path written relative to the working directory as well; a chain of 110 directories',
  [R('deep', _dp, big=True, part=0, n=110, ops=1, few=3, synth=1), R('c22', ['step'], steps=1, rel=1), R('deep', _dp, part=0, n=5, ops=2, synth=1), R('c22', ['step', 'synthetic events on the first watch', 'option on a non-recursive watch', 'synthetic events on the second watch only'], steps=2)], [R('c22', ['step', 'synthetic events on the first watch'], steps=3)], 'longer histories; directories with more entries')
P('C23', 'both backends, one system call failing anywhere with any errno (two in a row on a smaller model) while a watch is added or events are processed, then every directory probed',
  [R('c23', ['failure while events were processed', 'probed'], backend=1, adding=0, rel=1), R('c23', ['failure while events were processed', 'probed'], backend=1, adding=0), R('c23', ['failure while events were processed', 'probed'], backend=2, adding=0),
   R('c23', ['addWatch failed', 'watch added in spite of a failure', 'probed'], backend=1, adding=1), R('c23', ['addWatch failed', 'watch added in spite of a failure', 'probed'], backend=2, adding=1),
   R('c23', ['two failures', 'probed'], faults=2, mixed=1, backend=1), R('c23', ['two failures', 'probed'], faults=2, mixed=1, backend=2)],
  [R('c23', ['two failures', 'probed'], faults=2, backend=1, adding=0), R('c23', ['two failures', 'probed'], faults=2, backend=2, adding=0), R('c23', ['two failures', 'probed'], faults=2, backend=1, adding=1), R('c23', ['two failures', 'probed'], faults=2, backend=2, adding=1)], 'more failures')
P('C26', 'both backends, non-recursive watch, 2 operations in and below the watched directory with symbolic names, then every directory probed; the watched path written relative to the working directory as well',
  [R('c26', ['native step', 'polled step', 'probed'], steps=1, rel=1), R('c26', ['native step', 'polled step', 'probed'], steps=2, names=3)], [R('c26', ['native step', 'polled step', 'probed'], steps=3)], 'longer histories')
NA = {}
P('C24', 'every 64-bit file system type; directory on, below or containing the mount, 5 other mount-table entries or 12 of them, 3 working directories, one failing system call; mounts below a recursive watch, present or appearing later; both backends',
  [R('c24', ['local', 'polled', 'remote'], part=0), R('c24', ['remote below', 'local below'], part=1), R('c24', ['remote below', 'local below'], part=2)], outside='several mounts; bind mounts; working directory changes by other threads meanwhile')
P('C25', 'every 32-bit frequency, every clock value (32-bit seconds, microseconds) at each of 3 cycles, 5 ways of constructing the watcher; up to 6 watches and 12 idle cycles; 9 watches and 50 cycles',
  [R('c25', ['idle', 'interval'], big=True, watches=9, cycles=50), R('c25', ['default', 'fallback', 'first', 'interval']), R('c25', ['idle', 'interval'], watches=6, cycles=8), R('c25', ['idle', 'interval'], watches=4, cycles=12)], outside='spurious wakeups; clock jumps during a wait')
P('C16', 'histories of adding, removing, rejected additions, links, arbitrary event streams, renames, failing system calls, calls from callbacks and remote file systems on both backends; all descriptors, streams, kernel watches, threads and heap blocks counted when the watcher is idle and after it was destroyed; 300 additions and removals; descriptors from 0 on',
  [R('deep', _dp, big=True, part=6, n=300, leaks=1), R('deep', _dp, big=True, part=6, n=300, backend=2, leaks=1), R('c09', ['probed', 'removed by path'], steps=2, leaks=1, fd0=0), R('c09', ['probed', 'removed by path', 'removed with events pending', 'root deleted'], steps=3, leaks=1), R('c11', ['stream processed'], events=2, leaks=1), R('c12', ['not followed'], links=1, leaks=1), R('c07', ['accepted', 'rejected'], calls=1, leaks=1)] +
  [R('c23', ['probed'], backend=b, adding=a, leaks=1) for b in (1, 2) for a in (0, 1)] + [R('c23', ['two failures'], faults=2, mixed=1, backend=1, leaks=1), R('c27', ['probed'], leaks=1), R('c22', ['step'], steps=1, leaks=1), R('c03', ['probed'], steps=2, leaks=1), R('c06', ['probed'], leaks=1), R('c24', ['remote below'], part=1, leaks=1), R('deep', _dp, part=3, n=100, leaks=1), R('deep', _dp, part=3, n=100, backend=2, leaks=1), R('deep', _dp, part=0, n=5, ops=1, leaks=1), R('deep', _dp, part=0, n=5, ops=1, backend=2, leaks=1)] + [R('c15', ['counted', 'destroyed', 'never started'], preempt=2, backend=b, preempts=1, leaks=1) for b in (1, 2)],
  [R('c09', ['probed'], steps=4, leaks=1), R('c11', ['stream processed'], events=3, kinds=3, leaks=1), R('c12', ['not followed'], links=2, leaks=1), R('c07', ['rejected'], calls=2, leaks=1), R('c23', ['two failures'], faults=2, mixed=1, backend=2, leaks=1), R('c28', ['never watched', 'watched'], leaks=1), R('c24', ['remote'], part=0, leaks=1)], 'leaks reachable from a live global')
P('C27', 'both backends, two watched directories and an unwatched one, 3 changes, at any of the first 2 (3) callbacks 1 or 2 calls of removeWatch (any id or path), addWatch or directories(), then everything probed; 6 (5) watches with changes pending in all, 2 such calls from any 2 callbacks',
  [R('deep', _dp, part=4, n=6, calls=2), R('deep', _dp, part=4, n=5, calls=2, backend=2), R('c27', ['added', 'listed', 'probed', 'removed by id', 'removed by path'], backend=1, calls=2, skip=2), R('c27', ['added', 'listed', 'probed', 'removed by id', 'removed by path'], backend=2, calls=2, skip=2)],
  [R('c27', ['probed'], calls=2, skip=3), R('c27', ['probed'], calls=1, twice=1, skip=3), R('c27', ['probed'], changes=3)], outside='destroying the watcher from its own callback')
P('C28', 'inotify available or not, 6 ways of constructing, 2 symbolic calls (addWatch, removeWatch, directories) before watch(), watch() called 0-3 times and again later, one more call, changes before and after; descriptors from 0 on',
  [R('c28', ['fallback', 'generic', 'native', 'never watched', 'watched'], steps=1, fd0=0), R('c28', ['fallback', 'generic', 'native', 'never watched', 'watched'], steps=1), R('c25', ['default', 'fallback', 'first', 'interval'])], [R('c28', ['fallback', 'generic', 'native', 'never watched', 'watched'], steps=2), R('c28', ['watched'], steps=3)])
P('C13', 'native backend with 3 watches and pending changes; one user thread and the main thread make any two calls of addWatch, removeWatch (id, path), directories() (failing ones included) against the delivering thread, with up to 2 preemptions at any system call, lock or atomic operation; happens-before race detection on every access',
  [R('c13', ['probed'], preempt=2, race=True, backend=1, preempts=1), R('c13', ['probed'], preempt=2, race=True, backend=1, preempts=2)],
  [R('c13', ['probed'], preempt=2, race=True, backend=1, preempts=3, pairs=1), R('c13', ['probed'], preempt=2, race=True, backend=1, preempts=1, users=2)], 'more preemptions, more threads, longer call sequences')
P('C14', 'the same as C13 with the polling backend, up to 2 preemptions (3 for six pairs of calls)',
  [R('c13', ['probed'], preempt=2, race=True, backend=2, preempts=2), R('c13', ['probed'], preempt=2, race=True, backend=2, preempts=3, pairs=1)],
  [R('c13', ['probed'], preempt=2, race=True, backend=2, preempts=3), R('c13', ['probed'], preempt=2, race=True, backend=2, preempts=1, users=2)], 'more preemptions, more threads, longer call sequences')
_c15 = ['delivered while being destroyed', 'destroyed', 'never started']
P('C15', 'both backends, watch() never called, called early, late or right before the end, up to 2 watches, 6 kinds of pending changes, a call before the destruction, up to 3 preemptions',
  [R('c15', _c15, preempt=2, race=True, backend=1, preempts=3), R('c15', _c15, preempt=2, race=True, backend=2, preempts=3)],
  [R('c15', _c15, preempt=2, race=True, backend=1, preempts=4), R('c15', _c15, preempt=2, race=True, backend=2, preempts=5)], 'more preemptions')
_c17 = ['added', 'callback', 'generic', 'native']
P('C17', 'a C watcher and a C++ watcher in the same world: every 32-bit generic_mode, switch and recursive value, up to 3 options of any number and value, two watches with any function, parameter and missed-events function, then changes (queue overflows included) and removals',
  [R('c17', _c17 + ['moved', 'rejected'], links=1, opts=0, fns=0, adds=2), R('c17', _c17, links=0, opts=1, fns=0, adds=1), R('c17', _c17 + ['removed by id', 'removed by path'], links=0, opts=0, fns=0, adds=2, rm=1),
   R('c17', _c17 + ['missed', 'missed callback is NULL'], links=0, opts=0, fns=1, adds=2)],
  [R('c17', _c17 + ['missed', 'missed callback is NULL'], links=0, opts=0, fns=1, adds=2, steps=2), R('c17', _c17, links=1, opts=1, fns=0, adds=1), R('c17', _c17, links=0, opts=0, fns=0, adds=2, rm=1, steps=2)], 'longer histories; several threads')
P('C18', 'up to 2 watchers alive at once, histories of 3 calls (create, add with any of 2 functions, 2 symbolic 64-bit parameters and 3 missed-events functions, release, remove), every registration probed; 8 directories registered with 2 watchers; a release against deliveries with up to 2 preemptions; 52 registrations',
  [R('c18', ['missed', 'probed', 'released', 'watch removed'], big=True, wide=26), R('c18', ['probed', 'released', 'watch removed'], big=True, wide=26, backend=2), R('c18', ['missed', 'probed', 'released', 'watch removed'], wide=8, backend=1), R('c18', ['probed', 'released', 'watch removed'], wide=8, backend=2), R('c18', ['created again', 'missed', 'probed', 'released', 'watch removed'], steps=3, backend=1), R('c18', ['created again', 'probed', 'released'], steps=3, backend=2)] + [R('c18', ['released'], preempt=2, race=True, **{'race_': 1, 'backend': b, 'preempts': 2}) for b in (1, 2)],
  [R('c18', ['created again', 'missed', 'probed', 'released', 'watch removed'], steps=4, backend=1), R('c18', ['released'], preempt=2, race=True, **{'race_': 1, 'backend': 1, 'preempts': 3}), R('c18', ['released'], preempt=2, race=True, **{'race_': 1, 'backend': 2, 'preempts': 4})], 'longer histories')
P('C19', 'both backends, 2 addWatch calls with paths from a family of spellings, kinds, permissions, file systems and links, or failing for lack of kernel watches; error code and text compared after each, cleared or not; two threads making 2 calls each (failing addWatch, code, text, C text, clear) with up to 2 preemptions and race detection',
  [R('c07', ['accepted', 'error text', 'kernel limit', 'rejected'], calls=2, errors=1), R('c07', ['accepted', 'error text', 'kernel limit', 'rejected'], calls=1, errors=1, magic=1), R('c19', ['C text', 'done'], preempt=2, race=True, preempts=2)], [R('c19', ['C text', 'done'], preempt=2, race=True, preempts=3), R('c19', ['C text', 'done'], preempt=2, race=True, backend=2, preempts=2), R('c07', ['accepted', 'error text', 'kernel limit', 'rejected'], calls=2, errors=1, magic=1)], 'failures of other system calls')
