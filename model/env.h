// Model of the operating system: file tree, inotify, directory streams, mount table, clock, mutexes and threads.
// The functions named m_X stand for libc's X when the code under test is executed symbolically or replayed.
#pragma once
#include "sx.h"
#include <cstring>
#include <sys/inotify.h>

namespace env {
#ifdef BIG // large worlds: deep trees, wide directories, long histories
enum { NAMEMAX = 20, MAXENT = 160, MAXNODE = 512, MAXFS = 4, MAXINST = 3, MAXQ = 2048, MAXW = 200, MAXFD = 1100, PATHMAX = 500, STRMAX = 400, MAXILOG = 2048, MAXCB = 2048 };
#else
enum { NAMEMAX = 20, MAXENT = 16, MAXNODE = 72, MAXFS = 4, MAXINST = 3, MAXQ = 160, MAXW = 64, MAXFD = 12, PATHMAX = 200, STRMAX = 96, MAXILOG = 160, MAXCB = 160 };
#endif
enum Type : uint8_t { T_FREE, T_FILE, T_DIR, T_LNK, T_FIFO };
struct Name { uint8_t len; char s[NAMEMAX]; };
struct Ent { Name name; int node; };
struct Node {
	uint8_t type; uint32_t mode; int nlink; uint64_t mtime, size; uint32_t uid, gid; uint64_t ino; int fs; int parent; char target[64];
	Ent ents[MAXENT]; int nents; int opens; bool mountRoot;
};
struct KEvent { int wd; uint32_t mask, cookie; Name name; int node; };
struct KWatch { int wd; int node; uint32_t mask; };
struct Inst { bool open; int fd; int nextWd; KEvent q[MAXQ]; int head, tail; KWatch w[MAXW]; int nw; int limit; int overflows; int adds; };
struct FS { uint64_t magic; uint64_t dev; };
struct Mount { const char* dir; const char* fsname; };

struct World {
	Node n[MAXNODE]; int nn; FS fs[MAXFS]; Mount mounts[18]; int nmounts; Inst inst[MAXINST]; int cwd; uint32_t uid, euid;
	bool fdUsed[MAXFD]; int fdNode[MAXFD]; int openDirs, openMnts, openFds; uint64_t inoSeq; uint32_t cookie; bool symCookies; uint32_t usedCookies[16]; int nCookies; uint64_t now; // seconds granularity kept separately
	uint64_t timeNs; int faultsLeft; const char* faultUnder; int faultsDone; int faultNode[4]; uint32_t faultMask; bool splitReads; bool mergeEvents; bool deleteSelfFirst; bool reverseDirs;
	int settleWant, idleRuns; bool settleWait; int pollWant; bool pollWait; int sleeps; uint64_t lastSleepNs; int threadsStarted, threadsJoined, threadsEnded;
	bool longNames; int injectedErrno; int spins; bool initFails; uint64_t lastDeadlineSec, lastDeadlineNsec; int held[6]; int heldAtSleep; int selects; int doubleClose; int badFd; int chdirs; int forcedWatchErr; int doneBefore; bool inHook; int syscalls; int mutexDestroyed; int condDestroyed, condInit; int statfsFail; bool started[6], done[6], joined[6]; int liveSleeps; bool enforceLimits; bool symClock, quietFs; uint64_t clkSec, clkUsec; int maxHeldAtSleep; uint64_t sleptTotal; uint32_t splitCookies[16]; int nsplit;
};
extern World W;
extern void ( *onSyscall )( const char* name ); // called at the start of every modelled file-system call made by the code under test

// fault classes (bits of W.faultMask)
enum { F_STAT = 1, F_OPENDIR = 2, F_ADDWATCH = 4, F_READ = 8, F_SELECT = 16, F_STATFS = 32, F_REALPATH = 64, F_CHDIR = 128, F_SETMNT = 256, F_INIT = 512, F_RMWATCH = 1024, F_GETCWD = 2048 };

// the ideal event log: every change of an entry of any directory, watched or not, with the directory's absolute path at that moment
struct IEv { int dir; int node; uint32_t mask, cookie; Name name; int plen; char path[STRMAX]; };
extern IEv ilog[MAXILOG]; extern int nilog;

void init(); // root directory only; uid 1000; no faults
Name mkName( const char* s );
int squeeze( char* s, int n ); int stretch( char* out, const char* s, int n ); // long names
// all of these take absolute paths, emit kernel events, and return 0 / node index or -errno
int mkdirAt( const char* path );
int mkfile( const char* path );                    // create, and close after writing
int createOnly( const char* path );                // create; no write, no close-write
int writeFile( const char* path );                 // modify + close-write
int modifyOnly( const char* path );
int closeWrite( const char* path );
int unlinkAt( const char* path );
int rmdirAt( const char* path );
int renameAt( const char* a, const char* b );
int symlinkAt( const char* target, const char* path );
int linkAt( const char* a, const char* b );
int chmodAt( const char* path, uint32_t mode );
int touch( const char* path );
void rmrf( const char* path );                     // as rm -rf
int lookup( const char* path, bool follow = true ); // node or -errno (no permission checks)
int mkFs( uint64_t magic );                         // new file system, returns index
void mountOn( const char* path, int fs );           // the (empty) directory becomes the root of that file system
void emit( int node, uint32_t mask, uint32_t cookie, const Name& name );
void pushRaw( int inst, int wd, uint32_t mask, uint32_t cookie, const Name& name );
int watchesOn( int node );                          // number of kernel watches on a node
int watchCount();                                   // all kernel watches
void settle();                                      // run the native watcher thread until it is idle and the queue is empty
void polls( int n = 1 );                            // let the polling thread run n further cycles
bool nodePath( int node, char* out );               // absolute path
int openHandles();
}
extern "C" void errorText( char* s, int e );                   // what strerror returns in the model (16 bytes)
namespace env {
void newClock();                                    // symbolic clock: any time between 1970 and 2106, microsecond resolution
uint64_t nowNs();
}
