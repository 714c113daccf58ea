#include "env.h"
#include <cerrno>
#include <cstdlib>
#include <cstddef>
#include <dirent.h>
#include <mntent.h>
#include <poll.h>
#include <pthread.h>
#include <sys/resource.h>
#include <sys/select.h>
#include <sys/stat.h>
#include <sys/statfs.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/ioctl.h>

namespace env {
World W;
IEv ilog[MAXILOG]; int nilog;
void ( *onSyscall )( const char* ) = nullptr;
static int errnos[6];
enum : uint64_t { K_SETTLE = 1, K_POLLMAIN = 2, K_EVENTS = 16 /* +inst */, K_SLEEPER = 64 /* +thread */, K_JOIN = 128 /* +thread */ };
static int fail( int e ) { errnos[sx_self()] = e; return -1; }
static void hook( const char* name ) {
	W.syscalls++;
	// with W.quietFs nothing changes the files meanwhile: only inotify, descriptor and waiting calls can be told apart
	if ( !W.quietFs || ( ( name[0] == 'i' || name[0] == 'c' || name[0] == 's' || name[0] == 'p' || name[0] == 'r' ) && ( !strncmp( name, "inotify", 7 ) || !strcmp( name, "close" ) || !strcmp( name, "select" ) || !strcmp( name, "poll" ) || !strcmp( name, "read" ) || !strncmp( name, "cond", 4 ) || !strcmp( name, "sched_yield" ) ) ) ) sx_sched();
	if ( onSyscall && !W.inHook ) { W.inHook = true; onSyscall( name ); W.inHook = false; }
}
static bool fault( uint32_t cls, const char* name, const char* path = nullptr ) {
	if ( W.faultsLeft <= 0 || !( W.faultMask & cls ) || W.inHook ) return false;
	if ( W.faultUnder && path && strncmp( path, W.faultUnder, strlen( W.faultUnder ) ) != 0 ) return false;
	if ( !sx_choose( 2, name ) ) return false;
	W.faultsLeft--; if ( W.faultsDone < 4 ) W.faultNode[W.faultsDone] = path ? lookup( path ) : -1; W.faultsDone++; sx_notev( name, 1 ); return true;
}
static int failAny() { uint32_t e = sx_u32( "errno" ); sx_assume( ( e != 0 ) & ( e < 134 ) ); W.injectedErrno = e; return fail( e ); } // an injected failure may have any error number
// ---------------------------------------------------------------- file tree
// names starting with '~' are the harness's own: their first byte is one that symbolic names never contain
Name mkName( const char* s ) { Name n; memset( &n, 0, sizeof n ); while ( s[n.len] ) { n.s[n.len] = s[n.len] == '~' ? '\1' : s[n.len]; n.len++; } return n; }
// the byte \2 of a name stands for LONGRUN letters 'L' (only if W.longNames)
enum { LONGRUN = 253 };
int squeeze( char* s, int n ) { int o = 0; for ( int i = 0; i < n; ) { if ( s[i] == 'L' ) { int k = i; while ( k < n && s[k] == 'L' ) k++; while ( k - i >= LONGRUN ) { s[o++] = '\2'; i += LONGRUN; } while ( i < k ) s[o++] = s[i++]; } else s[o++] = s[i++]; } return o; }
int stretch( char* out, const char* s, int n ) { int o = 0; for ( int i = 0; i < n; i++ ) if ( W.longNames && s[i] == '\2' ) { memset( out + o, 'L', LONGRUN ); o += LONGRUN; } else out[o++] = s[i]; return o; }
static int newNode( uint8_t type ) {
	int i = W.nn++; if ( i >= MAXNODE ) sx_fail( "model: out of nodes" );
	Node& n = W.n[i]; memset( &n, 0, sizeof n ); n.type = type; n.ino = W.inoSeq++; n.nlink = 1; n.uid = W.uid; n.gid = W.uid; n.mtime = W.now; n.parent = -1;
	n.mode = type == T_DIR ? 0755 : type == T_FILE ? 0644 : 0777; return i;
}
void init() {
	memset( &W, 0, sizeof W ); W.inoSeq = 100; W.uid = W.euid = 1000; W.now = 1000; W.timeNs = 1000000000000ull; W.fs[0].magic = 0xEF53; W.fs[0].dev = 1; W.cookie = 7;
	newNode( T_DIR ); W.n[0].parent = 0; W.mounts[0].dir = "/"; W.mounts[0].fsname = "/dev/root"; W.nmounts = 1; W.cwd = 0; W.mergeEvents = true;
	for ( int i = 0; i < MAXINST; i++ ) { W.inst[i].fd = -1; W.inst[i].limit = MAXQ; W.inst[i].nextWd = 1; }
	for ( int i = 0; i < (int)sx_param( "fd0", 3 ); i++ ) W.fdUsed[i] = true;
}
static bool nameEq( const Name& a, const char* s, int len ) {
	if ( a.len != len ) return false;
	unsigned d = 0; for ( int i = 0; i < len; i++ ) d |= (unsigned)(unsigned char)( a.s[i] ^ s[i] );
	return d == 0;
}
static int findEnt( int dir, const char* s, int len ) {
	Node& d = W.n[dir]; for ( int i = 0; i < d.nents; i++ ) if ( nameEq( d.ents[i].name, s, len ) ) return i; return -1;
}
static bool may( int node, uint32_t bit ) { return W.euid == 0 || ( W.n[node].mode & bit ); }
// resolves a path; *last / *lastLen: final component, *dirOut: its directory (for creation)
static int walk( const char* path, bool follow, bool perms, int* dirOut, Name* last ) {
	char buf[PATHMAX * 2]; int bl = 0;
	if ( W.longNames ) { static char big[4096]; int n = 0; while ( path[n] ) { if ( n >= 4095 ) return -ENAMETOOLONG; big[n] = path[n]; n++; } bl = squeeze( big, n ); if ( bl > PATHMAX ) return -ENAMETOOLONG; memcpy( buf, big, bl ); buf[bl] = 0; }
	else { while ( path[bl] ) { if ( bl >= PATHMAX ) return -ENAMETOOLONG; buf[bl] = path[bl]; bl++; } buf[bl] = 0; }
	if ( bl == 0 ) return -ENOENT;
	int cur = buf[0] == '/' ? 0 : W.cwd, pos = 0, links = 0; bool trailing = false;
	if ( dirOut ) *dirOut = -1;
	for ( ;; ) {
		while ( buf[pos] == '/' ) { pos++; trailing = true; }
		if ( !buf[pos] ) { if ( trailing && W.n[cur].type != T_DIR ) return -ENOTDIR; return cur; }
		int st = pos; while ( buf[pos] && buf[pos] != '/' ) pos++;
		int len = pos - st; int nx = pos; bool slashAfter = buf[pos] == '/'; while ( buf[nx] == '/' ) nx++; bool isLast = !buf[nx];
		trailing = slashAfter;
		if ( W.n[cur].type != T_DIR ) return -ENOTDIR;
		if ( perms && !may( cur, 0100 ) ) return -EACCES;
		if ( len == 1 && buf[st] == '.' ) { if ( isLast ) return cur; continue; }
		if ( len == 2 && buf[st] == '.' && buf[st + 1] == '.' ) { cur = W.n[cur].parent; if ( isLast ) return cur; continue; }
		if ( len >= NAMEMAX ) return -ENAMETOOLONG;
		int e = findEnt( cur, buf + st, len );
		if ( isLast && dirOut ) { *dirOut = cur; if ( last ) { memset( last, 0, sizeof *last ); last->len = len; memcpy( last->s, buf + st, len ); } }
		if ( e < 0 ) return -ENOENT;
		int node = W.n[cur].ents[e].node;
		if ( W.n[node].type == T_LNK && ( !isLast || follow || slashAfter ) ) {
			if ( ++links > 8 ) return -ELOOP;
			char nb[PATHMAX * 2]; int o = 0; const char* t = W.n[node].target; while ( *t ) nb[o++] = *t++;
			int r = pos; while ( buf[r] ) { if ( o >= PATHMAX * 2 - 1 ) return -ENAMETOOLONG; nb[o++] = buf[r++]; } nb[o] = 0;
			memcpy( buf, nb, o + 1 ); pos = 0; if ( buf[0] == '/' ) cur = 0; trailing = false; continue;
		}
		cur = node;
		if ( isLast ) { if ( slashAfter && W.n[cur].type != T_DIR ) return -ENOTDIR; return cur; }
	}
}
int lookup( const char* path, bool follow ) { return walk( path, follow, false, nullptr, nullptr ); }
bool nodePath( int node, char* out ) {
	int chain[MAXNODE], n = 0; while ( node != 0 ) { if ( n >= MAXNODE ) return false; chain[n++] = node; node = W.n[node].parent; if ( node < 0 ) return false; }
	int o = 0; if ( n == 0 ) { out[o++] = '/'; out[o] = 0; return true; }
	for ( int i = n - 1; i >= 0; i-- ) {
		Node& p = W.n[W.n[chain[i]].parent]; int e = -1; for ( int k = 0; k < p.nents; k++ ) if ( p.ents[k].node == chain[i] ) e = k;
		if ( e < 0 ) return false; out[o++] = '/'; memcpy( out + o, p.ents[e].name.s, p.ents[e].name.len ); o += p.ents[e].name.len;
	}
	out[o] = 0; return true;
}
// ---------------------------------------------------------------- inotify events
static void enqueue( Inst& I, int wd, uint32_t mask, uint32_t cookie, const Name& name, int node ) {
	if ( I.tail > I.head ) {
		KEvent& t = I.q[I.tail - 1];
		if ( W.mergeEvents && t.wd == wd && t.mask == mask && t.cookie == cookie && t.name.len == name.len && cookie == 0 && t.mask != IN_IGNORED ) {
			unsigned d = 0; for ( int i = 0; i < name.len; i++ ) d |= (unsigned char)( t.name.s[i] ^ name.s[i] );
			if ( d == 0 ) return;
		}
		if ( I.tail - I.head >= I.limit ) {
			if ( t.mask != IN_Q_OVERFLOW ) { KEvent& o = I.q[I.tail++]; memset( &o, 0, sizeof o ); o.wd = -1; o.mask = IN_Q_OVERFLOW; o.node = -1; I.overflows++; }
			return;
		}
	}
	if ( I.tail >= MAXQ ) sx_fail( "model: event queue too small" );
	KEvent& e = I.q[I.tail++]; e.wd = wd; e.mask = mask; e.cookie = cookie; e.name = name; e.node = node;
	sx_wake( K_EVENTS + ( &I - W.inst ) );
}
void pushRaw( int inst, int wd, uint32_t mask, uint32_t cookie, const Name& name ) {
	Inst& I = W.inst[inst]; KEvent& e = I.q[I.tail++]; e.wd = wd; e.mask = mask; e.cookie = cookie; e.name = name; e.node = -1; sx_wake( K_EVENTS + inst );
}
static void logIdeal( int dir, uint32_t mask, uint32_t cookie, const Name& name, int node ) {
	if ( nilog >= MAXILOG ) sx_fail( "model: ideal log full" );
	IEv& e = ilog[nilog++]; e.dir = dir; e.node = node; e.mask = mask; e.cookie = cookie; e.name = name; char p[PATHMAX]; if ( !nodePath( dir, p ) ) p[0] = 0;
	int l = (int)strlen( p ); if ( l > STRMAX - 2 ) sx_fail( "model: path too long" ); memcpy( e.path, p, l ); if ( l > 1 ) e.path[l++] = '/'; e.path[l] = 0; e.plen = l;
}
void emit( int node, uint32_t mask, uint32_t cookie, const Name& name ) {
	if ( name.len && ( mask & ( IN_CREATE | IN_DELETE | IN_MODIFY | IN_CLOSE_WRITE | IN_MOVE ) ) ) logIdeal( node, mask, cookie, name, -1 );
	for ( int i = 0; i < MAXINST; i++ ) { Inst& I = W.inst[i]; if ( !I.open ) continue;
		for ( int k = 0; k < I.nw; k++ ) if ( I.w[k].node == node && ( I.w[k].mask & mask & IN_ALL_EVENTS ) ) {
			enqueue( I, I.w[k].wd, mask, cookie, name, node );
			if ( I.w[k].mask & IN_ONESHOT ) { Name none = mkName( "" ); int wd = I.w[k].wd; I.w[k] = I.w[--I.nw]; enqueue( I, wd, IN_IGNORED, 0, none, node ); }
			break; } }
}
static void evict( int node ) { // the last link to an inode is gone
	Name none = mkName( "" ); emit( node, IN_DELETE_SELF, 0, none );
	for ( int i = 0; i < MAXINST; i++ ) { Inst& I = W.inst[i]; if ( !I.open ) continue;
		for ( int k = 0; k < I.nw; k++ ) if ( I.w[k].node == node ) { int wd = I.w[k].wd; I.w[k] = I.w[--I.nw]; enqueue( I, wd, IN_IGNORED, 0, none, node ); break; } }
	W.n[node].nlink = 0;
}
static int addEnt( int dir, const Name& nm, int node ) {
	Node& d = W.n[dir]; if ( d.nents >= MAXENT ) sx_fail( "model: directory full" );
	d.ents[d.nents].name = nm; d.ents[d.nents].node = node; d.nents++; d.mtime = W.now; if ( W.n[node].type == T_DIR ) W.n[node].parent = dir; return 0;
}
static void delEnt( int dir, int e ) { Node& d = W.n[dir]; for ( int i = e; i + 1 < d.nents; i++ ) d.ents[i] = d.ents[i + 1]; d.nents--; d.mtime = W.now; }
static int mk( const char* path, uint8_t type, uint32_t isdir, const char* target ) {
	int dir; Name nm; int r = walk( path, false, false, &dir, &nm ); if ( r >= 0 ) return -EEXIST; if ( r != -ENOENT || dir < 0 ) return r;
	int n = newNode( type ); W.n[n].fs = W.n[dir].fs; if ( target ) { size_t l = strlen( target ); if ( l > 63 ) return -ENAMETOOLONG; memcpy( W.n[n].target, target, l + 1 ); W.n[n].size = l; }
	addEnt( dir, nm, n ); emit( dir, IN_CREATE | isdir, 0, nm ); return n;
}
int mkdirAt( const char* p ) { return mk( p, T_DIR, IN_ISDIR, nullptr ); }
int createOnly( const char* p ) { return mk( p, T_FILE, 0, nullptr ); }
int symlinkAt( const char* t, const char* p ) { return mk( p, T_LNK, 0, t ); }
static int evOn( const char* path, uint32_t mask, bool change ) {
	int dir; Name nm; int r = walk( path, false, false, &dir, &nm ); if ( r < 0 ) return r; if ( dir < 0 ) return -EINVAL;
	if ( W.n[r].type == T_DIR && ( mask & ( IN_MODIFY | IN_CLOSE_WRITE ) ) ) return -EISDIR;
	if ( change ) { W.n[r].size++; W.n[r].mtime = W.now; }
	emit( dir, mask | ( W.n[r].type == T_DIR ? IN_ISDIR : 0 ), 0, nm ); Name none = mkName( "" ); emit( r, mask | ( W.n[r].type == T_DIR ? IN_ISDIR : 0 ), 0, none ); return r;
}
int modifyOnly( const char* p ) { return evOn( p, IN_MODIFY, true ); }
int closeWrite( const char* p ) { return evOn( p, IN_CLOSE_WRITE, false ); }
int writeFile( const char* p ) { int r = modifyOnly( p ); if ( r >= 0 ) closeWrite( p ); return r; }
int mkfile( const char* p ) { int r = createOnly( p ); if ( r >= 0 ) closeWrite( p ); return r; }
int chmodAt( const char* p, uint32_t mode ) { int r = evOn( p, IN_ATTRIB, false ); if ( r >= 0 ) W.n[r].mode = mode; return r; }
int touch( const char* p ) { int r = evOn( p, IN_ATTRIB, false ); if ( r >= 0 ) W.n[r].mtime = W.now; return r; }
int linkAt( const char* a, const char* b ) {
	int s = walk( a, false, false, nullptr, nullptr ); if ( s < 0 ) return s; if ( W.n[s].type == T_DIR ) return -EPERM;
	int dir; Name nm; int r = walk( b, false, false, &dir, &nm ); if ( r >= 0 ) return -EEXIST; if ( r != -ENOENT || dir < 0 ) return r;
	addEnt( dir, nm, s ); W.n[s].nlink++; emit( dir, IN_CREATE, 0, nm ); return s;
}
int unlinkAt( const char* p ) {
	int dir; Name nm; int r = walk( p, false, false, &dir, &nm ); if ( r < 0 ) return r; if ( W.n[r].type == T_DIR ) return -EISDIR;
	delEnt( dir, findEnt( dir, nm.s, nm.len ) ); bool last = --W.n[r].nlink == 0;
	if ( W.deleteSelfFirst && last ) evict( r );
	emit( dir, IN_DELETE, 0, nm ); if ( !W.deleteSelfFirst && last ) evict( r ); return 0;
}
int rmdirAt( const char* p ) {
	int dir; Name nm; int r = walk( p, false, false, &dir, &nm ); if ( r < 0 ) return r; if ( W.n[r].type != T_DIR ) return -ENOTDIR; if ( W.n[r].nents ) return -ENOTEMPTY;
	delEnt( dir, findEnt( dir, nm.s, nm.len ) );
	if ( W.deleteSelfFirst ) evict( r );
	emit( dir, IN_DELETE | IN_ISDIR, 0, nm ); if ( !W.deleteSelfFirst ) evict( r ); return 0;
}
static void rmTree( int dir, const char* path ) {
	while ( W.n[dir].nents ) { Ent e = W.n[dir].ents[0]; char sub[PATHMAX]; size_t l = strlen( path ); memcpy( sub, path, l ); sub[l] = '/'; memcpy( sub + l + 1, e.name.s, e.name.len ); sub[l + 1 + e.name.len] = 0;
		if ( W.n[e.node].type == T_DIR ) { rmTree( e.node, sub ); rmdirAt( sub ); } else unlinkAt( sub ); }
}
void rmrf( const char* p ) { int r = lookup( p, false ); if ( r < 0 ) return; if ( W.n[r].type == T_DIR ) { rmTree( r, p ); rmdirAt( p ); } else unlinkAt( p ); }
int renameAt( const char* a, const char* b ) {
	int da, db; Name na, nb; int s = walk( a, false, false, &da, &na ); if ( s < 0 ) return s; if ( da < 0 ) return -EBUSY;
	int t = walk( b, false, false, &db, &nb ); if ( t < 0 && ( t != -ENOENT || db < 0 ) ) return t; if ( t >= 0 && db < 0 ) return -EBUSY;
	if ( t == s ) return 0;
	if ( W.n[s].type == T_DIR ) { for ( int x = db;; x = W.n[x].parent ) { if ( x == s ) return -EINVAL; if ( x == 0 ) break; } }
	if ( W.n[da].fs != W.n[db].fs ) return -EXDEV;
	if ( t >= 0 ) { if ( W.n[t].type == T_DIR ) { if ( W.n[s].type != T_DIR ) return -EISDIR; if ( W.n[t].nents ) return -ENOTEMPTY; } else if ( W.n[s].type == T_DIR ) return -ENOTDIR; }
	uint32_t isd = W.n[s].type == T_DIR ? IN_ISDIR : 0;
	if ( t >= 0 ) delEnt( db, findEnt( db, nb.s, nb.len ) );
	delEnt( da, findEnt( da, na.s, na.len ) ); addEnt( db, nb, s );
	if ( W.symCookies ) { W.cookie = sx_u32( "cookie" ); for ( int k = 0; k < W.nCookies; k++ ) sx_assume( W.usedCookies[k] != W.cookie ); if ( W.nCookies < 16 ) W.usedCookies[W.nCookies++] = W.cookie; } else W.cookie++;
	emit( da, IN_MOVED_FROM | isd, W.cookie, na ); emit( db, IN_MOVED_TO | isd, W.cookie, nb );
	Name none = mkName( "" ); emit( s, IN_MOVE_SELF | isd, 0, none );
	if ( t >= 0 ) { if ( W.n[t].type == T_DIR ) evict( t ); else if ( --W.n[t].nlink == 0 ) evict( t ); }
	return 0;
}
int mkFs( uint64_t magic ) { for ( int i = 1; i < MAXFS; i++ ) if ( !W.fs[i].dev ) { W.fs[i].dev = 10 + i; W.fs[i].magic = magic; return i; } sx_fail( "model: out of file systems" ); }
static void setFs( int node, int fs ) { W.n[node].fs = fs; for ( int i = 0; i < W.n[node].nents; i++ ) setFs( W.n[node].ents[i].node, fs ); }
void mountOn( const char* p, int fs ) { int r = lookup( p ); if ( r >= 0 ) { setFs( r, fs ); W.n[r].mountRoot = true; } }
int watchesOn( int node ) { int c = 0; for ( int i = 0; i < MAXINST; i++ ) if ( W.inst[i].open ) for ( int k = 0; k < W.inst[i].nw; k++ ) if ( W.inst[i].w[k].node == node ) c++; return c; }
int watchCount() { int c = 0; for ( int i = 0; i < MAXINST; i++ ) if ( W.inst[i].open ) c += W.inst[i].nw; return c; }
int openHandles() { return W.openFds + W.openDirs + W.openMnts; }
void settle() { W.settleWait = true; W.settleWant = 3; W.idleRuns = 0; sx_block( K_SETTLE ); }
void polls( int n ) { W.pollWait = true; W.pollWant = n; for ( int t = 1; t < 6; t++ ) sx_wake( K_SLEEPER + t ); sx_block( K_POLLMAIN ); }
void newClock() { W.symClock = true; W.clkSec = sx_u32( "clock seconds" ); W.clkUsec = sx_range( 0, 1000000, "clock microseconds" ); }
uint64_t nowNs() { return W.symClock ? W.clkSec * 1000000000 + W.clkUsec * 1000 : W.timeNs; }
static void passTime( uint64_t ns ) { if ( W.symClock ) newClock(); else W.timeNs += ns; }
static void envSleep( uint64_t ns ) { // the calling thread waits; it wakes when nothing else can run, or when the scheduler preempts
	int t = sx_self(); W.sleeps++; W.lastSleepNs = ns; W.sleptTotal += ns; passTime( ns ); W.heldAtSleep = W.held[t]; if ( W.held[t] > W.maxHeldAtSleep ) W.maxHeldAtSleep = W.held[t];
	if ( t != 0 && W.pollWait && --W.pollWant == 0 ) { W.pollWait = false; sx_wake( K_POLLMAIN ); }
	sx_sleep( K_SLEEPER + t );
}
static void idleWait( uint64_t key, uint64_t ns ) { // select/poll timing out or waiting for an event
	int t = sx_self(); passTime( ns ); W.heldAtSleep = W.held[t];
	if ( t != 0 && W.settleWait && ++W.idleRuns >= W.settleWant ) { W.settleWait = false; sx_wake( K_SETTLE ); }
	sx_sleep( key );
}
} // namespace env
using namespace env;

extern "C" {
int* m___errno_location() { return &errnos[sx_self()]; }
// ---------------------------------------------------------------- files
static void fillStat( struct stat* st, int r ) {
	memset( st, 0, sizeof *st ); Node& n = W.n[r];
	st->st_mode = n.mode | ( n.type == T_DIR ? S_IFDIR : n.type == T_LNK ? S_IFLNK : n.type == T_FIFO ? S_IFIFO : S_IFREG );
	st->st_ino = n.ino; st->st_nlink = n.nlink; st->st_uid = n.uid; st->st_gid = n.gid; st->st_size = n.size; st->st_mtime = n.mtime; st->st_ctime = n.mtime; st->st_atime = n.mtime; st->st_dev = W.fs[n.fs].dev;
}
static int doStat( const char* p, struct stat* st, bool follow, const char* nm ) {
	hook( nm ); if ( fault( F_STAT, "fault.stat", p ) ) return failAny();
	int r = walk( p, follow, true, nullptr, nullptr ); if ( r < 0 ) return fail( -r ); fillStat( st, r ); return 0;
}
int m_stat( const char* p, struct stat* st ) { return doStat( p, st, true, "stat" ); }
int m_stat64( const char* p, struct stat* st ) { return doStat( p, st, true, "stat" ); }
int m_lstat( const char* p, struct stat* st ) { return doStat( p, st, false, "lstat" ); }
int m_lstat64( const char* p, struct stat* st ) { return doStat( p, st, false, "lstat" ); }
static int fdNode( int fd );
int m_fstatat( int fd, const char* p, struct stat* st, int fl ) {
	char t[PATHMAX]; if ( fd != AT_FDCWD && p[0] != '/' ) { if ( fdNode( fd ) < 0 ) return fail( EBADF ); if ( !nodePath( fdNode( fd ), t ) ) return fail( ENOENT ); size_t l = strlen( t ); if ( p[0] ) { if ( l > 1 ) t[l++] = '/'; memcpy( t + l, p, strlen( p ) + 1 ); } p = t; }
	return doStat( p, st, !( fl & AT_SYMLINK_NOFOLLOW ), "fstatat" );
}
int m_fstatat64( int fd, const char* p, struct stat* st, int fl ) { return m_fstatat( fd, p, st, fl ); }
int m_access( const char* p, int mode ) { hook( "access" ); int r = walk( p, true, true, nullptr, nullptr ); if ( r < 0 ) return fail( -r ); if ( ( mode & R_OK ) && !may( r, 0400 ) ) return fail( EACCES ); if ( ( mode & X_OK ) && !may( r, 0100 ) ) return fail( EACCES ); return 0; }
int m_chdir( const char* p ) { hook( "chdir" ); if ( fault( F_CHDIR, "fault.chdir", p ) ) return failAny(); int r = walk( p, true, true, nullptr, nullptr ); if ( r < 0 ) return fail( -r ); if ( W.n[r].type != T_DIR ) return fail( ENOTDIR ); if ( !may( r, 0100 ) ) return fail( EACCES ); W.cwd = r; W.chdirs++; return 0; }
char* m_getcwd( char* buf, size_t n ) { hook( "getcwd" ); char tmp[PATHMAX]; if ( fault( F_GETCWD, "fault.getcwd" ) ) { failAny(); return nullptr; } if ( !nodePath( W.cwd, tmp ) ) { fail( ENOENT ); return nullptr; } size_t l = strlen( tmp ); if ( l + 1 > n ) { fail( ERANGE ); return nullptr; } memcpy( buf, tmp, l + 1 ); return buf; }
char* m_realpath( const char* p, char* out ) {
	hook( "realpath" ); if ( fault( F_REALPATH, "fault.realpath", p ) ) { failAny(); return nullptr; }
	int dir; Name nm; int r = walk( p, true, true, &dir, &nm ); char tmp[PATHMAX]; if ( r < 0 ) { fail( -r ); return nullptr; }
	if ( W.n[r].type == T_DIR ) { if ( !nodePath( r, tmp ) ) { fail( ENOENT ); return nullptr; } }
	else { if ( !nodePath( dir, tmp ) ) { fail( ENOENT ); return nullptr; } size_t l = strlen( tmp ); if ( l > 1 ) tmp[l++] = '/'; memcpy( tmp + l, nm.s, nm.len ); tmp[l + nm.len] = 0; }
	size_t l = strlen( tmp ); if ( !out ) out = (char*)malloc( 4096 ); memcpy( out, tmp, l + 1 ); return out;
}
ssize_t m_readlink( const char* p, char* buf, size_t n ) {
	hook( "readlink" ); int r = walk( p, false, true, nullptr, nullptr ); if ( r < 0 ) return fail( -r ); if ( W.n[r].type != T_LNK ) return fail( EINVAL );
	size_t l = strlen( W.n[r].target ); if ( l > n ) l = n; memcpy( buf, W.n[r].target, l ); return l;
}
struct MDir { int magic, fd, node; int n, pos; Name names[MAXENT + 2]; uint64_t ino[MAXENT + 2]; uint8_t type[MAXENT + 2]; struct dirent64 de; };
static int newFd( int node = -1 );
static DIR* dirStream( int r, int fd ) {
	MDir* d = (MDir*)malloc( sizeof( MDir ) ); d->magic = 0x4d44; d->n = 0; d->pos = 0; d->fd = fd; d->node = r;
	auto put = [&]( const Name& nm, uint64_t ino, uint8_t t ) { d->names[d->n] = nm; d->ino[d->n] = ino; d->type[d->n] = t; d->n++; };
	put( mkName( "." ), W.n[r].ino, DT_DIR ); put( mkName( ".." ), W.n[W.n[r].parent].ino, DT_DIR );
	for ( int i = 0; i < W.n[r].nents; i++ ) { Ent& e = W.n[r].ents[W.reverseDirs ? W.n[r].nents - 1 - i : i]; uint8_t t = W.n[e.node].type; put( e.name, W.n[e.node].ino, t == T_DIR ? DT_DIR : t == T_LNK ? DT_LNK : t == T_FIFO ? DT_FIFO : DT_REG ); }
	W.openDirs++; return (DIR*)d;
}
DIR* m_opendir( const char* p ) {
	hook( "opendir" ); if ( fault( F_OPENDIR, "fault.opendir", p ) ) { failAny(); return nullptr; }
	int r = walk( p, true, true, nullptr, nullptr ); if ( r < 0 ) { fail( -r ); return nullptr; } if ( W.n[r].type != T_DIR ) { fail( ENOTDIR ); return nullptr; } if ( !may( r, 0400 ) ) { fail( EACCES ); return nullptr; }
	return dirStream( r, -1 );
}
// descriptors of files and directories (a directory stream gets one when it is asked for)
static int fdNode( int fd ) { return fd >= 0 && fd < MAXFD && W.fdUsed[fd] ? W.fdNode[fd] : -1; }
int m_open( const char* p, int fl, int ) {
	hook( "open" ); if ( fault( F_OPENDIR, "fault.opendir", p ) ) return failAny();
	int r = walk( p, !( fl & O_NOFOLLOW ), true, nullptr, nullptr ); if ( r < 0 ) return fail( -r ); if ( ( fl & O_DIRECTORY ) && W.n[r].type != T_DIR ) return fail( ENOTDIR ); if ( W.n[r].type == T_LNK ) return fail( ELOOP );
	if ( ( fl & O_ACCMODE ) != O_RDONLY || ( fl & O_CREAT ) ) sx_fail( "model: open for writing" ); if ( !( fl & O_PATH ) && !may( r, 0400 ) ) return fail( EACCES ); return newFd( r );
}
int m_open64( const char* p, int fl, int m ) { return m_open( p, fl, m ); }
int m_openat( int fd, const char* p, int fl, int m ) { if ( fd != AT_FDCWD && p[0] != '/' ) { char t[PATHMAX]; if ( fdNode( fd ) < 0 ) return fail( EBADF ); if ( !nodePath( fdNode( fd ), t ) ) return fail( ENOENT ); size_t l = strlen( t ); if ( l > 1 ) t[l++] = '/'; memcpy( t + l, p, strlen( p ) + 1 ); return m_open( t, fl, m ); } return m_open( p, fl, m ); }
int m_fstat( int fd, struct stat* st ) { hook( "fstat" ); if ( fault( F_STAT, "fault.stat" ) ) return failAny(); int r = fdNode( fd ); if ( r < 0 ) return fail( EBADF ); fillStat( st, r ); return 0; }
int m_fstat64( int fd, struct stat* st ) { return m_fstat( fd, st ); }
DIR* m_fdopendir( int fd ) { hook( "opendir" ); int r = fdNode( fd ); if ( r < 0 ) { fail( EBADF ); return nullptr; } if ( W.n[r].type != T_DIR ) { fail( ENOTDIR ); return nullptr; } return dirStream( r, fd ); }
int m_dirfd( DIR* dp ) { MDir* d = (MDir*)dp; if ( d->fd < 0 ) d->fd = newFd( d->node ); return d->fd; }
struct dirent64* m_readdir64( DIR* dp ) {
	MDir* d = (MDir*)dp; hook( "readdir" ); if ( d->pos >= d->n ) return nullptr;
	int i = d->pos++; d->de.d_ino = d->ino[i]; d->de.d_type = d->type[i]; d->de.d_off = i; d->de.d_reclen = sizeof d->de; d->de.d_name[stretch( d->de.d_name, d->names[i].s, d->names[i].len )] = 0; return &d->de;
}
struct dirent* m_readdir( DIR* dp ) { return (struct dirent*)m_readdir64( dp ); }
int m_closedir( DIR* dp ) { hook( "closedir" ); MDir* d = (MDir*)dp; if ( d->magic != 0x4d44 ) sx_fail( "closedir of something that is no open directory stream" ); d->magic = 0; if ( d->fd >= 0 ) { W.fdUsed[d->fd] = false; W.openFds--; } free( d ); W.openDirs--; return 0; }
void m_rewinddir( DIR* dp ) { ( (MDir*)dp )->pos = 0; }
int m_statfs( const char* p, struct statfs* b ) {
	hook( "statfs" ); if ( fault( F_STATFS, "fault.statfs", p ) ) return failAny();
	int r = walk( p, true, true, nullptr, nullptr ); if ( r < 0 ) return fail( -r ); memset( b, 0, sizeof *b ); b->f_type = W.fs[W.n[r].fs].magic; b->f_bsize = 4096; return 0;
}
int m_statfs64( const char* p, struct statfs* b ) { return m_statfs( p, b ); }
struct MMnt { int pos; struct mntent ent; char dir[PATHMAX], fs[64]; };
FILE* m_setmntent( const char*, const char* ) { hook( "setmntent" ); if ( fault( F_SETMNT, "fault.setmntent" ) ) { failAny(); return nullptr; } MMnt* m = (MMnt*)malloc( sizeof( MMnt ) ); m->pos = 0; W.openMnts++; return (FILE*)m; }
struct mntent* m_getmntent( FILE* f ) {
	MMnt* m = (MMnt*)f; if ( m->pos >= W.nmounts ) return nullptr; Mount& x = W.mounts[m->pos++];
	memcpy( m->dir, x.dir, strlen( x.dir ) + 1 ); memcpy( m->fs, x.fsname, strlen( x.fsname ) + 1 );
	memset( &m->ent, 0, sizeof m->ent ); m->ent.mnt_dir = m->dir; m->ent.mnt_fsname = m->fs; m->ent.mnt_type = (char*)"ext4"; m->ent.mnt_opts = (char*)"rw"; return &m->ent;
}
int m_endmntent( FILE* f ) { free( f ); W.openMnts--; return 1; }
uid_t m_getuid() { return W.uid; }
uid_t m_geteuid() { return W.euid; }
gid_t m_getgid() { return W.uid; }
gid_t m_getegid() { return W.uid; }
pid_t m_getpid() { return 4242; }
char* m_getenv( const char* ) { return nullptr; }
int m_getrlimit( int, struct rlimit* r ) { r->rlim_cur = 1024; r->rlim_max = 4096; return 0; }
int m_getrlimit64( int w, struct rlimit* r ) { return m_getrlimit( w, r ); }
int m_setrlimit( int, const struct rlimit* ) { return 0; }
int m_setrlimit64( int, const struct rlimit* ) { return 0; }
void errorText( char* s, int e ) { memcpy( s, "system error @@", 16 ); s[13] = (char)( 64 + ( e & 31 ) ); s[14] = (char)( 64 + ( ( e >> 5 ) & 31 ) ); } // the number in two letters
char* m_strerror( int e ) { static char s[16]; errorText( s, e ); return s; }
char* m_strerror_r( int e, char* b, size_t n ) { char s[16]; errorText( s, e ); size_t l = 15; if ( n < 16 ) l = n - 1; memcpy( b, s, l ); b[l] = 0; return b; }
void m_perror( const char* ) {}
// ---------------------------------------------------------------- inotify
static int newFd( int node ) { for ( int i = 0; i < MAXFD; i++ ) if ( !W.fdUsed[i] ) { W.fdUsed[i] = true; W.fdNode[i] = node; W.openFds++; return i; } return fail( EMFILE ); }
int m_inotify_init1( int ) {
	hook( "inotify_init" ); if ( W.initFails || fault( F_INIT, "fault.inotify_init" ) ) return failAny();
	for ( int i = 0; i < MAXINST; i++ ) if ( !W.inst[i].open ) { Inst& I = W.inst[i]; int ov = I.limit; memset( &I, 0, sizeof I ); I.limit = ov; I.open = true; I.nextWd = sx_param( "wd0", 1 ); I.fd = newFd(); return I.fd; }
	return fail( EMFILE );
}
int m_inotify_init() { return m_inotify_init1( 0 ); }
static Inst* instOf( int fd ) { for ( int i = 0; i < MAXINST; i++ ) if ( W.inst[i].open && W.inst[i].fd == fd ) return &W.inst[i]; return nullptr; }
int m_inotify_add_watch( int fd, const char* p, uint32_t mask ) {
	hook( "inotify_add_watch" ); Inst* I = instOf( fd ); if ( !I ) return fail( EBADF );
	if ( fault( F_ADDWATCH, "fault.inotify_add_watch", p ) ) return failAny();
	int r = walk( p, !( mask & IN_DONT_FOLLOW ), true, nullptr, nullptr ); if ( r < 0 ) return fail( -r );
	if ( ( mask & IN_ONLYDIR ) && W.n[r].type != T_DIR ) return fail( ENOTDIR );
	if ( !may( r, 0400 ) ) return fail( EACCES );
	if ( !( mask & IN_ALL_EVENTS ) ) return fail( EINVAL );
	for ( int k = 0; k < I->nw; k++ ) if ( I->w[k].node == r ) { if ( mask & IN_MASK_ADD ) I->w[k].mask |= mask; else I->w[k].mask = mask; return I->w[k].wd; }
	if ( I->nw >= MAXW ) sx_fail( "model: too many kernel watches" );
	KWatch& w = I->w[I->nw++]; w.wd = I->nextWd++; w.node = r; w.mask = mask; I->adds++; return w.wd;
}
int m_inotify_rm_watch( int fd, int wd ) {
	hook( "inotify_rm_watch" ); Inst* I = instOf( fd ); if ( !I ) return fail( EBADF );
	if ( fault( F_RMWATCH, "fault.inotify_rm_watch" ) ) return failAny();
	for ( int k = 0; k < I->nw; k++ ) if ( I->w[k].wd == wd ) { int node = I->w[k].node; I->w[k] = I->w[--I->nw]; Name none = mkName( "" ); enqueue( *I, wd, IN_IGNORED, 0, none, node ); return 0; }
	return fail( EINVAL );
}
static bool ready( int fd ) { Inst* I = instOf( fd ); return I && I->tail > I->head; }
// waits until one of the descriptors is readable or the timeout (one wake-up) passes; ns<0: for ever
static int waitFds( const int* fds, int n, int64_t ns ) {
	W.selects++;
	for ( ;; ) {
		int c = 0; for ( int i = 0; i < n; i++ ) if ( ready( fds[i] ) ) c++;
		if ( c ) { W.idleRuns = 0; if ( ++W.spins > 200 ) sx_fail( "the watcher spins without reading its events" ); return c; }
		if ( ns == 0 ) return 0;
		Inst* I = n ? instOf( fds[0] ) : nullptr;
		idleWait( I ? K_EVENTS + ( I - W.inst ) : K_SLEEPER + sx_self(), ns > 0 ? ns : 0 );
		if ( ns > 0 ) { c = 0; for ( int i = 0; i < n; i++ ) if ( ready( fds[i] ) ) c++; if ( c ) W.idleRuns = 0; return c; }
	}
}
int m_select( int nfds, fd_set* r, fd_set* w, fd_set* e, struct timeval* tv ) {
	hook( "select" ); int fds[MAXFD], n = 0; 
	if ( r ) for ( int i = 0; i < MAXFD && i < nfds; i++ ) if ( FD_ISSET( i, r ) ) { if ( !W.fdUsed[i] ) { W.badFd++; return fail( EBADF ); } fds[n++] = i; }
	if ( fault( F_SELECT, "fault.select" ) ) return failAny();
	int64_t ns = tv ? (int64_t)tv->tv_sec * 1000000000 + (int64_t)tv->tv_usec * 1000 : -1;
	if ( n == 0 ) { if ( ns >= 0 ) envSleep( ns ); else for ( ;; ) sx_block( 999 ); if ( r ) FD_ZERO( r ); return 0; }
	int c = waitFds( fds, n, ns ); FD_ZERO( r ); if ( c ) for ( int i = 0; i < n; i++ ) if ( ready( fds[i] ) ) FD_SET( fds[i], r );
	if ( w ) FD_ZERO( w ); if ( e ) FD_ZERO( e ); return c;
}
int m_pselect( int nfds, fd_set* r, fd_set* w, fd_set* e, const struct timespec* ts, const void* ) { struct timeval tv; if ( ts ) { tv.tv_sec = ts->tv_sec; tv.tv_usec = ts->tv_nsec / 1000; } return m_select( nfds, r, w, e, ts ? &tv : nullptr ); }
int m_poll( struct pollfd* p, nfds_t n, int ms ) {
	hook( "poll" ); int fds[MAXFD], k = 0; for ( nfds_t i = 0; i < n; i++ ) { p[i].revents = 0; if ( p[i].fd >= 0 ) fds[k++] = p[i].fd; }
	if ( fault( F_SELECT, "fault.poll" ) ) return failAny();
	if ( k == 0 ) { envSleep( (uint64_t)ms * 1000000 ); return 0; }
	int c = waitFds( fds, k, ms < 0 ? -1 : (int64_t)ms * 1000000 ); for ( nfds_t i = 0; i < n; i++ ) if ( p[i].fd >= 0 && ready( p[i].fd ) ) p[i].revents = p[i].events & POLLIN; return c;
}
ssize_t m_read( int fd, void* buf, size_t n ) {
	hook( "read" ); Inst* I = instOf( fd ); if ( !I ) { W.badFd++; return fail( EBADF ); }
	if ( fault( F_READ, "fault.read" ) ) { uint32_t k = sx_choose( 2, "errno" ); return k == 0 ? failAny() : 0; }
	while ( I->tail == I->head ) idleWait( K_EVENTS + ( I - W.inst ), 0 );
	int avail = I->tail - I->head; if ( W.splitReads && avail > 1 ) avail = 1 + sx_choose( avail, "batch" );
	char* b = (char*)buf; size_t o = 0; int got = 0;
	for ( ; got < avail; got++ ) {
		KEvent& e = I->q[I->head]; char nb[600]; uint32_t nl = stretch( nb, e.name.s, e.name.len ), len = nl ? ( nl + 1 + 15 ) / 16 * 16 : 0;
		if ( o + 16 + len > n ) break;
		memcpy( b + o, &e.wd, 4 ); memcpy( b + o + 4, &e.mask, 4 ); memcpy( b + o + 8, &e.cookie, 4 ); memcpy( b + o + 12, &len, 4 );
		if ( len ) { memset( b + o + 16, 0, len ); memcpy( b + o + 16, nb, nl ); }
		o += 16 + len; I->head++;
	}
	if ( got == 0 ) { if ( ++W.spins > 200 ) sx_fail( "the watcher spins without reading its events" ); return fail( EINVAL ); } W.spins = 0;
	{ KEvent& e = I->q[I->head - 1]; if ( ( e.mask & IN_MOVED_FROM ) && W.nsplit < 16 ) W.splitCookies[W.nsplit++] = e.cookie; } // the halves of this rename are not read together
	if ( I->head == I->tail ) I->head = I->tail = 0;
	return o;
}
int m_close( int fd ) {
	hook( "close" ); if ( fd < 0 || fd >= MAXFD || !W.fdUsed[fd] ) { W.doubleClose++; return fail( EBADF ); }
	Inst* I = instOf( fd ); if ( I ) { I->open = false; I->fd = -1; I->nw = 0; } W.fdUsed[fd] = false; W.openFds--; return 0;
}
int m_fcntl( int, int, ... ) { return 0; }
int m_ioctl( int fd, unsigned long req, ... ) { __builtin_va_list ap; __builtin_va_start( ap, req ); int* p = __builtin_va_arg( ap, int* ); __builtin_va_end( ap ); Inst* I = instOf( fd ); if ( !I ) return fail( EBADF ); if ( req == FIONREAD ) { int t = 0; for ( int i = I->head; i < I->tail; i++ ) t += 16 + ( I->q[i].name.len ? ( I->q[i].name.len + 16 ) / 16 * 16 : 0 ); *p = t; } return 0; }
// ---------------------------------------------------------------- time
int m_gettimeofday( struct timeval* tv, void* ) { tv->tv_sec = W.symClock ? W.clkSec : W.timeNs / 1000000000; tv->tv_usec = W.symClock ? W.clkUsec : W.timeNs / 1000 % 1000000; return 0; }
int m_clock_gettime( clockid_t, struct timespec* ts ) { ts->tv_sec = W.symClock ? W.clkSec : W.timeNs / 1000000000; ts->tv_nsec = W.symClock ? W.clkUsec * 1000 : W.timeNs % 1000000000; return 0; }
time_t m_time( time_t* t ) { time_t v = W.symClock ? W.clkSec : W.timeNs / 1000000000; if ( t ) *t = v; return v; }
int64_t m__ZNSt6chrono3_V212system_clock3nowEv() { return nowNs(); }
int64_t m__ZNSt6chrono3_V212steady_clock3nowEv() { return nowNs(); }
int m_usleep( useconds_t us ) { hook( "usleep" ); envSleep( (uint64_t)us * 1000 ); return 0; }
int m_nanosleep( const struct timespec* ts, struct timespec* ) { hook( "nanosleep" ); envSleep( (uint64_t)ts->tv_sec * 1000000000 + ts->tv_nsec ); return 0; }
int m_clock_nanosleep( clockid_t, int flags, const struct timespec* ts, struct timespec* ) { hook( "nanosleep" ); uint64_t t = (uint64_t)ts->tv_sec * 1000000000 + ts->tv_nsec; if ( flags & TIMER_ABSTIME ) { uint64_t n = nowNs(); t = t > n ? t - n : 0; } envSleep( t ); return 0; }
unsigned m_sleep( unsigned s ) { hook( "sleep" ); envSleep( (uint64_t)s * 1000000000 ); return 0; }
int m_sched_yield() { hook( "sched_yield" ); sx_sleep( K_SLEEPER + sx_self() ); return 0; }
// ---------------------------------------------------------------- mutexes (glibc's layout: __lock, __count, __owner, __nusers, __kind)
struct MM { int lock; unsigned count; int owner; unsigned nusers; int kind; };
int m_pthread_mutex_init( pthread_mutex_t* m, const pthread_mutexattr_t* a ) { memset( m, 0, sizeof *m ); if ( a ) ( (MM*)m )->kind = *(const int*)a & 3; return 0; }
int m_pthread_mutexattr_init( pthread_mutexattr_t* a ) { memset( a, 0, sizeof *a ); return 0; }
int m_pthread_mutexattr_settype( pthread_mutexattr_t* a, int k ) { *(int*)a = k; return 0; }
int m_pthread_mutexattr_destroy( pthread_mutexattr_t* ) { return 0; }
int m_pthread_mutex_destroy( pthread_mutex_t* m ) { if ( ( (MM*)m )->owner ) sx_fail( "mutex destroyed while it is locked" ); W.mutexDestroyed++; return 0; }
static int lockM( pthread_mutex_t* pm, bool block ) {
	volatile MM* m = (MM*)pm; sx_sched(); int me = sx_self() + 1;
	for ( ;; ) {
		if ( m->owner == 0 ) { m->owner = me; m->count = 1; break; }
		if ( m->owner == me && ( m->kind & 3 ) == PTHREAD_MUTEX_RECURSIVE ) { m->count++; W.held[me - 1]++; return 0; }
		if ( m->owner == me && ( m->kind & 3 ) == PTHREAD_MUTEX_ERRORCHECK ) return EDEADLK;
		if ( !block ) return EBUSY;
		sx_block( (uint64_t)pm );
	}
	W.held[me - 1]++; sx_hb_acquire( (uint64_t)pm ); return 0;
}
int m_pthread_mutex_lock( pthread_mutex_t* m ) { return lockM( m, true ); }
int m_pthread_mutex_trylock( pthread_mutex_t* m ) { return lockM( m, false ); }
static int timedLock( pthread_mutex_t* m, const struct timespec* ts ) { if ( !lockM( m, false ) ) return 0; uint64_t dl = (uint64_t)ts->tv_sec * 1000000000 + ts->tv_nsec, now = nowNs(); if ( dl > now ) passTime( dl - now ); return ETIMEDOUT; }
int m_pthread_mutex_timedlock( pthread_mutex_t* m, const struct timespec* ts ) { return timedLock( m, ts ); }
int m_pthread_mutex_clocklock( pthread_mutex_t* m, clockid_t, const struct timespec* ts ) { return timedLock( m, ts ); }
int m_pthread_mutex_unlock( pthread_mutex_t* pm ) {
	MM* m = (MM*)pm; int me = sx_self() + 1; if ( m->owner != me ) sx_fail( "mutex unlocked by a thread that does not hold it" );
	W.held[me - 1]--; if ( --m->count == 0 ) { sx_hb_release( (uint64_t)pm ); m->owner = 0; sx_wake( (uint64_t)pm ); } return 0;
}
struct RW { int writer; int readers; };
static int rwLock( pthread_rwlock_t* p, bool wr, bool block ) { volatile RW* m = (RW*)p; sx_sched(); int me = sx_self() + 1; for ( ;; ) { if ( wr ? ( !m->writer && !m->readers ) : !m->writer ) break; if ( !block ) return EBUSY; sx_block( (uint64_t)p ); } if ( wr ) m->writer = me; else m->readers++; W.held[me - 1]++; sx_hb_acquire( (uint64_t)p ); return 0; }
int m_pthread_rwlock_init( pthread_rwlock_t* p, const void* ) { memset( p, 0, sizeof *p ); return 0; }
int m_pthread_rwlock_destroy( pthread_rwlock_t* ) { return 0; }
int m_pthread_rwlock_wrlock( pthread_rwlock_t* p ) { return rwLock( p, true, true ); }
int m_pthread_rwlock_rdlock( pthread_rwlock_t* p ) { return rwLock( p, false, true ); }
int m_pthread_rwlock_trywrlock( pthread_rwlock_t* p ) { return rwLock( p, true, false ); }
int m_pthread_rwlock_tryrdlock( pthread_rwlock_t* p ) { return rwLock( p, false, false ); }
int m_pthread_rwlock_unlock( pthread_rwlock_t* p ) { RW* m = (RW*)p; int me = sx_self() + 1; sx_hb_release( (uint64_t)p ); if ( m->writer == me ) m->writer = 0; else m->readers--; W.held[me - 1]--; sx_wake( (uint64_t)p ); return 0; }
int m_pthread_cond_init( pthread_cond_t* c, const pthread_condattr_t* ) { memset( c, 0, sizeof *c ); W.condInit++; return 0; }
int m_pthread_cond_destroy( pthread_cond_t* ) { W.condDestroyed++; return 0; }
static void condUnlock( pthread_mutex_t* pm, unsigned& cnt ) { MM* m = (MM*)pm; int me = sx_self() + 1; if ( m->owner != me ) sx_fail( "condition wait without holding the mutex" ); cnt = m->count; W.held[me - 1] -= cnt; m->count = 0; m->owner = 0; sx_hb_release( (uint64_t)pm ); sx_wake( (uint64_t)pm ); }
static void condRelock( pthread_mutex_t* pm, unsigned cnt ) { m_pthread_mutex_lock( pm ); ( (MM*)pm )->count = cnt; W.held[sx_self()] += cnt - 1; }
int m_pthread_cond_wait( pthread_cond_t* c, pthread_mutex_t* m ) { unsigned n; hook( "cond_wait" ); condUnlock( m, n ); sx_block( (uint64_t)c ); sx_hb_acquire( (uint64_t)c ); condRelock( m, n ); return 0; }
static int timedWait( pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts ) {
	unsigned n; hook( "cond_timedwait" ); W.lastDeadlineSec = ts->tv_sec; W.lastDeadlineNsec = ts->tv_nsec;
	if ( (uint64_t)ts->tv_nsec >= 1000000000ull ) sx_fail( "a wait with a deadline that is not normalised" );
	uint64_t dl = (uint64_t)ts->tv_sec * 1000000000 + ts->tv_nsec, now = nowNs(); condUnlock( m, n ); int sig = *(int*)c;
	int t = sx_self(); W.sleeps++; uint64_t ns = dl > now ? dl - now : 0; W.lastSleepNs = ns; W.sleptTotal += ns; passTime( ns ); W.heldAtSleep = W.held[t]; if ( W.held[t] > W.maxHeldAtSleep ) W.maxHeldAtSleep = W.held[t];
	if ( t != 0 && W.pollWait && --W.pollWant == 0 ) { W.pollWait = false; sx_wake( K_POLLMAIN ); }
	sx_sleep( (uint64_t)c ); int r = *(int*)c != sig ? 0 : ETIMEDOUT; if ( !r ) sx_hb_acquire( (uint64_t)c ); condRelock( m, n ); return r;
}
int m_pthread_cond_timedwait( pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts ) { return timedWait( c, m, ts ); }
int m_pthread_cond_clockwait( pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec* ts ) { return timedWait( c, m, ts ); }
int m_pthread_cond_signal( pthread_cond_t* c ) { ( *(int*)c )++; sx_hb_release( (uint64_t)c ); sx_wake( (uint64_t)c ); return 0; }
int m_pthread_cond_broadcast( pthread_cond_t* c ) { return m_pthread_cond_signal( c ); }
static pthread_mutex_t spLock; // the lock behind std::atomic_load/atomic_store of a shared_ptr
void m__ZNSt10_Sp_lockerC1EPKv( void*, const void* ) { lockM( &spLock, true ); }
void m__ZNSt10_Sp_lockerC1EPKvS1_( void*, const void*, const void* ) { lockM( &spLock, true ); }
void m__ZNSt10_Sp_lockerD1Ev( void* ) { m_pthread_mutex_unlock( &spLock ); }
void m__ZNSt18condition_variableC1Ev( void* c ) { memset( c, 0, 48 ); }
void m__ZNSt18condition_variableD1Ev( void* ) {}
void m__ZNSt18condition_variable10notify_oneEv( void* c ) { m_pthread_cond_signal( (pthread_cond_t*)c ); }
void m__ZNSt18condition_variable10notify_allEv( void* c ) { m_pthread_cond_signal( (pthread_cond_t*)c ); }
struct UL { pthread_mutex_t* m; bool owns; };
void m__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE( void* c, UL* l ) { m_pthread_cond_wait( (pthread_cond_t*)c, l->m ); }
int m___pthread_key_create( void*, void* ) { return 0; }
// ---------------------------------------------------------------- threads
pthread_t m_pthread_self() { return sx_self() + 1; }
int m_pthread_equal( pthread_t a, pthread_t b ) { return a == b; }
struct ThreadState { virtual ~ThreadState(); virtual void run() = 0; }; // same layout as std::thread::_State
static ThreadState* startArg[6];
static struct { void ( *f )( void* ); void* o; } atExit[6][8]; static int nAtExit[6]; // destructors of thread-local objects
int m___cxa_thread_atexit( void ( *f )( void* ), void* o, void* ) { int t = sx_self(); if ( nAtExit[t] >= 8 ) sx_fail( "model: too many thread-local objects" ); atExit[t][nAtExit[t]].f = f; atExit[t][nAtExit[t]++].o = o; return 0; }
int m___cxa_thread_atexit_impl( void ( *f )( void* ), void* o, void* d ) { return m___cxa_thread_atexit( f, o, d ); }
static void threadLocalsGone() { int t = sx_self(); while ( nAtExit[t] ) { int i = --nAtExit[t]; atExit[t][i].f( atExit[t][i].o ); } }
static void threadMain( void* a ) {
	ThreadState* s = (ThreadState*)a; sx_sched(); s->run(); delete s; threadLocalsGone();
	int me = sx_self(); W.done[me] = true; W.threadsEnded++; sx_hb_release( K_JOIN + me ); sx_wake( K_JOIN + me );
}
void m__ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE( uint64_t* id, ThreadState** st, void* ) {
	ThreadState* s = *st; *st = nullptr; int t = sx_thread_create( threadMain, s ); startArg[t] = s; *id = t + 1; W.threadsStarted++; W.started[t] = true; sx_sched();
}
static int joinT( uint64_t id ) { int t = (int)id - 1; if ( t == sx_self() ) sx_fail( "thread joins itself" ); if ( t <= 0 || t >= 6 || W.joined[t] ) sx_fail( "join of a thread that is not joinable" ); sx_sched(); while ( !W.done[t] ) sx_block( K_JOIN + t ); sx_hb_acquire( K_JOIN + t ); W.joined[t] = true; W.threadsJoined++; return 0; }
void m__ZNSt6thread4joinEv( uint64_t* id ) { if ( !*id ) sx_fail( "join of a thread that is not joinable" ); joinT( *id ); *id = 0; }
void m__ZNSt6thread6detachEv( uint64_t* id ) { *id = 0; }
unsigned m__ZNSt6thread20hardware_concurrencyEv() { return 4; }
struct PStart { void* ( *fn )( void* ); void* arg; };
static void pthreadMain( void* a ) { PStart p = *(PStart*)a; free( a ); sx_sched(); p.fn( p.arg ); threadLocalsGone(); int me = sx_self(); W.done[me] = true; W.threadsEnded++; sx_hb_release( K_JOIN + me ); sx_wake( K_JOIN + me ); }
int m_pthread_create( pthread_t* id, const void*, void* ( *fn )( void* ), void* arg ) { PStart* p = (PStart*)malloc( sizeof( PStart ) ); p->fn = fn; p->arg = arg; int t = sx_thread_create( pthreadMain, p ); *id = t + 1; W.threadsStarted++; W.started[t] = true; sx_sched(); return 0; }
int m_pthread_join( pthread_t id, void** ) { return joinT( id ); }
int m_pthread_detach( pthread_t ) { return 0; }
}
// the model's own helper threads (user threads of the harness)
