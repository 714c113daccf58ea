// C24: remote file systems. The type of a mounted file system is any 64-bit value; what is remote follows from the list of types and, for FUSE block devices, the mount table.
#include "addspec.h"
ASpec as; AWatch aw[8]; int naw;
static const char *mnt, *start; static bool inTable; static int flt;
static void table() { // what /proc/mounts lists besides the root
	static const char* names[] = { "", "/mm", "/m/d", "/w/m/d", "/" }; uint32_t k = sx_choose( 6, "other entries" );
	W.nmounts = 1; static const char* many[] = { "/proc", "/sys", "/dev", "/dev/pts", "/run", "/home", "/boot", "/var/lib", "/m/x", "/w/mm", "/n", "/l" }; if ( k == 5 ) for ( const char* d : many ) { W.mounts[W.nmounts].dir = d; W.mounts[W.nmounts].fsname = "none"; W.nmounts++; } else if ( k ) { W.mounts[W.nmounts].dir = names[k]; W.mounts[W.nmounts].fsname = "/dev/sdb1"; W.nmounts++; }
	inTable = sx_choose( 2, "listed in the mount table" ); if ( inTable ) { W.mounts[W.nmounts].dir = mnt; W.mounts[W.nmounts].fsname = "/dev/sdc1"; W.nmounts++; }
	if ( sx_choose( 2, "root entry last" ) ) { Mount x = W.mounts[0]; W.mounts[0] = W.mounts[W.nmounts - 1]; W.mounts[W.nmounts - 1] = x; }
}
static bool remoteFs( uint64_t g, bool unknown ) { if ( g == 0x65735546 ) return !inTable || unknown; return isRemote( 1 ); }
extern "C" void harness() {
	init(); mkdirAt( "/w" ); mkdirAt( "/w/s" ); mkdirAt( "/m" ); Rec r( 1 ); int part = sx_param( "part", 0 ); bool native = sx_choose( 2, "native backend" ); as.native = native;
	uint64_t g = sx_u64( "file system type" ); int fs = mkFs( g ); W.fs[fs].magic = g; mnt = part == 0 ? "/m" : "/w/m";
	if ( part == 0 ) { mountOn( "/m", fs ); mkdirAt( "/m/d" ); mkdirAt( "/m/d/e" ); symlinkAt( "/m/d", "/w/l" ); }
	table();
	static const char* cw[] = { "/", "/w/s", "/m" }; start = cw[sx_choose( 3, "working directory" )]; W.cwd = lookup( start ); int cwd0 = W.cwd;
	efsw::FileWatcher* fw = native ? new efsw::FileWatcher( false ) : new efsw::FileWatcher( true, 1000 ); fw->watch();
	if ( part == 0 ) { // the directory given to addWatch
		static const char* t[] = { "/m", "/m/", "/m/d", "/m/d/", "/m/d/e", "/w/l", "/w", "/m/x" }; uint32_t k = sx_choose( 8, "path" ); bool rec = sx_choose( 2, "recursive" );
		if ( k == 5 ) { fw->followSymlinks( true ); fw->allowOutOfScopeLinks( true ); } if ( sx_choose( 2, "directory cannot be entered" ) ) { if ( k == 6 ) sx_end(); W.n[lookup( "/m" )].mode = 0755; int d = lookup( t[k] ); if ( k < 2 || k == 5 || d < 0 ) sx_end(); W.n[d].mode = 0455; flt = 9; }
		bool failed = false, reject = false; if ( !flt ) { flt = sx_choose( 6, "failing call" ); static const uint32_t masks[] = { 0, F_STATFS, F_SETMNT, F_CHDIR, F_GETCWD, F_STAT }; W.faultMask = masks[flt]; W.faultsLeft = flt ? 1 : 0; if ( flt == 5 && ( g != 0x65735546 || !native ) ) sx_end(); }
		int kw = watchCount(); long id = fw->addWatch( t[k], &r, rec ); failed = W.faultsDone; W.faultsLeft = 0;
		if ( flt == 3 && failed && ( W.cwd != cwd0 || cwd0 == lookup( "/m" ) ) ) sx_end(); // going back failed
		sx_check( W.cwd == cwd0, "the working directory of the process is unchanged" );
		if ( flt == 5 && failed ) { destroyed( fw ); sx_end(); }
		if ( flt == 1 && failed ) reject = false; // a type that cannot be determined is local
		else reject = k != 6 && k != 7 && remoteFs( g, failed || flt == 9 );
		if ( native && flt == 1 && failed && rec ) sx_end(); // which of the directories it was decides
		if ( native && flt && failed && rec && g == 0x65735546 && !reject ) sx_end();
		if ( native && reject ) { if ( flt && failed && rec && id > 0 ) sx_end(); sx_check( id == efsw::Errors::FileRemote, "a directory on a remote file system is rejected" ); sx_check( watchCount() == kw, "a rejected directory gets no kernel watch" ); sx_check( fw->directories().empty(), "a rejected directory is not listed" ); sx_cover( "remote" ); }
		else if ( k == 7 ) sx_check( id == efsw::Errors::FileNotFound, "a missing directory is not found" );
		else if ( flt == 9 && native ) { if ( id > 0 ) sx_cover( "local" ); else sx_check( id != efsw::Errors::FileRemote, "a local directory is not rejected as remote" ); }
		else {
			sx_check( id > 0, "a local directory is accepted, the poller accepts remote ones too" ); sx_cover( native ? "local" : "polled" ); sx_check( !native || watchesOn( lookup( t[k] ) ) == 1, "an accepted directory has its kernel watch" );
			if ( !flt ) { // it works
				bool rem = remoteFs( g, false ); fsRemote[fs] = native ? false : rem; static const char* rt[] = { "/m", "/m", "/m/d", "/m/d", "/m/d/e", "/m/d", "/w" }; specAdd( id, rt[k], rec, 1 );
				if ( k == 6 ) { fsRemote[fs] = rem; } 
				if ( native ) { settle(); checkKernelWatches( "added" ); probeAll( "probe" ); } else if ( k != 6 ) { gStart(); createOnly( "/m/\1f" ); createOnly( "/m/d/\1f" ); createOnly( "/m/d/e/\1f" ); gPoll( "probe" ); }
			}
		}
		sx_check( W.cwd == cwd0, "the working directory of the process is unchanged" );
	} else { // a mount below a recursively watched local directory, there already or appearing later
		bool rem = remoteFs( g, false ); fsRemote[fs] = rem; bool later = part == 2, deep = later && sx_choose( 2, "one level down" );
		if ( deep ) { if ( mnt[1] != 'w' ) sx_end(); }
		if ( !later ) { mkdirAt( "/w/m" ); mountOn( "/w/m", fs ); mkdirAt( "/w/m/d" ); mkdirAt( "/w/m/d/e" ); createOnly( "/w/m/d/f" ); }
		long id = fw->addWatch( sx_choose( 2, "trailing slash" ) ? "/w/" : "/w", &r, true ); sx_check( id > 0, "watch added" ); specAdd( id, "/w", true, 1 );
		if ( native ) settle(); else { gStart(); polls( 1 ); } sx_check( ncb == 0, "nothing reported before anything happened" );
		if ( later ) {
			beginOp(); W.now++; mkdirAt( "/w/m" ); mountOn( "/w/m", fs ); mkdirAt( "/w/m/d" ); createOnly( "/w/m/f" ); mkdirAt( "/w/m/d/e" ); if ( deep ) { createOnly( "/w/m/d/f" ); }
			if ( native ) { settle(); endOp( "mounted" ); } else gPoll( "mounted" );
		}
		if ( native ) checkKernelWatches( "mounted" ); sx_check( W.cwd == cwd0, "the working directory of the process is unchanged" );
		if ( native ) probeAll( "probe" ); else { W.now++; createOnly( "/w/\1f" ); createOnly( "/w/s/\1f" ); createOnly( "/w/m/\1f" ); createOnly( "/w/m/d/\1f" ); createOnly( "/w/m/d/e/\1f" ); gPoll( "probe" ); }
		sx_cover( rem ? "remote below" : "local below" ); sx_check( W.cwd == cwd0, "the working directory of the process is unchanged" );
	}
	destroyed( fw );
}
