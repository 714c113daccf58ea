// C08 (ids, directories()) and C09 (removeWatch): symbolic history of adding, removing (by symbolic id or by path), and changes with events pending, on both backends.
#include "generic.h"
static Name nm[3], sub; static bool native, pending; static Rec* rec[8]; static efsw::FileWatcher* fw;
struct L { int dir; long id; bool listed, dead; int w; }; static L l[8]; static int nl;
static Path dirP( int d ) { Path p( "/" ); p / nm[d]; return p; }
static void caughtUp( const char* what ) { if ( native ) { settle(); endOp( what ); checkKernelWatches( what ); beginOp(); } else gPoll( what ); pending = false; }
static void checkDirs() {
	std::vector<std::string> d = fw->directories(); int n = 0; for ( int i = 0; i < nl; i++ ) if ( l[i].listed ) n++;
	sx_check( (int)d.size() == n, "directories() has one entry per watch that was added and not removed" );
	for ( int i = 0; i < nl; i++ ) if ( l[i].listed ) { Path p = dirP( l[i].dir ); int c = 0; for ( size_t k = 0; k < d.size(); k++ ) { Str s; sset( s, d[k] ); if ( s.len == p.len + 1 && s.s[p.len] == '/' ) { s.len--; if ( seq( s, p.s, p.len ) ) c++; } } sx_check( c == 1, "directories() lists each watch once, with a trailing slash" ); }
}
extern "C" void harness() {
	init(); int steps = sx_param( "steps", 4 ); for ( int i = 0; i < 3; i++ ) { nm[i] = symName( "directory", i == 2 ? sx_param( "len", 2 ) : 1 ); for ( int k = 0; k < i; k++ ) distinct( nm[i], nm[k] ); } sub = mkName( "~s" );
	for ( int i = 0; i < 3; i++ ) mkdirAt( dirP( i ) ); { Path p = dirP( 0 ); mkdirAt( p / sub ); Path q = p; mkdirAt( p / sub ); q = dirP( 1 ); mkdirAt( q / sub ); }
	native = sx_param( "backend", 0 ) ? sx_param( "backend", 0 ) == 1 : sx_choose( 2, "native backend" ); for ( int i = 0; i < 8; i++ ) rec[i] = new Rec( i + 1 );
	fw = native ? new efsw::FileWatcher( false ) : new efsw::FileWatcher( true, 1000 ); fw->watch(); int k0 = sx_param( "first", 1 ); if ( !native ) { polls( 1 ); gStart(); } beginOp();
	for ( int k = 0; k < steps; k++ ) {
		uint32_t op = k < k0 ? 0 : sx_choose( 6, "operation" );
		if ( op == 0 ) {
			if ( pending ) caughtUp( "before adding" ); uint32_t d = k ? sx_choose( 3, "which" ) : 0; bool r = sx_choose( 2, "recursive" ); Path p = dirP( d ); long want = 0; if ( lookup( p ) < 0 ) want = -1; for ( int i = 0; i < nl && !want; i++ ) if ( l[i].listed && l[i].dir == (int)d ) want = -2;
			if ( k == k0 - 1 && want ) sx_end();
			Path a = p; if ( ( k + d ) & 1 ) a.s[a.len++] = '/'; long id = fw->addWatch( std::string( a.s, a.len ), rec[nl], r ); if ( want ) { sx_check( id == want, "adding fails with the documented code" ); sx_cover( "add failed" ); }
			else { sx_check( id > 0, "the directory can be watched" ); for ( int i = 0; i < nl; i++ ) sx_check( !l[i].listed || l[i].id != id, "ids of the active watches are distinct" );
				L& x = l[nl]; x.dir = d; x.id = id; x.listed = true; x.w = nws; specAdd( id, strdup( p ), r, nl + 1 ); if ( !native ) takeSnap( ws[x.w], gsnap[x.w] ); nl++; for ( int i = 0; i < nl - 1; i++ ) if ( l[i].dir == (int)d ) sx_cover( "added again" ); beginOp(); }
		} else if ( op == 1 ) { // by id: any value
			uint32_t which = sx_choose( nl + 1, "which id" ); int hit = -1; long id;
			if ( which < (uint32_t)nl ) { id = l[which].id; if ( l[which].listed ) hit = which; else { for ( int i = 0; i < nl; i++ ) if ( l[i].listed && l[i].id == id ) sx_end(); } }
			else { id = (long)sx_u16( "unknown id" ); if ( k & 1 ) id = -id; sx_assume( id != 0 ); for ( int i = 0; i < nl; i++ ) sx_assume( id != l[i].id ); sx_assume( ( id < 1 ) | ( id > 12 ) ); /* the ids of watched subdirectories are internal */ sx_cover( "unknown id" ); }
			fw->removeWatch( (efsw::WatchID)id ); if ( hit >= 0 ) { l[hit].listed = false; ws[l[hit].w].active = false; if ( pending ) sx_cover( "removed with events pending" ); }
		} else if ( op == 2 ) { // by path
			uint32_t d = sx_choose( 4, "which path" ); Path p = d < 3 ? dirP( d ) : Path( "/nowhere" ); if ( ( k + d ) & 1 ) { p.s[p.len++] = '/'; p.s[p.len] = 0; }
			fw->removeWatch( std::string( p.s, p.len ) ); for ( int i = 0; i < nl; i++ ) if ( l[i].listed && l[i].dir == (int)d ) { l[i].listed = false; ws[l[i].w].active = false; sx_cover( "removed by path" ); }
		} else if ( op == 3 ) { uint32_t d = sx_choose( nl > 1 ? 3 : 2, "where" ); Path p = dirP( d ); if ( k + 1 < steps && sx_choose( 2, "inside the subdirectory" ) ) p / sub; if ( lookup( p ) < 0 ) sx_end(); Name f = mkName( "~f" ); f.s[1] += k; if ( createOnly( p / f ) < 0 ) sx_end(); pending = true; }
		else if ( op == 4 ) { if ( pending ) caughtUp( "before replacing" ); uint32_t d = sx_choose( 2, "where" ); Path p = dirP( d ); p / sub; if ( lookup( p ) < 0 ) { if ( mkdirAt( p ) < 0 ) sx_end(); } else rmrf( p ); pending = true; if ( native ) caughtUp( "after replacing" ); }
		else { if ( pending ) caughtUp( "before deleting" ); uint32_t d = 0; Path p = dirP( d ); if ( lookup( p ) < 0 ) { if ( mkdirAt( p ) < 0 ) sx_end(); } else rmrf( p ); if ( native ) { settle(); endOp( "root" ); for ( int i = 0; i < nl; i++ ) if ( l[i].listed && l[i].dir == (int)d ) ws[l[i].w].active = false; beginOp(); } else caughtUp( "root" ); sx_cover( "root deleted" ); }
		checkDirs();
	}
	caughtUp( "end" ); checkDirs();
	int n = W.nn; Name pr = mkName( "~p" ); for ( int i = 1; i < n; i++ ) if ( W.n[i].type == T_DIR && W.n[i].nlink ) { Path p = pathOf( i ); if ( !p.len ) continue; createOnly( p / pr ); pending = true; } caughtUp( "probe" ); sx_cover( "probed" );
	destroyed( fw );
}
