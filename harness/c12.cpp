// C12: symbolic links below a recursive watch of either backend: every target kind, both switches, present at addWatch or made later (possibly inside a directory that is moved in); loops included.
#include "generic.h"
static Name nm[3]; static bool native, follow, oos;
static Path slashed( Path p ) { if ( p.len != 1 ) { p.s[p.len++] = '/'; p.s[p.len] = 0; } return p; }
static bool below( const Path& p, const Path& d ) { Path a = slashed( p ), b = slashed( d ); return a.len >= b.len && memcmp( a.s, b.s, b.len ) == 0; }
// directories whose changes have to be reported by the recursive watch: reach[node]
static bool reach[MAXNODE]; static int userWatch[3], nuw;
static void visit( int node, const Path& p ) {
	if ( reach[node] ) return; reach[node] = true;
	for ( int i = 0; i < W.n[node].nents; i++ ) { Ent& e = W.n[node].ents[i]; Path q = p; q / e.name;
		if ( W.n[e.node].type == T_DIR ) { visit( e.node, q ); continue; }
		if ( W.n[e.node].type != T_LNK || !follow ) continue; int t = lookup( q ); if ( t < 0 || W.n[t].type != T_DIR ) continue; Path tp = pathOf( t );
		bool user = false; for ( int k = 0; k < nuw; k++ ) if ( userWatch[k] == t ) user = true; if ( user ) continue;
		if ( oos || below( tp, p ) ) visit( t, tp ); }
}
static int mk( const Path& p, uint32_t kind ) { // a link
	if ( kind >= 14 ) { Path t( kind < 16 ? "/w" : "/o" ); t / nm[0]; t / mkName( "~x" ); if ( kind == 15 ) t / mkName( "~y" ); return symlinkAt( t, p ); }
	if ( kind >= 12 ) return symlinkAt( kind == 12 ? ".." : "../..", p );
	static const char* fixed[] = { "/o", "/w", "/v", "/f", "/nowhere", ".", "../o", "/w/\1l" }; if ( kind < 6 ) return symlinkAt( fixed[kind], p ); if ( kind >= 10 ) return symlinkAt( fixed[kind - 4], p );
	Path t( "/w" ); t / nm[0]; if ( kind == 7 ) t / nm[1]; if ( kind == 8 ) { t = Path( "/o" ); t / nm[0]; } if ( kind == 9 ) { t.len = 0; t.s[0] = 0; memcpy( t.s, nm[1].s, nm[1].len ); t.s[nm[1].len] = 0; } return symlinkAt( t, p );
}
extern "C" void harness() {
	init(); Rec r( 1 ), r2( 2 ); nm[0] = symName( "name", 1 ); nm[1] = mkName( "m" ); nm[2] = mkName( "b" ); distinct( nm[0], nm[1] ); distinct( nm[0], nm[2] ); W.reverseDirs = sx_param( "reverse", 0 );
	mkdirAt( "/w" ); mkdirAt( "/v" ); mkdirAt( "/o" ); createOnly( "/f" ); { Path p( "/w" ); mkdirAt( p / nm[0] ); mkdirAt( p / nm[1] ); Path q( "/o" ); mkdirAt( q / nm[0] ); }
	bool deep = sx_param( "deep", 0 ); if ( deep ) { Path p( "/w" ); p / nm[0]; mkdirAt( p / mkName( "~x" ) ); mkdirAt( p / mkName( "~y" ) ); Path q( "/o" ); q / nm[0]; mkdirAt( q / mkName( "~x" ) ); }
	native = sx_param( "backend", 0 ) ? sx_param( "backend", 0 ) == 1 : sx_choose( 2, "native backend" ); follow = sx_choose( 2, "followSymlinks" ); oos = sx_choose( 2, "allowOutOfScopeLinks" );
	efsw::FileWatcher* fw = native ? new efsw::FileWatcher( false ) : new efsw::FileWatcher( true, 1000 ); sx_check( !fw->followSymlinks() && !fw->allowOutOfScopeLinks(), "both switches are off by default" );
	fw->followSymlinks( follow ); fw->allowOutOfScopeLinks( oos ); sx_check( fw->followSymlinks() == follow && fw->allowOutOfScopeLinks() == oos, "the switches read back what was set" );
	uint32_t links = sx_param( "links", 2 ), when = sx_choose( 3, "when" ); long idv = fw->addWatch( "/v", &r2, true ); sx_check( idv > 0, "second watch" ); userWatch[nuw++] = lookup( "/v" ); userWatch[nuw++] = lookup( "/w" );
	Path places[7]; places[0] = Path( "/w" ); places[1] = Path( "/w" ); places[1] / nm[0]; places[2] = Path( "/o" ); places[3] = Path( "/o" ); places[3] / nm[0]; if ( deep ) { places[2] = places[1]; places[2] / mkName( "~x" ); places[4] = places[2]; places[4] / mkName( "~y" ); places[5] = places[3]; places[5] / mkName( "~x" ); places[6] = Path( "/o" ); }
	long id = 0; if ( when != 0 ) { id = fw->addWatch( "/w", &r, true ); sx_check( id > 0, "watch added" ); fw->watch(); if ( native ) settle(); else polls( 1 ); }
	for ( uint32_t k = 0; k < links; k++ ) { uint32_t at = sx_choose( deep ? ( k ? 6 : 5 ) : k ? 4 : 2, "place of the link" ); Path p = places[at]; uint32_t kind = sx_choose( deep ? 17 : 12, "target" ); if ( k == 0 && when == 2 ) p = places[deep && at > 2 ? 5 : 3]; Name ln = nm[2]; if ( k ) { ln = mkName( "~l" ); } if ( mk( p / ln, kind ) < 0 ) sx_end(); }
	if ( when == 0 ) { id = fw->addWatch( "/w", &r, true ); sx_check( id > 0, "watch added" ); fw->watch(); }
	if ( when == 2 ) { W.now++; Path q( "/w" ); Name z = mkName( "~z" ); if ( renameAt( places[3], q / z ) < 0 ) sx_end(); } // links arrive inside a directory
	if ( native ) settle(); else polls( 1 );
	memset( reach, 0, sizeof reach ); visit( lookup( "/w" ), Path( "/w" ) );
	if ( !follow ) sx_cover( "not followed" );
	// probe every directory
	int n = W.nn; Name pr = mkName( "~p" ); int vnode = lookup( "/v" );
	for ( int i = 1; i < n; i++ ) if ( W.n[i].type == T_DIR && W.n[i].nlink ) {
		Path p = pathOf( i ); if ( !p.len ) continue; int c0 = ncb; W.now++; Path f = p; createOnly( f / pr ); if ( native ) settle(); else polls( 1 );
		Path d = slashed( p ); int adds = 0; for ( int c = c0; c < ncb; c++ ) { sx_check( cbs[c].id == id || ( cbs[c].id == idv && cbs[c].listener == 2 ), "callbacks carry the id of a watch" ); if ( cbs[c].action == 1 && seq( cbs[c].dir, d.s, d.len ) && seq( cbs[c].file, pr ) ) { if ( !native && i == vnode && reach[vnode] && cbs[c].id == id ) continue; /* overlapping watches: reported to both */ adds++; sx_check( cbs[c].id == ( i == vnode ? idv : id ) && cbs[c].listener == ( i == vnode ? 2 : 1 ), "the callback belongs to the watch that covers the directory" ); } else if ( native || cbs[c].action != 3 ) { dumpCbs( c0 ); sx_fail( "nothing else is reported" ); } }
		bool want = reach[i] || i == vnode; if ( !native && follow && want && adds > 1 ) adds = 1; /* the poller may reach a directory through a link and as a subdirectory */ if ( adds != ( want ? 1 : 0 ) ) { sx_note( p.s ); dumpCbs( c0 ); sx_fail( want ? "a directory of the tree or behind an allowed link is covered exactly once" : "a directory behind a link that may not be followed is not looked into" ); }
		if ( native && watchesOn( i ) != ( want ? 1 : 0 ) ) sx_fail( "kernel watches exactly on the covered directories" ); if ( want && p.s[1] == 'o' ) sx_cover( "followed out of the tree" );
	}
	sx_check( true, "links are followed exactly as configured" );
	destroyed( fw );
}
