// C23: symbolic system-call failures while watches are added and while events or polls are processed, on both backends.
#include "generic.h"
static Name nm[3]; static bool native; static efsw::FileWatcher* fw; static Rec *r1, *r2;
static const uint32_t CLS[2][9] = { { F_STAT, F_OPENDIR, F_ADDWATCH, F_STATFS, F_REALPATH, F_RMWATCH, F_READ, F_SELECT, 0 }, { F_STAT, F_OPENDIR, F_REALPATH, F_STATFS, 0, 0, 0, 0, 0 } };
static void arm() { W.faultsLeft = sx_param( "faults", 1 ); W.faultsDone = 0; uint32_t all = 0, n = 0; while ( CLS[!native][n] ) all |= CLS[!native][n++]; W.faultMask = sx_param( "mixed", 0 ) ? all : CLS[!native][sx_choose( n, "kind of failure" )]; W.faultUnder = "/w"; }
static void disarm() { W.faultsLeft = 0; }
static void healthy() { for ( int i = 0; i < W.nn; i++ ) if ( covered[i] && !watchesOn( i ) ) covered[i] = false; }
static void under( int from ) { // during a failure: nothing that does not belong to the watch
	for ( int c = from; c < ncb; c++ ) { CB& b = cbs[c]; bool a = b.listener == 1 && b.id == ws[0].id && b.dir.len >= 3 && memcmp( b.dir.s, "/w/", 3 ) == 0, v = b.listener == 2 && b.id == ws[1].id && seq( b.dir, "/v/", 3 ); if ( !a && !v ) { dumpCbs( from ); sx_fail( "callbacks belong to their watch" ); } } }
static void vOnly( int from, int want ) { // the other watch, in which the file named n was created
	int n = 0; for ( int c = from; c < ncb; c++ ) if ( cbs[c].listener == 2 ) { n++; sx_check( cbs[c].action == 1 || cbs[c].action == 3, "the other watch reports what happened there" ); }
	if ( want ? n < want : n != 0 ) { dumpCbs( from ); sx_fail( "the other watch is not disturbed" ); } }
static bool spared( int node ) { // no failed call concerned this directory or one above it
	for ( int f = 0; f < W.faultsDone && f < 4; f++ ) for ( int i = node, g = 0; i >= 0 && g < 12; i = W.n[i].parent, g++ ) { if ( i == W.faultNode[f] ) return false; if ( i == 0 ) break; } return true; }
static void sparedAreWatched( const char* what ) { for ( int i = 1; i < W.nn; i++ ) if ( W.n[i].type == T_DIR && W.n[i].nlink && inTree( i ) && spared( i ) && watchesOn( i ) != 1 ) { sx_note( pathOf( i ).s ); sx_fail( what ); } }
static void step( uint32_t op, int k ) {
	Path p( "/w" ); Path d = p; p / nm[1]; int res = 0; 
	switch ( op ) {
		case 0: res = mkdirAt( p ); mkdirAt( p / nm[0] ); createOnly( p / nm[1] ); break;
		case 1: res = renameAt( "/o/d", p ); break;
		case 2: { Path q = d; q / nm[0]; rmrf( q ); break; }
		case 3: { Path q = d; q / nm[0]; res = renameAt( q, "/o/e" ); break; }
		case 4: { Path q = d; q / nm[0]; res = renameAt( q, p ); break; }
		case 5: res = createOnly( p ); break;
		default: { Path q = d; q / nm[0]; res = createOnly( q / nm[1] ); break; }
	}
	if ( res < 0 ) sx_end(); W.now++;
}
extern "C" void harness() {
	init(); native = sx_param( "backend", 1 ) == 1; for ( int i = 0; i < 2; i++ ) nm[i] = symName( "name", 1 ); distinct( nm[0], nm[1] ); r1 = new Rec( 1 ); r2 = new Rec( 2 );
	mkdirAt( "/w" ); mkdirAt( "/v" ); mkdirAt( "/o" ); mkdirAt( "/o/d" ); mkdirAt( "/o/d/x" ); createOnly( "/o/d/y" ); createOnly( "/w/\1f" ); { Path p( "/w" ); mkdirAt( p / nm[0] ); mkdirAt( p / mkName( "~t" ) ); createOnly( p / mkName( "~g" ) ); } if ( native || sx_param( "faults", 1 ) < 2 ) { mkdirAt( "/w/\1u" ); mkdirAt( "/w/!u" ); }
	fw = native ? new efsw::FileWatcher( false ) : new efsw::FileWatcher( true, 1000 ); int when = sx_param( "adding", 0 ); long b = fw->addWatch( rootArg( "/v" ), r2, false ); sx_check( b > 0, "watch added" ); if ( when ) arm();
	long a = fw->addWatch( rootArg( "/w" ), r1, true ); disarm(); bool hit = when && W.faultsDone;
	if ( a <= 0 ) { sx_check( when && W.faultsDone && a >= -7 && a < 0, "a failing addWatch returns an error code" ); sx_check( fw->directories().size() == 1, "a failing addWatch adds nothing" ); if ( native ) sx_check( watchCount() == 1, "a failing addWatch leaves no kernel watch" ); a = fw->addWatch( rootArg( "/w" ), r1, true ); sx_check( a > 0, "the directory can be watched once the failure is gone" ); hit = false; sx_cover( "addWatch failed" ); }
	specAdd( a, "/w", true, 1 ); specAdd( b, "/v", false, 2 ); fw->watch(); if ( native ) settle(); else polls( 1 );
	if ( !hit ) sx_check( ncb == 0, "nothing reported before anything happened" ); under( 0 ); vOnly( 0, 0 ); if ( hit ) sx_cover( "watch added in spite of a failure" ); if ( native && hit ) sparedAreWatched( "a failure on one directory keeps no other one from being watched" );
	if ( !when ) {
		arm(); beginOp(); int c0 = ncb; int wasCov[MAXNODE], old = W.nn; for ( int i = 0; i < W.nn; i++ ) wasCov[i] = covered[i]; gStart(); uint32_t op = sx_choose( 7, "change" ); step( op, 0 ); { Path v( "/v" ); createOnly( v / mkName( "~n" ) ); }
		if ( native ) { settle(); disarm(); endOp( "during the failure" ); } else { polls( 1 ); disarm(); under( c0 ); }
		vOnly( c0, 1 ); if ( W.faultsDone ) sx_cover( "failure while events were processed" ); if ( W.faultsDone > 1 ) sx_cover( "two failures" );
		if ( native ) sparedAreWatched( "a failure on one directory keeps no new other one from being watched" );
		if ( native ) for ( int i = 0; i < old; i++ ) if ( wasCov[i] && inTree( i ) ) { if ( watchesOn( i ) != 1 ) { Path q = pathOf( i ); sx_note( q.s ); } sx_check( watchesOn( i ) == 1, "directories watched before stay watched" ); }
	}
	// the failure is gone
	if ( native ) { sx_check( watchesOn( lookup( "/w" ) ) == 1 && watchesOn( lookup( "/v" ) ) == 1, "the watched directories stay watched" ); beginOp(); healthy(); }
	else { /* a subdirectory that could not be read when it was found is looked at again when it changes */ int c0 = ncb; for ( int n = W.nn, i = 1; i < n; i++ ) if ( W.n[i].type == T_DIR && W.n[i].nlink && i != lookup( "/v" ) ) { Path p = pathOf( i ); if ( p.len ) createOnly( p / mkName( "~q" ) ); } W.now++; polls( 2 ); under( c0 ); vOnly( c0, 0 );
		if ( when ) for ( int i = 1; i < W.nn; i++ ) if ( W.n[i].type == T_DIR && W.n[i].nlink && spared( i ) ) { Path p = pathOf( i ); if ( p.len < 2 || memcmp( p.s, "/w", 2 ) ) continue; p.s[p.len++] = '/'; int seen = 0; for ( int c = c0; c < ncb; c++ ) if ( cbs[c].listener == 1 && cbs[c].action == 1 && seq( cbs[c].dir, p.s, p.len ) && seq( cbs[c].file, "\1q", 2 ) ) seen++; if ( seen != 1 ) { sx_note( p.s ); dumpCbs( c0 ); sx_fail( "a failure on one directory keeps no other one from being polled" ); } }
		gStart(); }
	Name late = mkName( "~l" ), probe = mkName( "~p" ); { Path p( "/w" ); mkdirAt( p / late ); } if ( native ) { settle(); endOp( "afterwards" ); beginOp(); healthy(); } else { W.now++; gPoll( "afterwards" ); }
	if ( native ) sx_check( watchesOn( lookup( "/w/\1l" ) ) == 1, "a directory created later is covered" );
	for ( int n = W.nn, i = 1; i < n; i++ ) if ( W.n[i].type == T_DIR && W.n[i].nlink ) { Path p = pathOf( i ); if ( !p.len ) continue; createOnly( p / probe ); }
	if ( native ) { settle(); endOp( "probe" ); } else { W.now++; gPoll( "probe" ); } sx_cover( "probed" );
	sx_check( W.badFd == 0, "no system call on a descriptor that is not open" ); destroyed( fw );
}
