// C03/C04: recursive native watch over a tree; symbolic history of directory creations, removals and moves (settled after each), then every directory is probed.
#include "native.h"
static Name nm[3];
static int dirList( int* out ) { int k = 0; for ( int i = 1; i < W.nn; i++ ) if ( W.n[i].type == T_DIR && W.n[i].nlink ) out[k++] = i; return k; }
// several changes before the watcher looks at any of them: every name is used once only
static Name fresh() { static int k = 0; Name n = mkName( "A" ); n.s[0] += k++; return n; }
static void batch( efsw::FileWatcher* fw, int steps ) {
	bool strict = sx_param( "strict", 0 ); laxMoved = true; beginOp();
	for ( int k = 0; k < steps; k++ ) {
		int dl[MAXNODE], nd = dirList( dl ); uint32_t op = sx_choose( 4, "change" ); int d = dl[sx_choose( nd, "directory" )], res = 0; Path p = pathOf( d ); if ( !p.len ) sx_end();
		if ( op == 0 ) { p / fresh(); res = mkdirAt( p ); if ( res >= 0 && sx_choose( 2, "deeper" ) ) mkdirAt( p / fresh() ); }
		else if ( op == 1 ) { if ( p.len == 2 ) sx_end(); rmrf( p ); }
		else if ( op == 2 ) { if ( p.len == 2 ) sx_end(); Path q = pathOf( dl[sx_choose( nd, "to directory" )] ); if ( !q.len ) sx_end(); res = renameAt( p, q / fresh() ); }
		else res = createOnly( p / fresh() );
		if ( res < 0 ) sx_end(); if ( k < steps - 1 && sx_choose( 2, "caught up" ) ) { settle(); if ( strict ) endOp( "part" ); beginOp(); }
	}
	settle(); if ( strict ) endOp( "batch" ); laxMoved = false; checkKernelWatches( "batch" ); sx_cover( "batch" ); probeAll( "probe" ); sx_cover( "probed" ); destroyed( fw );
}
extern "C" void harness() {
	init(); mkdirAt( "/w" ); mkdirAt( "/o" ); Rec r( 1 ); int steps = sx_param( "steps", 3 ), shape = sx_choose( 3, "initial tree" );
	if ( sx_param( "sym", 0 ) ) { nm[0] = symName( "name0", 1 ); nm[1] = symName( "name1", 2, 2 ); distinct( nm[0], nm[1] ); } else { nm[0] = mkName( "a" ); nm[1] = mkName( "ab" ); } nm[2] = mkName( "~n" );
	W.reverseDirs = sx_param( "reverse", 0 ); W.deleteSelfFirst = sx_param( "selffirst", 1 );
	// shapes: outside holds a directory with a subdirectory; inside: nothing, a/ and ab/, a/ab/
	{ Path p( "/o" ); mkdirAt( p / nm[0] ); mkdirAt( p / nm[1] ); }
	if ( shape == 1 ) { Path p( "/w" ), q( "/w" ); mkdirAt( p / nm[0] ); mkdirAt( q / nm[1] ); createOnly( p / nm[0] ); }
	if ( shape == 2 ) { Path p( "/w" ); mkdirAt( p / nm[0] ); mkdirAt( p / nm[1] ); mkdirAt( p / nm[0] ); }
	efsw::FileWatcher* fw = new efsw::FileWatcher( false ); fw->watch();
	long id = fw->addWatch( rootArg( "/w" ), &r, true ); sx_check( id > 0, "watch added" ); specAdd( id, "/w", true, 1 );
	settle(); sx_check( ncb == 0, "nothing reported before anything happened" ); checkKernelWatches( "start" );
	if ( sx_param( "batch", 0 ) ) { batch( fw, steps ); return; }
	for ( int k = 0; k < steps; k++ ) {
		beginOp(); int dl[MAXNODE], nd = dirList( dl );
		uint32_t op = sx_choose( 5, "change" ), i = sx_choose( sx_param( "names", 2 ), "name" ); int d = dl[sx_choose( nd, "directory" )], res = 0; Path p = pathOf( d ); if ( !p.len ) sx_end(); p / nm[i];
		if ( op == 0 ) { res = mkdirAt( p ); if ( res >= 0 && sx_choose( 2, "deeper" ) ) { mkdirAt( p / nm[0] ); mkdirAt( p / nm[1] ); } }
		else if ( op == 1 ) { if ( lookup( p ) < 0 ) sx_end(); rmrf( p ); }
		else if ( op == 2 ) { int d2 = dl[sx_choose( nd, "to directory" )]; uint32_t j = sx_choose( sx_param( "names", 2 ), "to name" ); if ( d == d2 && i == j ) sx_end(); int src = lookup( p ); if ( src < 0 || ( !inTree( d ) && !inTree( d2 ) ) ) sx_end(); Path q = pathOf( d2 ); if ( !q.len ) sx_end(); res = renameAt( p, q / nm[j] ); }
		else if ( op == 3 ) { if ( !inTree( d ) ) sx_end(); res = createOnly( p ); }
		else { if ( !inTree( d ) ) sx_end(); res = unlinkAt( p ); }
		if ( res < 0 ) sx_end();
		settle(); endOp( "step" ); checkKernelWatches( "step" ); sx_cover( "settled step" );
	}
	probeAll( "probe" ); sx_cover( "probed" );
	destroyed( fw );
}
