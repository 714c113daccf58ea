// C26: a non-recursive watch (both backends, every combination of the link switches) next to a recursive one; symbolic history of changes at every depth.
#include "generic.h"
static Name nm[3];
static int dirList( int* out ) { int k = 0; for ( int i = 1; i < W.nn; i++ ) if ( W.n[i].type == T_DIR && W.n[i].nlink ) out[k++] = i; return k; }
extern "C" void harness() {
	init(); mkdirAt( "/w" ); mkdirAt( "/o" ); Rec r( 1 ); int steps = sx_param( "steps", 2 ), shape = sx_choose( 3, "initial tree" ); bool native = sx_param( "backend", 0 ) ? sx_param( "backend", 0 ) == 1 : sx_choose( 2, "native backend" ), each = sx_choose( 2, "each change on its own" );
	nm[0] = symName( "name0", 1 ); nm[1] = symName( "name1", sx_param( "len", 1 ) ); distinct( nm[0], nm[1] ); nm[2] = mkName( "~n" );
	{ Path p( "/o" ); mkdirAt( p / nm[0] ); mkdirAt( p / nm[1] ); }
	if ( shape >= 1 ) { Path p( "/w" ); mkdirAt( p / nm[0] ); Path f = p; createOnly( f / nm[1] ); if ( shape == 2 ) { mkdirAt( p / nm[0] ); createOnly( p / nm[0] ); } }
	efsw::FileWatcher* fw = native ? new efsw::FileWatcher( false ) : new efsw::FileWatcher( true, 1000 ); fw->followSymlinks( sx_choose( 2, "followSymlinks" ) ); fw->allowOutOfScopeLinks( fw->followSymlinks() );
	fw->watch(); std::vector<efsw::WatcherOption> opts; if ( native ) opts.push_back( efsw::WatcherOption( efsw::Options::LinuxProduceSyntheticEvents, 1 ) );
	long id = fw->addWatch( rootArg( "/w" ), &r, false, opts ); sx_check( id > 0, "watch added" ); specAdd( id, "/w", false, 1 );
	if ( native ) { settle(); beginOp(); } else { polls( 1 ); gStart(); } sx_check( ncb == 0, "nothing reported before anything happened" );
	for ( int k = 0; k < steps; k++ ) {
		if ( !native ) W.now++; int dl[MAXNODE], nd = dirList( dl ); uint32_t op = sx_choose( 6, "change" ), i = sx_choose( 2, "name" ); int d = dl[sx_choose( nd, "directory" )], res = 0; Path p = pathOf( d ); if ( !p.len ) sx_end(); if ( op != 2 && p.s[1] == 'o' ) sx_end(); p / nm[i];
		if ( op == 0 ) { res = mkdirAt( p ); if ( res >= 0 && sx_choose( 2, "deeper" ) ) { mkdirAt( p / nm[0] ); createOnly( p / nm[1] ); } }
		else if ( op == 1 ) { if ( lookup( p, false ) < 0 ) sx_end(); rmrf( p ); }
		else if ( op == 2 ) { int d2 = dl[sx_choose( nd, "to directory" )]; uint32_t j = sx_choose( sx_param( "names", 2 ), "to name" ); if ( d == d2 && i == j ) sx_end(); Path q = pathOf( d2 ); if ( !q.len || ( p.s[1] == 'o' && q.s[1] == 'o' ) ) sx_end(); res = renameAt( p, q / nm[j] ); }
		else if ( op == 3 ) res = createOnly( p ); else if ( op == 4 ) res = writeFile( p );
		else { res = symlinkAt( "/o", p ); }
		if ( res < 0 ) sx_end();
		if ( each || k == steps - 1 ) { if ( native ) { settle(); endOp( "step" ); checkKernelWatches( "step" ); beginOp(); } else gPoll( "step" ); sx_cover( native ? "native step" : "polled step" ); }
	}
	Name pr = mkName( "~p" ); for ( int n = W.nn, i = 1; i < n; i++ ) if ( W.n[i].type == T_DIR && W.n[i].nlink && W.n[i].nents < MAXENT ) { Path p = pathOf( i ); if ( !p.len ) continue; createOnly( p / pr ); W.now++; }
	if ( native ) { settle(); endOp( "probe" ); checkKernelWatches( "probe" ); } else gPoll( "probe" ); sx_cover( "probed" );
	destroyed( fw );
}
