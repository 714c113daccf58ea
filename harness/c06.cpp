// C06: recursive polling watch over a tree; symbolic history of structural changes, polled after each one or after several; finally every directory is probed.
#include "generic.h"
static Name nm[3];
static int dirList( int* out ) { int k = 0; for ( int i = 1; i < W.nn; i++ ) if ( W.n[i].type == T_DIR && W.n[i].nlink ) out[k++] = i; return k; }
extern "C" void harness() {
	init(); mkdirAt( "/w" ); mkdirAt( "/o" ); Rec r( 1 ); int steps = sx_param( "steps", 2 ), shape = sx_choose( 3, "initial tree" ); bool each = sx_param( "each", 1 );
	if ( sx_param( "sym", 0 ) ) { nm[0] = symName( "name0", 1 ); nm[1] = symName( "name1", 2, 2 ); distinct( nm[0], nm[1] ); } else { nm[0] = mkName( "a" ); nm[1] = mkName( "ab" ); } nm[2] = mkName( "~n" );
	W.reverseDirs = sx_param( "reverse", 0 );
	{ Path p( "/o" ); mkdirAt( p / nm[0] ); createOnly( p / nm[1] ); }
	if ( shape == 1 ) { Path p( "/w" ), q( "/w" ); mkdirAt( p / nm[0] ); mkdirAt( q / nm[1] ); createOnly( p / nm[0] ); }
	if ( shape == 2 ) { Path p( "/w" ); mkdirAt( p / nm[0] ); mkdirAt( p / nm[1] ); createOnly( p / nm[0] ); }
	efsw::FileWatcher* fw = new efsw::FileWatcher( true, 1000 ); long id = fw->addWatch( rootArg( "/w" ), &r, true ); sx_check( id > 0, "watch added" );
	specAdd( id, "/w", true, 1 ); gStart(); fw->watch(); polls( 1 ); sx_check( ncb == 0, "nothing reported before anything happened" );
	for ( int k = 0; k < steps; k++ ) {
		if ( sx_param( "tick", 0 ) || sx_choose( 2, "a second passes" ) ) W.now++;
		int dl[MAXNODE], nd = dirList( dl ); uint32_t op = sx_choose( 6, "change" ), i = sx_choose( sx_param( "names", 2 ), "name" ); int d = dl[sx_choose( nd, "directory" )], res = 0; Path p = pathOf( d ); if ( !p.len ) sx_end(); Path dir = p; p / nm[i];
		if ( op != 2 && d != 1 && !inTree( d ) && W.n[d].mode & 0400 ) { bool under = strncmp( dir.s, "/w", 2 ) == 0; if ( !under ) sx_end(); }
		if ( op == 0 ) { res = mkdirAt( p ); if ( res >= 0 && sx_choose( 2, "deeper" ) ) { mkdirAt( p / nm[0] ); createOnly( p / nm[1] ); } }
		else if ( op == 1 ) { if ( lookup( p ) < 0 ) sx_end(); rmrf( p ); }
		else if ( op == 2 ) { int d2 = dl[sx_choose( nd, "to directory" )]; uint32_t j = sx_choose( sx_param( "names", 2 ), "to name" ); if ( d == d2 && i == j ) sx_end(); int src = lookup( p ); if ( src < 0 ) sx_end(); Path q = pathOf( d2 ); if ( !q.len || ( strncmp( dir.s, "/w", 2 ) != 0 && strncmp( q.s, "/w", 2 ) != 0 ) ) sx_end(); if ( W.n[src].type == T_DIR && W.n[src].mode != 0755 ) sx_end(); res = renameAt( p, q / nm[j] ); }
		else if ( op == 3 ) res = createOnly( p );
		else if ( op == 4 ) res = modifyOnly( p );
		else { int src = lookup( p ); if ( src < 0 || W.n[src].type != T_DIR ) sx_end(); W.n[src].mode = W.n[src].mode == 0755 ? 0355 : 0755; }
		if ( res < 0 ) sx_end();
		if ( each || k == steps - 1 ) { gPoll( "poll" ); sx_cover( "polled" ); if ( ncb ) sx_cover( "difference" ); }
	}
	for ( int n = W.nn, i = 1; i < n; i++ ) if ( W.n[i].type == T_DIR && W.n[i].nlink && W.n[i].nents < MAXENT ) { Path p = pathOf( i ); if ( !p.len ) continue; Name pr = mkName( "~p" ); createOnly( p / pr ); gPoll( "probe" ); sx_cover( "probed" ); }
	destroyed( fw );
}
