// C04: directories of a recursive native watch are deleted, moved out or replaced, then recreated or moved back; settled or in one batch; nothing stale remains and the current tree is covered.
#include "native.h"
static Name nm[2], dn;
extern "C" void harness() {
	init(); mkdirAt( "/w" ); mkdirAt( "/o" ); Rec r( 1 ); nm[0] = symName( "name0", sx_param( "len", 1 ) ); nm[1] = symName( "name1", sx_param( "len", 1 ) ); distinct( nm[0], nm[1] );
	W.deleteSelfFirst = sx_choose( 2, "IN_IGNORED before IN_DELETE" ); W.reverseDirs = sx_param( "reverse", 0 ); bool settled = sx_param( "settled", 1 );
	{ Path p( "/w" ); mkdirAt( p / nm[0] ); mkdirAt( p / nm[1] ); Path f = p; mkdirAt( p / nm[0] ); createOnly( f / nm[0] ); Path q( "/w" ); mkdirAt( q / nm[1] ); }
	efsw::FileWatcher* fw = new efsw::FileWatcher( false ); fw->watch();
	long id = fw->addWatch( rootArg( "/w" ), &r, true ); sx_check( id > 0, "watch added" ); specAdd( id, "/w", true, 1 );
	settle(); sx_check( ncb == 0, "nothing reported before anything happened" ); checkKernelWatches( "start" );
	// which directory leaves, and how
	Path victim( "/w" ); uint32_t v = sx_choose( 3, "directory" ); if ( v == 2 ) victim / nm[1]; else { victim / nm[0]; if ( v == 1 ) victim / nm[1]; }
	Path out( "/o" ); out / nm[sx_choose( 2, "name outside" )]; beginOp(); int node = lookup( victim ); uint32_t how = sx_choose( 3, "how" );
	if ( how == 0 ) rmrf( victim );
	else if ( how == 1 ) { if ( renameAt( victim, out ) < 0 ) sx_end(); }
	else { Path q( "/w" ); q / nm[1]; if ( v != 1 || renameAt( victim, q ) < 0 ) sx_end(); } // replaces the empty directory /w/1
	if ( settled ) { settle(); endOp( "leave" ); checkKernelWatches( "leave" ); }
	// what happens outside stays outside
	if ( settled && how == 1 ) { beginOp(); Name f = mkName( "~f" ); createOnly( Path( out ) / f ); mkdirAt( Path( out ) / nm[1] ); unlinkAt( Path( out ) / f ); settle(); int c = ncb; endOp( "outside" ); sx_check( c == mark_c, "nothing that happens in a directory that left is reported" ); sx_cover( "outside is silent" ); }
	// a second step
	if ( settled ) beginOp(); uint32_t back = sx_choose( 5, "then" ); int res = 0;
	if ( back == 1 ) res = mkdirAt( victim );
	else if ( back == 2 ) { res = mkdirAt( victim ); if ( res >= 0 ) { Path d = victim; mkdirAt( d / nm[0] ); mkdirAt( d / nm[1] ); } }
	else if ( back == 3 ) { if ( how != 1 ) sx_end(); res = renameAt( out, victim ); }
	else if ( back == 4 ) { if ( how != 1 ) sx_end(); Path q( "/w" ); Name z = mkName( "~z" ); res = renameAt( out, q / z ); }
	if ( res < 0 ) sx_end();
	settle(); if ( settled ) endOp( "then" ); checkKernelWatches( "then" ); if ( back >= 3 ) sx_cover( "moved back" ); if ( back == 1 ) sx_cover( "recreated" );
	probeAll( "probe" ); sx_cover( "probed" );
	destroyed( fw );
}
