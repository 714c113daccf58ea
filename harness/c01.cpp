// C01: one directory, symbolic entry names, symbolic sequence of changes, symbolic batching of the kernel's events.
#include "native.h"
extern "C" void harness() {
	init(); mkdirAt( "/w" ); Rec r( 1 ); int steps = sx_param( "steps", 3 ); bool rec = sx_choose( 2, "recursive" );
	Name n[2] = { symName( "name0" ), symName( "name1" ) }; distinct( n[0], n[1] );
	createOnly( Path( "/w" ) / n[0] );
	bool settleEach = sx_choose( 2, "settle after each change" );
	W.splitReads = !settleEach; 
	efsw::FileWatcher* fw = new efsw::FileWatcher( false ); fw->watch();
	long id = fw->addWatch( rootArg( "/w" ), &r, rec ); sx_check( id > 0, "watch added" ); specAdd( id, "/w", rec, 1 );
	settle(); sx_check( ncb == 0, "nothing reported before anything happened" );
	beginOp();
	for ( int k = 0; k < steps; k++ ) {
		if ( settleEach ) beginOp();
		uint32_t op = sx_choose( 9, "change" ), i = sx_choose( 2, "which name" ); Path p = Path( "/w" ) / n[i]; int res = 0;
		switch ( op ) {
		case 0: res = createOnly( p ); break;
		case 1: res = modifyOnly( p ); break;
		case 2: res = closeWrite( p ); break;
		case 3: res = unlinkAt( p ); break;
		case 4: res = mkdirAt( p ); break;
		case 5: res = rmdirAt( p ); break;
		case 6: res = chmodAt( p, 0600 ); break;
		case 7: res = symlinkAt( "/nowhere", p ); break;
		default: { Name hl = mkName( "~h" ); res = linkAt( p, Path( "/w" ) / hl ); break; }
		}
		if ( res < 0 ) sx_end(); // not possible in this state
		if ( settleEach ) { settle(); endOp( "step" ); sx_cover( "settled step" ); }
	}
	if ( !settleEach ) { settle(); endOp( "batch" ); sx_cover( "batch" ); }
	destroyed( fw );
}
