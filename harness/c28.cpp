// C28: which backend a FileWatcher uses, calls before watch(), and repeated watch().
#include "generic.h"
static Name nm[2], fn[2]; static bool native; static efsw::FileWatcher* fw; static Rec *r1, *r2; static long ids[8]; static int dirOf[8], na; static bool act[8];
static Path dirP( int d ) { Path p( "/" ); p / nm[d]; return p; }
static void caughtUp( const char* w ) { if ( native ) { settle(); endOp( w ); checkKernelWatches( w ); beginOp(); } else gPoll( w ); }
static void op( int k ) {
	uint32_t o = sx_choose( 5, "call" );
	if ( o <= 1 ) {
		int d = o; long want = 0; for ( int i = 0; i < na; i++ ) if ( act[i] && dirOf[i] == d ) want = -2; bool rec = sx_choose( 2, "recursive" ); Path p = dirP( d ); long id = fw->addWatch( std::string( p.s, p.len ), r1, rec ); if ( want ) sx_check( id == want, "a watched directory is rejected as repeated" );
		else { sx_check( id > 0, "a readable directory is accepted" ); specAdd( id, strdup( p ), rec, 1 ); if ( !native ) takeSnap( ws[nws - 1], gsnap[nws - 1] ); ids[na] = id; dirOf[na] = d; act[na++] = true; }
	} else if ( o == 2 ) { long id = na && sx_choose( 2, "a real id" ) ? ids[0] : (long)sx_u16( "id" ); if ( !na || id != ids[0] ) for ( int i = 0; i < na; i++ ) sx_assume( id != ids[i] ); if ( na == 0 || id != ids[0] ) sx_assume( ( id > 12 ) | ( id == 0 ) ); for ( int i = 0; i < na; i++ ) if ( id == ids[i] && act[i] ) { act[i] = false; ws[i].active = false; } fw->removeWatch( (efsw::WatchID)id ); }
	else if ( o == 3 ) { int d = sx_choose( 2, "path" ); Path p = dirP( d ); p.s[p.len++] = '/'; fw->removeWatch( std::string( p.s, p.len ) ); for ( int i = 0; i < na; i++ ) if ( dirOf[i] == d && act[i] ) { act[i] = false; ws[i].active = false; } }
	else { int d = sx_choose( 2, "subdirectory" ); Path p = dirP( d ); p / mkName( "~d" ); bool tracked = false; for ( int i = 0; i < na; i++ ) if ( act[i] && dirOf[i] == d && ws[i].rec ) tracked = true; if ( native && tracked ) sx_end(); long id = fw->addWatch( std::string( p.s, p.len ), r2, false ); if ( tracked ) sx_check( id == -2, "a polled subdirectory is rejected as repeated" ); else { sx_check( id > 0 || id == -2, "a subdirectory is accepted" ); if ( id > 0 ) { fw->removeWatch( id ); } } }
	int n = 0; for ( int i = 0; i < na; i++ ) if ( act[i] ) n++; sx_check( (int)fw->directories().size() == n, "directories() counts the active watches" );
}
extern "C" void harness() {
	init(); for ( int i = 0; i < 2; i++ ) nm[i] = symName( "directory", 1 ); distinct( nm[0], nm[1] ); fn[0] = symName( "file" ); for ( int i = 0; i < 2; i++ ) { Path p = dirP( i ); mkdirAt( p ); mkdirAt( p / mkName( "~d" ) ); }
	r1 = new Rec( 1 ); r2 = new Rec( 2 ); bool fails = sx_choose( 2, "native backend cannot start" ); W.initFails = fails; int how = sx_choose( 6, "constructor" ); int steps = sx_param( "steps", 2 );
	if ( how == 0 ) fw = new efsw::FileWatcher(); else if ( how == 1 ) fw = new efsw::FileWatcher( false ); else if ( how == 2 ) fw = new efsw::FileWatcher( false, 1 + sx_u16( "frequency" ) ); else if ( how == 3 ) fw = new efsw::FileWatcher( true ); else if ( how == 4 ) fw = new efsw::FileWatcher( true, 7 ); else fw = (efsw::FileWatcher*)efsw_create( 0 );
	native = !fails && how != 3 && how != 4; sx_check( ( openHandles() > 0 ) == native, "the native backend is used exactly when it can be and generic mode was not requested" ); sx_cover( native ? "native" : fails && how != 3 && how != 4 ? "fallback" : "generic" );
	for ( int k = 0; k < steps; k++ ) op( k );
	sx_check( ncb == 0 && W.threadsStarted == 0, "nothing runs before watch()" ); if ( native ) sx_check( watchCount() > 0 || !na || !act[na - 1], "kernel watches are set" ); else sx_check( watchCount() == 0, "the poller uses no kernel watch" );
	beginOp(); for ( int d = 0; d < 2; d++ ) { Path p = dirP( d ); createOnly( p / fn[0] ); Path q = dirP( d ); createOnly( ( q / mkName( "~d" ) ) / mkName( "~x" ) ); }
	int times = sx_choose( 4, "calls of watch()" ); for ( int i = 0; i < times; i++ ) fw->watch();
	if ( times ) {
		caughtUp( "first" ); op( 9 ); fw->watch(); if ( native ) { settle(); beginOp(); } W.now++; for ( int d = 0; d < 2; d++ ) { Path p = dirP( d ); createOnly( p / mkName( "~y" ) ); } caughtUp( "second" ); if ( times > 1 ) fw->watch(); sx_check( W.threadsStarted == 1, "watch() starts one thread only" ); sx_cover( "watched" );
	} else { sx_check( ncb == 0 && W.threadsStarted == 0, "nothing runs before watch()" ); sx_cover( "never watched" ); }
	destroyed( fw ); sx_check( W.threadsEnded == W.threadsStarted && W.threadsJoined == W.threadsStarted, "the thread has ended" );
}
