// C15: destroying a FileWatcher at any moment, under every interleaving with a bounded number of preemptions.
#include "generic.h"
static Rec *r1, *r2; static bool during; static int cbDuring;
static void cb( const CB& ) { if ( during ) cbDuring++; sx_sched(); }
extern "C" void harness() {
	init(); sx_preempt( 0 ); bool native = sx_param( "backend", 1 ) == 1; mkdirAt( "/a" ); mkdirAt( "/a/s" ); mkdirAt( "/a/s/t" ); mkdirAt( "/b" ); mkdirAt( "/o" ); r1 = new Rec( 1 ); r2 = new Rec( 2 ); onCallback = cb;
	efsw::FileWatcher* fw = native ? new efsw::FileWatcher( false ) : new efsw::FileWatcher( true, 1000 ); sx_race( 1 ); W.quietFs = true; W.deleteSelfFirst = sx_choose( 2, "the directory's own event first" );
	int start = sx_choose( 4, "watch() is called" ); // never, first, after adding and running for a while, right before the end
	if ( start == 1 ) fw->watch(); int adds = sx_choose( 3, "watches" ); long a = 0, b = 0; if ( adds ) a = fw->addWatch( "/a", r1, true ); if ( adds > 1 ) b = fw->addWatch( "/b", r2, false ); sx_check( a >= 0 && b >= 0, "added" );
	if ( start == 2 ) { fw->watch(); if ( native ) settle(); else polls( 1 ); }
	int ev = sx_choose( 6, "changes" ); Name f; memset( &f, 0, sizeof f ); f.len = 1; f.s[0] = (char)sx_u8( "name" ); sx_assume( ( f.s[0] >= 'c' ) & ( f.s[0] <= 'n' ) ); W.now++; W.quietFs = false;
	if ( ev == 1 ) { createOnly( Path( "/a" ) / f ); createOnly( "/b/x" ); } else if ( ev == 2 ) { Path p( "/a" ); mkdirAt( p / f ); mkdirAt( p / f ); createOnly( "/b/x" ); } else if ( ev == 3 ) rmrf( "/a/s" ); else if ( ev == 4 ) { renameAt( "/a/s", "/o/s" ); createOnly( "/o/s/x" ); } else if ( ev == 5 ) { rmrf( "/a" ); createOnly( "/b/x" ); }
	W.quietFs = true; sx_preempt( sx_param( "preempts", 2 ) ); if ( start == 3 ) fw->watch();
	int more = sx_choose( 3, "a call before" ); if ( more == 1 ) fw->removeWatch( a ); else if ( more == 2 ) { if ( adds > 1 ) sx_end(); fw->addWatch( "/b", r2, true ); }
	during = true; delete fw; silenced = true; during = false; sx_cover( cbDuring ? "delivered while being destroyed" : "destroyed" ); if ( !start ) sx_cover( "never started" );
	for ( int i = 0; i < 4; i++ ) sx_sched(); sx_check( sx_threads_live() == 1, "the watcher's thread has ended" ); sx_check( W.threadsEnded == W.threadsStarted && W.threadsJoined == W.threadsStarted, "the watcher's thread was joined" ); sx_check( W.threadsStarted == ( start ? 1 : 0 ), "one thread" );
	delete r1; delete r2; if ( sx_param( "leaks", 0 ) ) { sx_check( sx_leaks() == 0, "no memory is left behind" ); sx_check( openHandles() == 0 && watchCount() == 0 && W.doubleClose == 0, "every descriptor, stream and kernel watch is released once" ); sx_cover( "counted" ); }
}
