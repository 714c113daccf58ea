// C25: the polling interval, for every frequency and clock value; the first poll; every watch once per cycle.
#include "generic.h"
static int sleepsAt[MAXCB]; static unsigned freq; static int opensA, opensB, cyc; static bool bad;
static void note( const CB& ) { sleepsAt[ncb - 1] = W.sleeps; }
// many watches, many cycles, some of them without any change: the interval never adapts and no watch is ever left out
static void lasting( int N, int cycles ) {
	static char d[26][4]; Rec r( 1 ); for ( int i = 0; i < N; i++ ) { d[i][0] = '/'; d[i][1] = 'a' + i; mkdirAt( d[i] ); if ( i & 1 ) { Path p( d[i] ); mkdirAt( p / mkName( "s" ) ); } }
	freq = sx_u32( "frequency" ); newClock(); efsw::FileWatcher* fw = new efsw::FileWatcher( true, freq ); for ( int i = 0; i < N; i++ ) sx_check( fw->addWatch( d[i], &r, i % 3 != 0 ) > 0, "watch added" );
	fw->watch(); polls( 1 ); sx_check( ncb == 0, "nothing reported before anything happened" );
	for ( int k = 0; k < cycles; k++ ) {
		W.now++; int c0 = ncb, s0 = W.sleeps, want = 0; W.sleptTotal = 0; bool idle = N > 8 ? k % 5 < 2 : k % 4 != 3 && sx_choose( 2, "idle" ); Name n = mkName( "n" ); auto flip = [&]( const Path& q ) { if ( lookup( q ) < 0 ) createOnly( q ); else unlinkAt( q ); };
		if ( !idle ) for ( int i = 0; i < N; i++ ) { Path p( d[i] ); flip( p / n ); want++; if ( i % 3 != 0 && ( i & 1 ) ) { Path q( d[i] ); q / mkName( "s" ); flip( q / n ); want += 2; /* and the subdirectory itself */ } }
		polls( 1 ); if ( ncb != c0 + want ) dumpCbs( c0 ); sx_check( ncb == c0 + want, "every watch is polled in every cycle" ); sx_check( W.sleeps == s0 + 1, "one wait per cycle" ); sx_check( W.sleptTotal == (uint64_t)freq * 1000000, "the poller waits exactly the polling frequency" ); sx_cover( idle ? "idle" : "interval" );
	}
	sx_check( W.maxHeldAtSleep == 0, "no lock is held while the poller waits" ); destroyed( fw ); sx_check( W.threadsStarted == 1 && W.threadsEnded == 1 && W.threadsJoined == 1, "one polling thread, started and joined" );
}
extern "C" void harness() {
	if ( int n = sx_param( "watches", 0 ) ) { init(); lasting( n, sx_param( "cycles", 8 ) ); return; }
	init(); mkdirAt( "/a" ); mkdirAt( "/b" ); mkdirAt( "/b/s" ); Rec r( 1 ); onCallback = note; newClock();
	int how = sx_choose( 5, "constructor" ); efsw::FileWatcher* fw; freq = sx_u32( "frequency" );
	if ( sx_param( "narrow", 0 ) ) sx_assume( freq < 65536 );
	if ( how == 0 ) { fw = new efsw::FileWatcher( true ); freq = 1000; sx_cover( "default" ); }
	else if ( how == 1 ) fw = new efsw::FileWatcher( true, freq );
	else if ( how == 2 ) { W.initFails = true; fw = new efsw::FileWatcher( false, freq ); sx_cover( "fallback" ); }
	else if ( how == 3 ) { efsw_watcher w = efsw_create( 1 ); fw = (efsw::FileWatcher*)w; freq = 1000; }
	else { unsigned f2 = freq; fw = new efsw::FileWatcher( true, f2 ); fw->watch(); polls( 1 ); }
	long a = fw->addWatch( "/a", &r, false ), b = fw->addWatch( "/b", &r, sx_choose( 2, "recursive" ) ); sx_check( a > 0 && b > 0, "watches added" );
	int n0 = W.sleeps; createOnly( "/a/x" ); createOnly( "/b/x" ); W.sleptTotal = 0;
	if ( how != 4 ) { fw->watch(); if ( sx_choose( 2, "watch() again" ) ) fw->watch(); polls( 1 ); sx_check( ncb == 2 && sleepsAt[0] == n0 && sleepsAt[1] == n0, "the first poll happens immediately" ); sx_check( W.sleptTotal == (uint64_t)freq * 1000000, "the poller waits exactly the polling frequency" ); sx_cover( "first" ); }
	else polls( 1 );
	sx_check( ncb == 2, "every watch is polled" ); sx_check( W.sleeps == n0 + 1, "one wait" );
	for ( int k = 0; k < 2; k++ ) {
		if ( W.symClock ) newClock(); W.now++; int c0 = ncb, s0 = W.sleeps; W.sleptTotal = 0; createOnly( k ? "/a/z" : "/a/y" ); createOnly( k ? "/b/z" : "/b/y" ); polls( 1 );
		sx_check( ncb == c0 + 2, "every watch is polled in every cycle" ); sx_check( W.sleeps == s0 + 1, "one wait per cycle" ); sx_check( W.sleptTotal == (uint64_t)freq * 1000000, "the poller waits exactly the polling frequency" ); sx_cover( "interval" );
	}
	sx_check( W.maxHeldAtSleep == 0, "no lock is held while the poller waits" );
	destroyed( fw ); sx_check( W.threadsStarted == 1 && W.threadsEnded == 1 && W.threadsJoined == 1, "one polling thread, started and joined" ); 
}
