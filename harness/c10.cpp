// C10: kernel queues of a symbolic small size that overflow once or several times, several watches with subdirectories, changes of every kind.
#include "native.h"
static Name nm[2];
extern "C" void harness() {
	init(); mkdirAt( "/w" ); mkdirAt( "/v" ); mkdirAt( "/x" ); Rec r1( 1 ), r2( 2 ), r3( 3 ); nm[0] = symName( "name0", sx_param( "len", 2 ) ); nm[1] = symName( "name1", 1 ); distinct( nm[0], nm[1] );
	{ Path p( "/w" ); mkdirAt( p / nm[1] ); mkdirAt( p / nm[1] ); }
	efsw::FileWatcher* fw = new efsw::FileWatcher( false ); fw->watch();
	bool rec = sx_choose( 2, "recursive" ); long a = fw->addWatch( rootArg( "/w" ), &r1, rec ), b = fw->addWatch( rootArg( "/v" ), &r2, !rec ); sx_check( a > 0 && b > 0, "watches added" ); specAdd( a, "/w", rec, 1 ); specAdd( b, "/v", !rec, 2 );
	uint32_t third = sx_choose( 3, "third watch" ); long c = 0; if ( third ) { c = fw->addWatch( rootArg( "/x" ), &r3, false ); sx_check( c > 0, "watches added" ); if ( third == 2 ) { fw->removeWatch( c ); } else specAdd( c, "/x", false, 3 ); }
	settle(); sx_check( ncb == 0, "nothing reported before anything happened" );
	static const int LIM[6] = { 2, 8, 1, 3, 4, 5 }; int limit = LIM[sx_choose( sx_param( "limits", 3 ), "queue size" )], rounds = sx_param( "rounds", 2 ), ev = sx_param( "events", 2 ), over = 0; W.inst[0].limit = limit; W.mergeEvents = false; beginOp();
	for ( int q = 0; q < rounds; q++ ) {
		int before = W.inst[0].overflows, c0 = ncb; W.splitReads = q == 0 && sx_choose( 2, "split reads" );
		for ( int k = 0; k < ev; k++ ) {
			uint32_t op = sx_choose( 6, "change" ); Path p( op & 1 ? "/w" : "/v" ); Path q2 = p; p / nm[0]; int res;
			if ( op < 2 ) { res = createOnly( p ); if ( res >= 0 ) closeWrite( p ); } else if ( op < 4 ) { res = writeFile( p ); } else if ( op == 4 ) { Path t( "/w" ); res = renameAt( p, t / nm[0] ); } else { Name z = mkName( "~z" ); res = renameAt( p, q2 / z ); }
			if ( res < 0 ) sx_end();
		}
		over = W.inst[0].overflows - before; lossy = over > 0; W.inst[0].limit = MAXQ; settle(); W.inst[0].limit = limit;
		endOp( "batch" ); lossy = false;
		int missed[4] = { 0, 0, 0, 0 }; for ( int i = c0; i < ncb; i++ ) if ( cbs[i].missed ) { int w = -1; for ( int k = 0; k < nws; k++ ) if ( ws[k].id == cbs[i].id && ws[k].listener == cbs[i].listener ) w = k; sx_check( w >= 0, "missed actions are announced to active watches only" ); Path d( ws[w].root ); d.s[d.len++] = '/'; sx_check( seq( cbs[i].dir, d.s, d.len ), "missed actions are announced with the directory of the watch" ); missed[w]++; }
		for ( int k = 0; k < nws; k++ ) { if ( missed[k] != over ) { dumpCbs( c0 ); sx_notev( "overflows", over ); sx_notev( "announced", missed[k] ); sx_fail( over ? "every overflow is announced once to every watch" : "nothing is announced when nothing was lost" ); } }
		sx_check( true, "missed actions announced exactly as often as the queue overflowed" ); sx_cover( over ? "overflow" : "no overflow" ); if ( over && q ) sx_cover( "second overflow" );
		W.inst[0].limit = MAXQ; beginOp(); Path f( "/w" ); Name pr = mkName( "~0" ); pr.s[1] += q; createOnly( f / pr ); Path g( "/v" ); createOnly( g / pr ); settle(); endOp( "after" ); W.inst[0].limit = limit; beginOp();
	}
	destroyed( fw );
}
