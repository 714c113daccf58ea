// C13/C14: calls from two threads at once while the watcher thread works; every interleaving with a bounded number of preemptions.
#include "generic.h"
static efsw::FileWatcher* fw; static bool native; static Rec* r[6]; static const char* dirs[4] = { "/a", "/b", "/c", "/d" }; static bool done[2];
struct Res { int op, d; long ret; bool started, finished; }; static Res res[4]; static long ids[4]; static long goneId[4]; static int ngone;
static long in[8]; // the watch whose callback the thread is in
static void returned( long id ) { for ( int t = 0; t < 8; t++ ) if ( t != sx_self() && id && in[t] == id ) sx_fail( "a callback of a removed watch is still running when removeWatch has returned" ); goneId[ngone++] = id; }
static void cb( const CB& c ) { if ( sx_param( "incb", 1 ) ) { int t = sx_self(); in[t] = c.id; sx_sched(); in[t] = 0; } for ( int i = 0; i < ngone; i++ ) if ( goneId[i] == c.id ) sx_fail( "a removed watch delivers nothing after removeWatch has returned" ); }
enum { ADD, ADDREC, RMID, RMPATH, DIRS };
static void run( Res& x, Rec* rec ) {
	x.started = true;
	switch ( x.op ) {
		case ADD: case ADDREC: x.ret = fw->addWatch( dirs[x.d], rec, x.op == ADDREC ); break;
		case RMID: fw->removeWatch( (efsw::WatchID)ids[x.d] ); returned( ids[x.d] ); break;
		case RMPATH: fw->removeWatch( std::string( dirs[x.d] ) ); if ( ids[x.d] > 0 ) returned( ids[x.d] ); break;
		default: { std::vector<std::string> v = fw->directories(); x.ret = v.size(); for ( std::string& s : v ) { bool ok = false; for ( const char* d : dirs ) if ( s.size() == 3 && s[0] == '/' && s[1] == d[1] && s[2] == '/' ) ok = true; sx_check( ok, "directories() lists watched directories" ); } }
	}
	x.finished = true;
}
static void user( void* a ) { int i = (int)(intptr_t)a; run( res[i], r[2 + i] ); done[i] = true; sx_wake( 7777 ); }
static const int8_t ops[][2] = { { ADD, 2 }, { ADDREC, 2 }, { RMID, 0 }, { RMPATH, 0 }, { DIRS, 0 }, { ADD, 0 }, { RMPATH, 2 }, { RMID, 1 } };
static void set( Res& x, int k ) { x.op = ops[k][0]; x.d = ops[k][1]; }
static void pick() { // a is watched recursively, b is watched, c is not
	if ( sx_param( "pairs", 0 ) ) { static const int8_t p[][2] = { { 0, 2 }, { 3, 1 }, { 2, 3 }, { 0, 1 }, { 0, 6 }, { 2, 7 } }; int k = sx_choose( 6, "calls" ); set( res[0], p[k][0] ); set( res[1], p[k][1] ); }
	else for ( int i = 0; i <= (int)sx_param( "users", 1 ); i++ ) set( res[i], sx_choose( 8, "call" ) );
}
static void changes() {
	uint32_t k = sx_param( "pairs", 0 ) ? 1 + sx_choose( 2, "meanwhile" ) : sx_choose( 4, "meanwhile" ); W.now++;
	if ( k == 0 ) { Name f = mkName( "f" ); f.s[0] = (char)sx_u8( "name" ); sx_assume( ( f.s[0] >= 'a' ) & ( f.s[0] <= 'e' ) ); Path p( "/a" ); createOnly( p / f ); createOnly( "/b/g" ); }
	else if ( k == 1 ) { mkdirAt( "/a/x" ); createOnly( "/a/s/y" ); }
	else if ( k == 2 ) { rmrf( "/a/s" ); createOnly( "/b/g" ); }
	else { renameAt( "/a/s", "/a/t" ); }
}
extern "C" void harness() {
	init(); sx_preempt( 0 ); native = sx_param( "backend", 1 ) == 1; int users = sx_param( "users", 1 ); for ( const char* d : dirs ) mkdirAt( d ); mkdirAt( "/a/s" ); for ( int i = 0; i < 6; i++ ) r[i] = new Rec( i + 1 ); onCallback = cb;
	fw = native ? new efsw::FileWatcher( false ) : new efsw::FileWatcher( true, 1000 ); ids[0] = fw->addWatch( "/a", r[0], true ); ids[1] = fw->addWatch( "/b", r[1], false ); fw->watch(); if ( native ) settle(); else polls( 1 ); sx_check( ids[0] > 0 && ids[1] > 0 && ncb == 0, "set up" );
	int n = users + 1; pick(); changes();
	W.quietFs = true; sx_race( 1 ); sx_preempt( sx_param( "preempts", 2 ) );
	for ( int i = 0; i < users; i++ ) sx_thread_create( user, (void*)(intptr_t)i );
	run( res[users], r[5] ); for ( int i = 0; i < users; i++ ) while ( !done[i] ) sx_block( 7777 );
	sx_preempt( 0 ); W.quietFs = false;
	if ( native ) settle(); else polls( 2 );
	// the outcome is one of those that some order of the calls gives
	bool removedA = false, removedB = false; int addC = 0, okC = 0, rmC = 0; long cId = 0; int cRec = 0, cL = 0;
	for ( int i = 0; i < n; i++ ) { Res& x = res[i]; if ( ( x.op == RMID || x.op == RMPATH ) && x.d == 0 ) removedA = true; if ( x.op == RMID && x.d == 1 ) removedB = true; if ( x.op == RMPATH && x.d == 2 ) rmC++; }
	bool readdA = false; long aId = ids[0]; int aL = 1;
	for ( int i = 0; i < n; i++ ) { Res& x = res[i];
		if ( ( x.op == ADD || x.op == ADDREC ) && x.d == 2 ) { addC++; if ( x.ret > 0 ) { okC++; cId = x.ret; cRec = x.op == ADDREC; cL = i < users ? 3 + i : 6; } else sx_check( x.ret == -2, "a concurrent addWatch fails only as repeated" ); }
		if ( x.op == ADD && x.d == 0 ) { if ( x.ret > 0 ) { sx_check( removedA, "a watched directory is rejected as repeated" ); readdA = true; aId = x.ret; aL = i < users ? 3 + i : 6; } else sx_check( x.ret == -2, "a concurrent addWatch fails only as repeated" ); }
		if ( x.op == DIRS ) { int lo = 2, hi = 2 + 0; for ( int k = 0; k < n; k++ ) if ( k != i ) { Res& y = res[k]; if ( y.op == RMID || ( y.op == RMPATH && y.d == 0 ) ) lo--; if ( ( y.op == ADD || y.op == ADDREC ) && y.ret > 0 ) hi++; } if ( lo < 0 ) lo = 0; sx_check( x.ret >= lo && x.ret <= hi, "directories() is a state between calls" ); }
	}
	if ( addC && !rmC ) sx_check( okC == 1, "exactly one of two concurrent addWatch calls of a directory succeeds" ); if ( addC ) sx_check( okC >= 1, "a directory that is not watched can be added" );
	std::vector<std::string> v = fw->directories(); bool has[4] = {}; for ( std::string& s : v ) for ( int i = 0; i < 4; i++ ) if ( s[1] == dirs[i][1] ) { sx_check( !has[i], "a directory is listed once" ); has[i] = true; }
	sx_check( has[0] == ( !removedA || readdA ), "the first directory is watched if not removed" ); sx_check( has[1] == !removedB, "the second directory is watched if not removed" ); if ( !rmC || !addC ) sx_check( has[2] == ( okC > 0 ), "an added directory is listed" ); sx_check( !has[3], "nothing else is listed" );
	if ( has[2] && okC > 1 ) sx_end();
	sx_check( ids[0] != ids[1] && ( !cId || ( cId != ids[1] && ( cId != ids[0] || removedA ) ) ) && ( !readdA || aId != ids[1] ), "ids are distinct" );
	for ( int i = 0; i < ncb; i++ ) { CB& c = cbs[i]; bool ok = ( c.id == ids[0] && c.listener == 1 && c.dir.s[1] == 'a' ) || ( c.id == ids[1] && c.listener == 2 && c.dir.s[1] == 'b' ) || ( readdA && c.id == aId && c.listener == aL && c.dir.s[1] == 'a' ); sx_check( ok && !c.missed, "callbacks belong to their watch" ); sx_check( c.tid == 1, "callbacks come from the watcher thread" ); }
	if ( native && !removedB ) { int nb = 0; for ( int i = 0; i < ncb; i++ ) if ( cbs[i].id == ids[1] ) nb++; bool g = lookup( "/b/g" ) >= 0; sx_check( nb == ( g ? 1 : 0 ), "changes of a watch that stays are delivered once" ); }
	goneId[0] = 0; ngone = 0; if ( has[0] ) specAdd( aId, "/a", !readdA, aL ); if ( has[1] ) specAdd( ids[1], "/b", false, 2 ); if ( has[2] ) specAdd( cId, "/c", cRec, cL );
	if ( native ) { checkKernelWatches( "end" ); beginOp(); } else gStart();
	Name pr = mkName( "~p" ); W.now++; for ( int i = 1, m = W.nn; i < m; i++ ) if ( W.n[i].type == T_DIR && W.n[i].nlink ) { Path p = pathOf( i ); if ( p.len ) createOnly( p / pr ); }
	if ( native ) { settle(); endOp( "probe" ); } else gPoll( "probe" ); sx_cover( "probed" );
	destroyed( fw );
}
