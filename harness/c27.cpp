// C27: a listener calls addWatch, removeWatch and directories() on its own watcher from inside a callback.
#include "generic.h"
static efsw::FileWatcher* fw; static bool native; static Rec* r[6]; static const char* dirs[3] = { "/a", "/b", "/c" };
static struct { int dir; long id; bool act, inCb; } w[8]; static int nw, budget, skip; static bool inside;
static void add( int d, bool rec ) {
	long want = 0; for ( int i = 0; i < nw; i++ ) if ( w[i].act && w[i].dir == d ) want = -2; if ( lookup( dirs[d] ) < 0 ) want = -1;
	long id = fw->addWatch( dirs[d], r[nw], rec ); if ( want ) { sx_check( id == want, "adding from a callback fails with the documented code" ); return; }
	sx_check( id > 0, "a directory can be added from a callback" ); for ( int i = 0; i < nw; i++ ) sx_check( !w[i].act || w[i].id != id, "ids are distinct" );
	w[nw].dir = d; w[nw].id = id; w[nw].act = true; nw++; specAdd( id, dirs[d], rec, nw ); if ( !native ) takeSnap( ws[nws - 1], gsnap[nws - 1] );
}
static void gone( int i ) { if ( !w[i].act ) return; w[i].act = false; ws[i].gone = true; }
static void call() {
	uint32_t op = sx_choose( 4, "call" );
	if ( op == 0 ) { uint32_t i = sx_choose( nw + 1, "id of" ); if ( i == (uint32_t)nw ) { uint16_t x = sx_u16( "other id" ); sx_assume( x > 12 ); fw->removeWatch( (efsw::WatchID)x ); } else { long id = w[i].id; if ( !w[i].act ) for ( int k = 0; k < nw; k++ ) if ( w[k].act && w[k].id == id ) sx_end(); fw->removeWatch( (efsw::WatchID)id ); gone( i ); } sx_cover( "removed by id" ); }
	else if ( op == 1 ) { uint32_t d = sx_choose( 3, "directory" ); fw->removeWatch( std::string( dirs[d] ) ); for ( int i = 0; i < nw; i++ ) if ( w[i].dir == (int)d ) gone( i ); sx_cover( "removed by path" ); }
	else if ( op == 2 ) { if ( nw < 5 ) add( sx_choose( 3, "directory" ), sx_choose( 2, "recursive" ) ); sx_cover( "added" ); }
	int n = 0; for ( int i = 0; i < nw; i++ ) if ( w[i].act ) n++; sx_check( (int)fw->directories().size() == n, "directories() inside a callback" ); sx_cover( "listed" );
}
static void cb( const CB& c ) {
	for ( int i = 0; i < nw; i++ ) if ( w[i].id == c.id && !w[i].act ) { bool other = false; for ( int k = 0; k < nw; k++ ) if ( w[k].act && w[k].id == c.id ) other = true; if ( !other ) sx_fail( "a watch removed from a callback delivers nothing more" ); }
	if ( !budget || inside ) return; if ( skip ) { skip--; return; } budget--; inside = true; call(); if ( sx_param( "twice", 0 ) ) call(); inside = false;
}
static void change( int k ) {
	uint32_t op = sx_choose( 6, "change" ); Name f = mkName( "f" ); f.s[0] += k; Path p; int res = 0;
	if ( op == 0 ) res = createOnly( Path( "/a" ) / f ); else if ( op == 1 ) res = createOnly( Path( "/a/s" ) / f ); else if ( op == 2 ) res = createOnly( Path( "/b" ) / f );
	else if ( op == 3 ) { Path q( "/a" ); q / f; res = mkdirAt( q ); if ( res >= 0 ) { createOnly( q / mkName( "in" ) ); } }
	else if ( op == 4 ) { if ( lookup( "/a/s" ) < 0 ) sx_end(); if ( sx_choose( 2, "move out" ) ) res = renameAt( "/a/s", "/o/s" ); else rmrf( "/a/s" ); }
	else { if ( lookup( "/a/s" ) < 0 ) sx_end(); res = renameAt( "/a/s", "/a/t" ); }
	if ( res < 0 ) sx_end();
}
static void caughtUp( const char* what ) { if ( native ) { settle(); endOp( what ); } else gPoll( what ); for ( int i = 0; i < nw; i++ ) if ( !w[i].act ) { ws[i].active = false; ws[i].gone = false; } if ( native ) { checkKernelWatches( what ); beginOp(); } }
extern "C" void harness() {
	init(); int n = sx_param( "changes", 2 ); mkdirAt( "/a" ); mkdirAt( "/a/s" ); mkdirAt( "/b" ); mkdirAt( "/c" ); mkdirAt( "/c/s" ); mkdirAt( "/o" ); for ( int i = 0; i < 6; i++ ) r[i] = new Rec( i + 1 ); onCallback = cb;
	native = sx_param( "backend", 0 ) ? sx_param( "backend", 0 ) == 1 : sx_choose( 2, "native backend" ); fw = native ? new efsw::FileWatcher( false ) : new efsw::FileWatcher( true, 1000 ); fw->watch();
	inside = true; add( 0, true ); add( 1, false ); inside = false; if ( native ) { settle(); } else { gStart(); polls( 1 ); } sx_check( ncb == 0, "nothing reported before anything happened" ); beginOp();
	budget = sx_param( "calls", 1 ); skip = sx_choose( sx_param( "skip", 3 ), "callbacks before the call" ); Name nx = symName( "name", 1 ); W.now++;
	for ( int k = 0; k < n; k++ ) change( k ); createOnly( Path( "/b" ) / nx );
	caughtUp( "changes" ); if ( budget ) sx_end(); inside = true;
	Name pr = mkName( "~p" ); W.now++; for ( int i = 1, m = W.nn; i < m; i++ ) if ( W.n[i].type == T_DIR && W.n[i].nlink ) { Path p = pathOf( i ); if ( p.len ) createOnly( p / pr ); } caughtUp( "probe" ); sx_cover( "probed" );
	destroyed( fw );
}
