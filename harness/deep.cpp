// Larger worlds: deep trees, many entries, many watches, long batches; one or two symbolic operations at symbolic places, then every directory is probed.
#include "generic.h"
static bool native; static efsw::FileWatcher* fw; static Rec* rec[40];
static Name letter( int i ) { Name n = mkName( i < 26 ? "a" : "aa" ); n.s[0] = 'a' + i % 26; if ( i >= 26 ) n.s[1] = '0' + i / 26; return n; }
static void start( bool synth = false ) { native = sx_param( "backend", 1 ) == 1; for ( int i = 0; i < 40; i++ ) rec[i] = new Rec( i + 1 ); fw = native ? new efsw::FileWatcher( false ) : new efsw::FileWatcher( true, 1000 ); }
static void ready() { if ( native ) { settle(); checkKernelWatches( "start" ); } else { gStart(); polls( 1 ); } sx_check( ncb == 0, "nothing reported before anything happened" ); beginOp(); }
static void caughtUp( const char* what ) { if ( native ) { settle(); endOp( what ); checkKernelWatches( what ); beginOp(); } else { W.now++; gPoll( what ); } }
static void probes() { Name pr = mkName( "~p" ); for ( int n = W.nn, i = 1; i < n; i++ ) if ( W.n[i].type == T_DIR && W.n[i].nlink && W.n[i].nents < MAXENT ) { Path p = pathOf( i ); if ( !p.len ) continue; createOnly( p / pr ); } caughtUp( "probe" ); sx_cover( "probed" ); }
// any of n, or in large worlds any of the first, the last and some in between
static int pick( int n, const char* what ) { int few = sx_param( "few", 0 ); if ( !few || n <= few ) return sx_choose( n, what ); return sx_choose( few, what ) * ( n - 1 ) / ( few - 1 ); }
// a chain /w/a/b/c/... of directories, each with a file and a sibling directory
static Path level( int j ) { Path p( "/w" ); for ( int i = 0; i < j; i++ ) p / letter( i ); return p; }
static void makeLevel( int j ) { Path p = level( j ); if ( mkdirAt( p ) < 0 ) sx_end(); Path q = p; createOnly( q / mkName( "~f" ) ); if ( j & 1 ) { q = level( j ); mkdirAt( q / mkName( "s" ) ); } }
static void chain( int D ) {
	mkdirAt( "/w" ); mkdirAt( "/o" ); createOnly( "/w/z" ); int pre = sx_choose( 3, "levels at the start" ) * ( D / 2 ), at = 1; for ( ; at <= pre && at <= D; at++ ) makeLevel( at );
	start(); bool synth = native && sx_param( "synth", 0 ); std::vector<efsw::WatcherOption> o; if ( synth ) o.push_back( efsw::WatcherOption( efsw::Options::LinuxProduceSyntheticEvents, 1 ) );
	long id = fw->addWatch( rootArg( "/w" ), rec[0], true, o ); sx_check( id > 0, "watch added" ); specAdd( id, "/w", true, 1, synth ); strictSynth = true; fw->watch(); ready();
	bool one = at <= D && sx_choose( 2, "one by one" ); for ( ; at <= D; at++ ) { makeLevel( at ); if ( one ) caughtUp( "grown" ); } caughtUp( "grown" );
	Name q = mkName( "q" );
	for ( int k = 0, n = sx_param( "ops", 2 ); k < n; k++ ) {
		int j = 1 + pick( D, "level" ); uint32_t op = sx_choose( k ? 3 : 6, "change" ); Path p = level( j ); if ( lookup( p ) < 0 ) sx_end(); Path up = level( j - 1 ); int res = 0;
		if ( op == 0 ) res = renameAt( p, up / q ); else if ( op == 1 ) res = renameAt( p, "/o/x" ); else if ( op == 2 ) rmrf( p );
		else if ( op == 3 ) { res = renameAt( p, "/o/x" ); caughtUp( "moved out" ); if ( res >= 0 ) { createOnly( "/o/x/n" ); res = renameAt( "/o/x", p ); } }
		else if ( op == 4 ) { if ( j < 2 ) sx_end(); res = renameAt( p, "/w/y" ); }
		else { res = renameAt( p, up / q ); caughtUp( "renamed" ); if ( res >= 0 ) res = renameAt( up, p ); }
		if ( res < 0 ) sx_end(); caughtUp( "changed" ); sx_cover( "changed" ); q.s[0]++;
	}
	probes();
}
// many entries of one directory, several of them changed between two polls or in one batch
static void wide( int M ) {
	mkdirAt( "/w" ); mkdirAt( "/o" ); static Name nm[MAXENT]; Name x = symName( "name", 1 ); for ( int i = 0; i < M; i++ ) { nm[i] = letter( i ); if ( x.len == 1 ) sx_assume( x.s[0] != nm[i].s[0] ); } nm[M] = x; bool dirs = sx_choose( 2, "directories" );
	int pre = sx_choose( 3, "entries at the start" ) * ( M / 2 ); auto mk = [&]( int i ) { Path p( "/w" ); p / nm[i]; if ( dirs && i % 3 == 1 ) { if ( mkdirAt( p ) >= 0 ) createOnly( p / mkName( "f" ) ); } else createOnly( p ); };
	for ( int i = 0; i < pre; i++ ) mk( i ); start(); bool r = sx_choose( 2, "recursive" ); long id = fw->addWatch( rootArg( "/w" ), rec[0], r ); sx_check( id > 0, "watch added" ); specAdd( id, "/w", r, 1 ); fw->watch(); ready();
	if ( pre < M ) { if ( sx_choose( 2, "one by one" ) ) for ( int i = pre; i < M; i++ ) { mk( i ); caughtUp( "grown" ); } else { for ( int i = pre; i < M; i++ ) mk( i ); caughtUp( "grown" ); } }
	int i = pick( M, "entry" ), j = pick( M, "other entry" ), l = ( i + 3 ) % M; if ( i == j ) sx_end(); auto P = [&]( int k ) { return Path( "/w" ) / nm[k]; }; int res = 0;
	switch ( sx_choose( 7, "change" ) ) {
	case 0: rmrf( P( i ) ); if ( l != j ) rmrf( P( l ) ); res = renameAt( P( j ), P( M ) ); break;
	case 1: res = renameAt( P( i ), P( M ) ); if ( res >= 0 ) { renameAt( P( j ), P( i ) ); renameAt( P( M ), P( j ) ); } break; // swapped
	case 2: res = renameAt( P( i ), P( M ) ); if ( res >= 0 ) { createOnly( P( i ) ); modifyOnly( P( j ) ); } break;
	case 3: for ( int k = 0; k < M; k++ ) if ( k != i && k != j ) modifyOnly( P( k ) ); rmrf( P( i ) ); mk( M ); break;
	case 4: for ( int k = 0; k < M; k++ ) if ( k != j ) rmrf( P( k ) ); break;
	case 5: { Name t = nm[M]; res = renameAt( P( i ), P( M ) ); if ( res >= 0 ) { res = renameAt( P( j ), P( i ) ); Path o( "/o" ); renameAt( P( M ), o / t ); mk( j ); } break; }
	default: if ( lookup( P( i ) ) >= 0 && W.n[lookup( P( i ) )].type == T_FILE && lookup( P( j ) ) >= 0 && W.n[lookup( P( j ) )].type == T_FILE ) { res = renameAt( P( i ), P( j ) ); if ( res >= 0 ) modifyOnly( P( j ) ); } else res = -1; break;
	}
	if ( res < 0 ) sx_end(); caughtUp( "changed" ); sx_cover( "changed" ); probes();
}
// many watches
static void many( int N ) {
	Path p; static long ids[40]; static int w[40]; static bool act[40]; for ( int i = 0; i < N; i++ ) { p = Path( "/" ); mkdirAt( p / letter( i ) ); if ( i % 2 ) mkdirAt( p / mkName( "s" ) ); } start(); bool flip = sx_choose( 2, "recursive" );
	static char roots[40][4]; auto add = [&]( int i ) { roots[i][0] = '/'; roots[i][1] = 'a' + i; bool r = ( i & 1 ) != ( flip ? 1 : 0 ); ids[i] = fw->addWatch( rootArg( roots[i] ), rec[i], r ); sx_check( ids[i] > 0, "watch added" ); for ( int k = 0; k < N; k++ ) sx_check( k == i || !act[k] || ids[k] != ids[i], "ids are distinct" ); act[i] = true; w[i] = nws; specAdd( ids[i], roots[i], r, i + 1 ); if ( !native ) takeSnap( ws[w[i]], gsnap[w[i]] ); };
	auto listed = [&]() { std::vector<std::string> d = fw->directories(); int n = 0; for ( int i = 0; i < N; i++ ) if ( act[i] ) { n++; int c = 0; std::string e = rootArg( roots[i] ) + "/"; for ( auto& s : d ) if ( s == e ) c++; sx_check( c == 1, "directories() lists every watch once" ); } sx_check( (int)d.size() == n, "directories() lists the live watches only" ); };
	for ( int i = 0; i < N; i++ ) add( i ); fw->watch(); listed(); ready(); sx_check( fw->addWatch( rootArg( roots[N - 1] ), rec[0], false ) == -2, "a watched directory is refused" );
	int r[2]; for ( int k = 0; k < 2; k++ ) { r[k] = pick( N, "removed" ); if ( k && r[1] == r[0] ) sx_end(); if ( sx_choose( 2, "by path" ) ) fw->removeWatch( rootArg( roots[r[k]] ) ); else fw->removeWatch( ids[r[k]] ); act[r[k]] = false; ws[w[r[k]]].active = false; listed(); }
	caughtUp( "removed" ); probes(); add( r[sx_choose( 2, "added again" )] ); listed(); if ( !native ) W.now++; beginOp();
	Name f = mkName( "g" ); for ( int i = 0; i < N; i++ ) { p = Path( "/" ); p / letter( i ); createOnly( p / f ); } caughtUp( "again" ); sx_cover( "changed" );
	if ( native ) { int c0 = ncb; pushRaw( 0, -1, IN_Q_OVERFLOW, 0, mkName( "" ) ); settle(); for ( int i = 0; i < N; i++ ) { int c = 0; for ( int k = c0; k < ncb; k++ ) if ( cbs[k].missed && cbs[k].id == ids[i] && cbs[k].listener == i + 1 && cbs[k].dir.len == 3 && cbs[k].dir.s[1] == 'a' + i ) c++; sx_check( c == ( act[i] ? 1 : 0 ), "an overflow is announced to every watch" ); } sx_check( ncb - c0 == N - 1, "an overflow is announced to every watch" ); }
}
// a long history
static void lasting( int n ) {
	mkdirAt( "/w" ); mkdirAt( "/v" ); mkdirAt( "/w/d" ); createOnly( "/w/a" ); createOnly( "/w/d/g" ); start(); Name x = symName( "name", 1 ); sx_assume( ( x.s[0] != 'a' ) & ( x.s[0] != 'd' ) & ( x.s[0] != 'e' ) ); Path px( "/w" ); px / x; bool slow = sx_choose( 2, "events read after every third change" );
	long id = fw->addWatch( rootArg( "/w" ), rec[0], true ), last = 0; sx_check( id > 0, "watch added" ); specAdd( id, "/w", true, 1 ); specAdd( 0, "/v", false, 2 ); ws[1].active = false; fw->watch(); ready();
	for ( int k = 0; k < n; k++ ) {
		if ( !slow || k % 3 == 0 ) { ncb = 0; nilog = 0; mark_c = 0; beginOp(); }
		switch ( k % 9 ) {
		case 0: renameAt( "/w/a", px ); break; case 1: modifyOnly( px ); break; case 2: renameAt( px, "/w/d/a" ); break; case 3: renameAt( "/w/d", "/w/e" ); break; case 4: writeFile( "/w/e/g" ); break; case 5: renameAt( "/w/e/a", "/w/a" ); break; case 6: renameAt( "/w/e", "/w/d" ); break;
		case 7: { ncb = nilog = mark_c = 0; long b = fw->addWatch( rootArg( "/v" ), rec[1], false ); sx_check( b > 0 && b != id, "watch added" ); last = b; ws[1].id = b; ws[1].active = true; sx_check( fw->directories().size() == 2, "both watches are listed" ); if ( native ) { settle(); beginOp(); } else takeSnap( ws[1], gsnap[1] ); Path f( "/v" ); Name t = letter( k / 9 % 2 ); f / t; if ( lookup( f ) < 0 ) { Path o( "/v" ); o / letter( 1 - k / 9 % 2 ); if ( lookup( o ) < 0 ) createOnly( f ); else renameAt( o, f ); } break; }
		default: if ( slow ) caughtUp( "before removing" ); fw->removeWatch( last ); ws[1].active = false; sx_check( fw->directories().size() == 1, "one watch is left" ); if ( native ) { settle(); beginOp(); } break;
		}
		if ( !slow || k % 3 == 2 ) caughtUp( "long history" );
	}
	caughtUp( "end" ); sx_cover( "changed" ); ncb = 0; nilog = 0; mark_c = 0; beginOp(); probes();
}
// many watches with changes pending in all of them; a listener adds and removes watches from inside its callbacks
static struct { long id; int dir; bool act; } rw[10]; static int nrw, before, left; static bool busy; static char rroot[12][4];
static void rAdd( int d ) { bool r = d & 1; long id = fw->addWatch( rootArg( rroot[d] ), rec[nrw % 8], r ); int have = -1; for ( int i = 0; i < nrw; i++ ) if ( rw[i].act && rw[i].dir == d ) have = i; if ( have >= 0 ) { sx_check( id == -2, "a watched directory is refused" ); return; }
	sx_check( id > 0, "a directory can be added from a callback" ); for ( int i = 0; i < nrw; i++ ) sx_check( !rw[i].act || rw[i].id != id, "ids are distinct" ); rw[nrw].id = id; rw[nrw].dir = d; rw[nrw].act = true; specAdd( id, rroot[d], r, nrw % 8 + 1 ); if ( !native ) takeSnap( ws[nws - 1], gsnap[nws - 1] ); nrw++; }
static void rCheck() { std::vector<std::string> d = fw->directories(); int n = 0; for ( int i = 0; i < nrw; i++ ) if ( rw[i].act ) { n++; int c = 0; std::string e = rootArg( rroot[rw[i].dir] ) + "/"; for ( auto& s : d ) if ( s == e ) c++; sx_check( c == 1, "directories() inside a callback lists every watch once" ); } sx_check( (int)d.size() == n, "directories() inside a callback" ); }
static void reenter( const CB& c ) {
	for ( int i = 0; i < nrw; i++ ) if ( rw[i].id == c.id && !rw[i].act ) { bool other = false; for ( int k = 0; k < nrw; k++ ) if ( rw[k].act && rw[k].id == c.id ) other = true; if ( !other ) sx_fail( "a watch removed from a callback delivers nothing more" ); }
	if ( busy || left == 0 ) return; if ( before ) { before--; return; } busy = true; int N = sx_param( "n", 6 ); before = sx_choose( 2, "callbacks until the next call" ) * 2; left--;
	switch ( sx_choose( 3, "call" ) ) {
	case 0: { int i = sx_choose( nrw, "watch" ); if ( !rw[i].act ) sx_end(); if ( sx_choose( 2, "by path" ) ) fw->removeWatch( rootArg( rroot[rw[i].dir] ) ); else fw->removeWatch( (efsw::WatchID)rw[i].id ); rw[i].act = false; ws[i].gone = true; break; }
	case 1: rAdd( N ); break;
	default: { int d = sx_choose( N, "directory" ); rAdd( d ); break; } }
	rCheck(); busy = false; sx_cover( "changed" );
}
static void reentrant( int N ) {
	for ( int i = 0; i <= N; i++ ) { rroot[i][0] = '/'; rroot[i][1] = 'a' + i; Path p( rroot[i] ); mkdirAt( p ); if ( i % 2 ) mkdirAt( p / mkName( "s" ) ); } start(); busy = true; left = sx_param( "calls", 2 ); for ( int i = 0; i < N; i++ ) rAdd( i ); fw->watch(); ready(); if ( !native ) W.now++; onCallback = reenter; before = sx_choose( N - 1, "callbacks before the call" ); busy = false;
	Name f = symName( "name", 1 ); for ( int i = 0; i < N; i++ ) { Path p( rroot[i] ); createOnly( p / f ); if ( i % 2 ) { Path q( rroot[i] ); q / mkName( "s" ); createOnly( q / f ); } }
	auto upTo = [&]( const char* what ) { if ( native ) { settle(); endOp( what ); } else gPoll( what ); for ( int i = 0; i < nrw; i++ ) if ( !rw[i].act ) { ws[i].active = false; ws[i].gone = false; } if ( native ) { checkKernelWatches( what ); beginOp(); } else W.now++; };
	upTo( "changed" ); if ( left > 1 ) sx_end(); busy = true; rCheck(); probes();
}
// "/" itself is watched
static void rootWatched( int ops ) {
	Name x = symName( "name", 1 ); sx_assume( ( x.s[0] != 'a' ) & ( x.s[0] != 'b' ) & ( x.s[0] != 'f' ) ); mkdirAt( "/a" ); mkdirAt( "/a/b" ); createOnly( "/a/f" ); createOnly( "/f" ); start(); bool r = sx_choose( 2, "recursive" ), each = sx_choose( 2, "each change on its own" );
	long id = fw->addWatch( "/", rec[0], r ); sx_check( id > 0, "the root directory can be watched" ); std::vector<std::string> d = fw->directories(); sx_check( d.size() == 1 && d[0] == "/", "directories() lists the root directory" ); sx_check( fw->addWatch( "/", rec[1], !r ) == -2, "a watched directory is refused" );
	specAdd( id, "/", r, 1 ); fw->watch(); ready(); static const char* P[] = { "/", "/a", "/a/b" };
	for ( int k = 0; k < ops; k++ ) {
		Path p( P[sx_choose( 3, "directory" )] ), q( P[sx_choose( 3, "to directory" )] ); int res = 0; Name nm[3] = { x, mkName( "a" ), mkName( "f" ) }; Name a = nm[sx_choose( 3, "name" )], b = nm[sx_choose( 3, "to name" )]; Path f = p; f / a;
		switch ( sx_choose( 5, "change" ) ) {
		case 0: res = createOnly( f ); break; case 1: res = mkdirAt( f ); if ( res >= 0 ) { Path g = f; createOnly( g / mkName( "~g" ) ); } break; case 2: if ( lookup( f ) < 0 ) sx_end(); rmrf( f ); break; case 3: if ( lookup( f ) < 0 || W.n[lookup( f )].type != T_FILE ) sx_end(); writeFile( f ); break;
		default: res = renameAt( f, q / b ); break; }
		if ( res < 0 ) sx_end(); if ( each || k == ops - 1 ) caughtUp( "changed" ); sx_cover( "changed" );
	}
	probes(); if ( sx_choose( 2, "by path" ) ) fw->removeWatch( std::string( "/" ) ); else fw->removeWatch( id ); sx_check( fw->directories().empty(), "the watch is gone" ); ws[0].active = false; createOnly( "/~y" ); caughtUp( "removed" );
}
// directories watched and forgotten very often
static void churn( int n ) {
	static const char* R[] = { "/a", "/b", "/c", "/d" }; for ( auto d : R ) mkdirAt( d ); mkdirAt( "/c/s" ); start(); long a = fw->addWatch( "/a", rec[0], false ); sx_check( a > 0, "watch added" ); specAdd( a, "/a", false, 1 ); bool byPath = sx_choose( 2, "by path" ), rec2 = sx_choose( 2, "recursive" ), early = sx_choose( 2, "watch() first" );
	if ( early ) { fw->watch(); if ( native ) settle(); else polls( 1 ); } long last = 0;
	for ( int k = 0; k < n; k++ ) { const char* d = R[1 + k % 3]; long id = fw->addWatch( d, rec[1], rec2 ); sx_check( id > 0 && id != a, "a directory can be watched again" ); sx_check( fw->addWatch( d, rec[2], rec2 ) == -2, "a watched directory is refused" ); if ( k % 64 == 63 ) sx_check( fw->directories().size() == 2, "directories() lists both" ); if ( k == n - 1 ) { last = id; break; } if ( byPath ) fw->removeWatch( std::string( d ) ); else fw->removeWatch( (efsw::WatchID)id ); if ( early && native && k % 16 == 15 ) settle(); }
	specAdd( last, R[1 + ( n - 1 ) % 3], rec2, 2 ); if ( !early ) fw->watch(); ready(); if ( !native ) W.now++; sx_cover( "changed" ); probes(); sx_check( fw->directories().size() == 2, "directories() lists both" );
}
extern "C" void harness() {
	init(); int part = sx_param( "part", 0 ), n = sx_param( "n", 6 );
	if ( part == 0 ) chain( n ); else if ( part == 1 ) wide( n ); else if ( part == 2 ) many( n ); else if ( part == 4 ) reentrant( n ); else if ( part == 5 ) rootWatched( n ); else if ( part == 6 ) churn( n ); else lasting( n );
	destroyed( fw );
}
