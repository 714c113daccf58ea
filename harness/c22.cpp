// C22: watch options: symbolic option numbers and values on two watches; directories enter the trees in every way.
#include "native.h"
static Name nm[2];
static void fill( const Path& d ) { // file, directory with a file and a directory, links to a file and to a directory, a pipe
	Path p = d; createOnly( p / mkName( "f" ) ); p = d; mkdirAt( p / mkName( "s" ) ); Path q = p; createOnly( q / mkName( "g" ) ); q = p; mkdirAt( q / mkName( "t" ) ); createOnly( q / nm[0] ); p = d; symlinkAt( "/file", p / mkName( "l" ) ); p = d; symlinkAt( "/target", p / mkName( "m" ) );
}
extern "C" void harness() {
	init(); Rec r1( 1 ), r2( 2 ); int steps = sx_param( "steps", 2 ); nm[0] = symName( "name0", 1 ); nm[1] = symName( "name1", sx_param( "len", 2 ) ); distinct( nm[0], nm[1] ); Name d = mkName( "d" ); sx_assume( nm[0].s[0] != 'd' ); if ( nm[1].len == 1 ) sx_assume( nm[1].s[0] != 'd' );
	mkdirAt( "/w" ); mkdirAt( "/v" ); mkdirAt( "/o" ); mkdirAt( "/target" ); createOnly( "/file" ); createOnly( "/target/x" ); fill( Path( "/o" ) / d ); Path od( "/o/d" ); mkdirAt( od ); fill( od ); { Path p( "/w" ); mkdirAt( p / d ); fill( p ); } { Path p( "/v" ); mkdirAt( p / d ); createOnly( p / nm[0] ); }
	W.reverseDirs = sx_param( "reverse", 0 ); efsw::FileWatcher* fw = new efsw::FileWatcher( false ); bool early = sx_choose( 2, "started before" ); if ( early ) fw->watch();
	bool sy[2]; bool rec[2] = { true, sx_choose( 2, "recursive" ) != 0 }; long id[2]; const char* root[2] = { "/w", "/v" };
	for ( int i = 0; i < 2; i++ ) {
		std::vector<efsw::WatcherOption> o; sy[i] = false; uint32_t n = sx_choose( i ? 2 : 3, "options" ); if ( i && !rec[1] && n == 0 ) n = 1;
		for ( uint32_t k = 0; k < n; k++ ) { uint32_t opt = 1 + sx_range( 0, 6, "option" ); int val = (int)sx_u32( "value" ); bool is = opt == efsw::Options::LinuxProduceSyntheticEvents; if ( k ) sx_assume( !is || !sy[i] ); o.push_back( efsw::WatcherOption( (efsw::Option)opt, val ) ); if ( k ) { if ( is && o[0].mOption == o[1].mOption ) sx_end(); } if ( is && val != 0 ) sy[i] = true; }
		id[i] = fw->addWatch( rootArg( root[i] ), i ? &r2 : &r1, rec[i], o ); sx_check( id[i] > 0, "watch added" ); specAdd( id[i], root[i], rec[i], i + 1, sy[i] && rec[i] );
	}
	if ( !early ) fw->watch(); settle(); sx_check( ncb == 0, "what was there at the start is not reported" ); strictSynth = true;
	for ( int k = 0; k < steps; k++ ) {
		beginOp(); uint32_t where = sx_choose( 3, "where" ), op = sx_choose( 4, "change" ); Path p( where == 0 ? "/w" : where == 1 ? "/v" : "/w/d" ); int res; Path q = p; p / nm[k & 1];
		if ( op == 0 ) { res = mkdirAt( p ); if ( res >= 0 && sx_choose( 2, "filled before it is seen" ) ) fill( p ); }
		else if ( op == 1 ) res = renameAt( od, p );
		else if ( op == 2 ) { Path f = q / d; res = sx_choose( 2, "move within" ) ? renameAt( f, p ) : renameAt( f, "/o/e" ); }
		else { Path f = q / d; res = createOnly( f / nm[k & 1] ); }
		if ( res < 0 ) sx_end();
		settle(); endOp( "step" ); checkKernelWatches( "step" ); sx_cover( "step" ); if ( sy[0] ) sx_cover( "synthetic events on the first watch" ); if ( sy[1] && !rec[1] ) sx_cover( "option on a non-recursive watch" ); if ( sy[1] && rec[1] && !sy[0] ) sx_cover( "synthetic events on the second watch only" );
	}
	destroyed( fw );
}
