// C02: renames inside one directory, between two watched directories, into and out of the watched trees; symbolic names, kinds, replaced targets, batching.
#include "native.h"
static Name nm[3]; static const char* dirs[3] = { "/w", "/v", "/o" };
extern "C" void harness() {
	init(); bool sub = sx_param( "sub", 0 ); if ( sub ) dirs[1] = "/w/s"; mkdirAt( "/w" ); mkdirAt( dirs[1] ); mkdirAt( "/o" ); Rec r1( 1 ), r2( 2 ); int steps = sx_param( "steps", 2 ); bool rec = sub || sx_choose( 2, "recursive" ), settled = sx_param( "settled", 1 );
	nm[0] = symName( "name0" ); nm[1] = symName( "name1" ); distinct( nm[0], nm[1] ); nm[2] = mkName( "~n" ); if ( sub && nm[0].len == 1 ) sx_assume( ( nm[0].s[0] != 's' ) & ( nm[1].s[0] != 's' ) );
	static const char* shapes[5] = { "f-----", "ff-f-f", "d-----", "d-f--d", "dd--d-" }; const char* sh = shapes[sx_choose( 5, "initial entries" )];
	for ( int d = 0; d < 3; d++ ) for ( int i = 0; i < 2; i++ ) { char k = sh[d * 2 + i]; Path p = Path( dirs[d] ) / nm[i]; if ( k == 'f' ) createOnly( p ); else if ( k == 'd' ) mkdirAt( p ); }
	W.splitReads = !settled; if ( uint32_t c = sx_param( "cookie0", 0 ) ) W.cookie = c; W.symCookies = sx_param( "cookiesym", 0 );
	efsw::FileWatcher* fw = new efsw::FileWatcher( false ); fw->watch();
	long a = fw->addWatch( rootArg( "/w" ), &r1, rec ); sx_check( a > 0, "watch added" ); specAdd( a, "/w", rec, 1 );
	if ( !sub ) { long b = fw->addWatch( rootArg( "/v/" ), &r2, rec ); sx_check( b > 0 && a != b, "watches added" ); specAdd( b, "/v", rec, 2 ); }
	settle(); sx_check( ncb == 0, "nothing reported before anything happened" );
	beginOp(); bool moved = false;
	for ( int k = 0; k < steps; k++ ) {
		if ( settled ) beginOp();
		uint32_t op = sx_choose( 4, "change" ), d = sx_choose( 3, "from dir" ), i = sx_choose( 2, "from name" ); Path p = Path( dirs[d] ) / nm[i]; int res = 0;
		if ( op == 0 ) { uint32_t d2 = sx_choose( 3, "to dir" ), j = sx_choose( sx_param( "names", 2 ), "to name" ); if ( d == d2 && i == j ) sx_end(); if ( d == 2 && d2 == 2 ) sx_end(); res = renameAt( p, Path( dirs[d2] ) / nm[j] ); moved = true; }
		else if ( d == 2 ) sx_end();
		else if ( op == 1 ) res = createOnly( p ); else if ( op == 2 ) res = unlinkAt( p ); else { Name pr = mkName( "~x" ); res = createOnly( Path( dirs[d] ) / pr ); }
		if ( res < 0 ) sx_end();
		if ( settled ) { settle(); endOp( "step" ); if ( moved ) sx_cover( "settled move" ); }
	}
	if ( !settled ) { settle(); endOp( "batch" ); if ( moved ) sx_cover( "batched move" ); }
	if ( rec ) checkKernelWatches( "end" );
	destroyed( fw );
}
