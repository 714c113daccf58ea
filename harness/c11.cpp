// C11: arbitrary well-formed inotify event streams: symbolic descriptors, 32-bit masks, cookies and names, split over reads in any way.
#include "native.h"
extern "C" void harness() {
	init(); int n = sx_param( "events", 2 ), kinds = sx_param( "kinds", 5 ); Rec r1( 1 ), r2( 2 ), r3( 3 ); Name s = symName( "subdirectory", 1 ); mkdirAt( "/w" ); mkdirAt( "/v" ); mkdirAt( "/x" );
	Path sub( "/w" ); sub / s; mkdirAt( sub ); Name t = mkName( "~t" ); Path deep = sub; mkdirAt( deep / t ); { Path p( "/v" ); mkdirAt( p / s ); }
	efsw::FileWatcher* fw = new efsw::FileWatcher( false ); long x = fw->addWatch( "/x", &r3, false ), a = fw->addWatch( "/w", &r1, true ), b = fw->addWatch( "/v", &r2, sx_param( "vrec", 0 ) ); sx_check( x > 0 && a > 0 && b > 0, "watches added" );
	fw->removeWatch( x ); fw->watch(); settle(); sx_check( ncb == 0, "nothing reported before anything happened" );
	int wdOf[6]; int nk = 0; auto wdAt = [&]( const char* p ) { int d = lookup( p ); for ( int i = 0; i < W.inst[0].nw; i++ ) if ( W.inst[0].w[i].node == d ) return W.inst[0].w[i].wd; return -7; };
	wdOf[0] = wdAt( "/w" ); wdOf[1] = wdAt( "/v" ); wdOf[2] = wdAt( sub ); wdOf[3] = (int)x; nk = 5; if ( kinds < nk ) nk = kinds; W.splitReads = sx_param( "split", 1 ); bool hitA = false, hitB = false; int overflows = 0;
	sx_check( wdOf[0] > 0 && wdOf[1] > 0 && wdOf[2] > 0, "every directory has a kernel watch" );
	for ( int k = 0; k < n; k++ ) {
		uint32_t mask = sx_u32( "mask" ); uint32_t cookie = sx_u16( "cookie" ); uint32_t which = sx_choose( nk, "descriptor" ); int wd; Name nm; memset( &nm, 0, sizeof nm ); const uint32_t entry = IN_CREATE | IN_DELETE | IN_MODIFY | IN_CLOSE_WRITE | IN_MOVED_FROM | IN_MOVED_TO;
		if ( which < 4 ) wd = wdOf[which]; else { uint16_t u = sx_u16( "unknown descriptor" ); for ( int i = 0; i < W.inst[0].nw; i++ ) sx_assume( u != W.inst[0].w[i].wd ); wd = u == 0xffff ? -1 : u; }
		if ( sx_choose( 2, "queue overflow" ) ) { sx_assume( mask & IN_Q_OVERFLOW ); wd = -1; if ( which ) sx_end(); overflows++; mask &= ~entry; }
		else { sx_assume( !( mask & IN_Q_OVERFLOW ) ); if ( sx_choose( 2, "about an entry" ) ) { sx_assume( mask & entry ); nm = symName( "name", sx_param( "len", 1 ) ); } else sx_assume( !( mask & entry ) ); }
		const uint32_t self = IN_IGNORED | IN_DELETE_SELF | IN_MOVE_SELF | IN_UNMOUNT; if ( which == 0 && ( mask & self ) ) hitA = true; if ( which == 1 && ( mask & self ) ) hitB = true; 
		pushRaw( 0, wd, mask, cookie, nm );
	}
	settle(); sx_cover( "stream processed" );
	int seen[3] = { 0, 0, 0 };
	for ( int i = 0; i < ncb; i++ ) { CB& c = cbs[i]; bool okA = c.listener == 1 && c.id == a && c.dir.len >= 3 && memcmp( c.dir.s, "/w/", 3 ) == 0; bool okB = c.listener == 2 && c.id == b && c.dir.len >= 3 && memcmp( c.dir.s, "/v/", 3 ) == 0; if ( !okA && !okB ) dumpCbs(); sx_check( okA || okB, "callbacks go to active watches only, with their id and a directory of theirs" ); if ( c.missed ) seen[c.listener]++; else { sx_check( c.action >= 1 && c.action <= 4, "the action is a documented one" ); sx_cover( "callback" ); } }
	if ( !hitA ) sx_check( seen[1] == overflows, "each overflow is announced" ); if ( !hitB ) sx_check( seen[2] == overflows, "each overflow is announced" );
	W.splitReads = false; int c0 = ncb; Name p = mkName( "~p" ); { Path q( "/w" ); createOnly( q / p ); } { Path q( "/v" ); createOnly( q / p ); } settle();
	int ga = 0, gb = 0; for ( int i = c0; i < ncb; i++ ) { if ( isCb( i, a, "/w/", p, efsw::Actions::Add, mkName( "" ) ) ) ga++; if ( isCb( i, b, "/v/", p, efsw::Actions::Add, mkName( "" ) ) ) gb++; }
	sx_check( hitA || ga == 1, "later events are still delivered" ); sx_check( hitB || gb == 1, "later events are still delivered" ); sx_cover( "delivered afterwards" );
	destroyed( fw );
}
