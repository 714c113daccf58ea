// C05: one polled directory; symbolic names, symbolic sequence of changes, symbolic clock ticks and polling moments.
#include "generic.h"
static Name nm[2];
static void change( Node& n ) { // one attribute gets any other value
	uint32_t f = sx_choose( 7, "attribute" );
	if ( f == 0 || f == 6 ) { uint64_t v = f ? n.mtime + 1 : sx_u64( "modification time" ); sx_assume( v != n.mtime ); n.mtime = v; }
	else if ( f == 1 ) { uint64_t v = sx_u64( "size" ); sx_assume( v != n.size ); n.size = v; }
	else if ( f == 2 ) { uint32_t v = sx_u32( "owner" ); sx_assume( v != n.uid ); n.uid = v; }
	else if ( f == 3 ) { uint32_t v = sx_u32( "group" ); sx_assume( v != n.gid ); n.gid = v; }
	else if ( f == 4 ) { uint32_t v = sx_u16( "permissions" ); sx_assume( ( ( v & 0500 ) == 0500 ) & ( v < 010000 ) & ( v != n.mode ) ); n.mode = v; }
	else { uint64_t v = sx_u64( "inode" ); for ( int i = 0; i < W.nn; i++ ) sx_assume( v != W.n[i].ino ); n.ino = v; } // replaced by another one
}
extern "C" void harness() {
	init(); mkdirAt( "/w" ); mkdirAt( "/o" ); Rec r( 1 ); int steps = sx_param( "steps", 3 ); bool rec = sx_param( "rec", 0 ) ? sx_choose( 2, "recursive" ) : false;
	if ( sx_param( "sym", 1 ) ) { nm[0] = symName( "name0", sx_param( "len", 1 ) ); nm[1] = symName( "name1", sx_param( "len", 1 ) ); distinct( nm[0], nm[1] ); } else { nm[0] = mkName( "a" ); nm[1] = mkName( "ab" ); }
	static const char* shapes[4] = { "--", "f-", "ff", "df" }; const char* sh = shapes[sx_choose( 4, "initial entries" )];
	for ( int i = 0; i < 2; i++ ) { Path p = Path( "/w" ) / nm[i]; if ( sh[i] == 'f' ) createOnly( p ); else if ( sh[i] == 'd' ) mkdirAt( p ); }
	uint64_t freed = 0; W.reverseDirs = sx_param( "reverse", 0 );
	efsw::FileWatcher* fw = new efsw::FileWatcher( true, 1000 ); long id = fw->addWatch( rootArg( sx_choose( 2, "trailing slash" ) ? "/w/" : "/w" ), &r, rec ); sx_check( id > 0, "watch added" );
	specAdd( id, "/w", rec, 1 ); gStart(); fw->watch(); polls( 1 ); sx_check( ncb == 0, "nothing reported before anything happened" );
	for ( int k = 0; k < steps; k++ ) {
		if ( sx_param( "tick", 0 ) || sx_choose( 2, "a second passes" ) ) W.now++;
		uint32_t op = sx_choose( 12, "change" ), i = sx_choose( 2, "which name" ); Path p = Path( "/w" ) / nm[i], q = Path( "/w" ) / nm[1 - i], o = Path( "/o" ) / nm[i]; int res = 0, node = lookup( p, false ); uint64_t ino = node >= 0 ? W.n[node].ino : 0;
		switch ( op ) {
		case 0: res = createOnly( p ); if ( res >= 0 && freed && sx_choose( 2, "inode reused" ) ) { W.n[res].ino = freed; freed = 0; } break;
		case 1: res = mkdirAt( p ); if ( res >= 0 && freed && sx_choose( 2, "inode reused" ) ) { W.n[res].ino = freed; freed = 0; } break;
		case 2: if ( node >= 0 ) { rmrf( p ); if ( W.n[node].nlink == 0 ) freed = ino; } else res = -1; break;
		case 3: res = renameAt( p, q ); break;
		case 4: res = renameAt( p, o ); break;
		case 5: res = renameAt( o, p ); break;
		case 6: res = linkAt( p, q ); break;
		case 7: if ( node < 0 ) { res = -1; break; } change( W.n[node] ); break;
		case 8: res = createOnly( o ); break;
		case 9: res = symlinkAt( "/o", p ); break;
		case 10: res = symlinkAt( "/nowhere", p ); break;
		default: res = modifyOnly( p ); break;
		}
		if ( res < 0 ) sx_end();
		if ( k == steps - 1 || sx_choose( 2, "poll now" ) ) { gPoll( "poll" ); sx_cover( "polled" ); if ( ncb ) sx_cover( "difference" ); }
	}
	gPoll( "idle poll" );
	destroyed( fw );
}
