// C18: life of the callbacks registered through the C API: mixes of watchers, functions and parameters, releases while other watchers live, releases racing with deliveries.
#include "native.h"
static uint64_t prm[3]; struct Call { void* w; long id; int fn; void* p; bool missed; }; static Call calls[MAXCB]; static int ncalls; static bool dead[8]; static void* wp[8]; static int nwp;
static void call( int fn, efsw_watcher w, long id, void* p, bool missed ) { bool ok = false; for ( int i = 0; i < nwp; i++ ) if ( wp[i] == w && !dead[i] ) ok = true; sx_check( ok, "callbacks name a watcher that was not released" ); if ( ncalls >= MAXCB ) sx_fail( "model: too many callbacks" ); Call& c = calls[ncalls++]; c.w = w; c.id = id; c.fn = fn; c.p = p; c.missed = missed; sx_sched(); }
static void fa0( efsw_watcher w, efsw_watchid id, const char*, const char*, enum efsw_action, const char*, void* p ) { call( 0, w, id, p, false ); }
static void fa1( efsw_watcher w, efsw_watchid id, const char*, const char*, enum efsw_action, const char*, void* p ) { call( 1, w, id, p, false ); }
static void mi0( efsw_watcher w, efsw_watchid id, const char* ) { call( 0, w, id, nullptr, true ); }
static void mi1( efsw_watcher w, efsw_watchid id, const char* ) { call( 1, w, id, nullptr, true ); }
static const char* dirs[] = { "/a", "/b", "/c", "/d", "/e", "/f", "/g", "/h", "/i", "/j", "/k", "/l", "/m", "/n", "/o", "/p", "/q", "/r", "/s", "/t", "/u", "/v", "/w", "/x", "/y", "/z" }; static int nd = 3; static bool many;
struct Reg { int w, dir; long id; int fn; void* p; int miss; bool act; }; static Reg reg[64]; static int nreg; static int slot[2] = { -1, -1 }; static bool native;
static void create( int s ) { wp[nwp] = efsw_create( native ? 0 : 1 ); efsw_watch( wp[nwp] ); slot[s] = nwp++; }
static void add( int s, int dir, uint32_t combo, bool wait = true ) {
	if ( slot[s] < 0 ) sx_end(); for ( int i = 0; i < nreg; i++ ) if ( reg[i].act && reg[i].w == slot[s] && reg[i].dir == dir ) sx_end(); Reg& r = reg[nreg++]; r.w = slot[s]; r.dir = dir; r.fn = combo & 1; r.p = (void*)( prm[combo >> 1 & 1] + ( many ? dir : 0 ) ); r.miss = (int)( combo / 4 ) - 1; r.act = true;
	if ( r.miss == -1 && ( wait ? sx_choose( 2, "plain call" ) : dir & 1 ) ) r.id = efsw_addwatch( wp[slot[s]], dirs[dir], r.fn ? fa1 : fa0, 0, r.p ); else r.id = efsw_addwatch_withoptions( wp[slot[s]], dirs[dir], r.fn ? fa1 : fa0, 0, nullptr, 0, r.p, r.miss < 0 ? nullptr : r.miss ? mi1 : mi0 );
	sx_check( r.id > 0, "added" ); if ( !wait ) return; if ( native ) { settle(); settle(); } else polls( 4 );
}
static void release( int s ) { if ( slot[s] < 0 ) sx_end(); int w = slot[s]; efsw_release( wp[w] ); dead[w] = true; slot[s] = -1; for ( int i = 0; i < nreg; i++ ) if ( reg[i].w == w ) reg[i].act = false; sx_cover( "released" ); }
static int serial;
static void probe() { if ( slot[0] < 0 && slot[1] < 0 ) return; // every active registration gets its event, nobody else any; then the same for lost events
	bool over = native && sx_choose( 2, "lose events" ); ncalls = 0; W.now++; Name n = mkName( "p0" ); n.s[1] += serial++; if ( over ) for ( int i = 0; i < MAXINST; i++ ) W.inst[i].limit = 1; for ( int d = 0; d < nd; d++ ) { createOnly( Path( dirs[d] ) / n ); if ( over ) { n.s[0] = 'q'; createOnly( Path( dirs[d] ) / n ); n.s[0] = 'p'; } }
	if ( native ) { settle(); settle(); } else polls( 4 ); for ( int i = 0; i < MAXINST; i++ ) W.inst[i].limit = MAXQ;
	int want = 0; for ( int i = 0; i < nreg; i++ ) if ( reg[i].act ) { int c = 0, m = 0; for ( int k = 0; k < ncalls; k++ ) if ( calls[k].w == wp[reg[i].w] && calls[k].id == reg[i].id ) { if ( calls[k].missed ) { m++; sx_check( calls[k].fn == reg[i].miss, "the missed-events function of that very call is used" ); } else { c++; sx_check( ( calls[k].fn == reg[i].fn ) & ( calls[k].p == reg[i].p ), "the function and parameter of that very call are used" ); } }
		if ( !over ) sx_check( c == 1 && m == 0, "every registered callback gets its event" ); else { sx_check( m == ( reg[i].miss >= 0 ? 1 : 0 ), "every registered missed-events function is called" ); if ( m ) sx_cover( "missed" ); } want += c + m; }
	sx_check( ncalls == want, "nobody else gets a callback" ); sx_cover( "probed" );
}
static void racing() { // a release while events are being delivered: no registration may be used after it was freed
	sx_preempt( 0 ); native = sx_param( "backend", 1 ) == 1; create( 0 ); add( 0, 0, 4 ); add( 0, 1, 6 ); if ( sx_choose( 2, "second watcher" ) ) { create( 1 ); add( 1, 0, 2 ); } W.quietFs = true; W.now++; createOnly( "/a/x" ); createOnly( "/b/x" ); if ( native && sx_choose( 2, "lost" ) ) for ( int i = 0; i < 2; i++ ) if ( W.inst[i].open ) pushRaw( i, -1, IN_Q_OVERFLOW, 0, mkName( "" ) );
	sx_preempt( sx_param( "preempts", 1 ) ); release( 0 ); sx_preempt( 0 ); if ( slot[1] >= 0 ) release( 1 ); else { create( 0 ); release( 0 ); }
}
extern "C" void harness() {
	init(); int wideN = sx_param( "wide", 0 ); if ( wideN ) nd = wideN; many = wideN > 10; for ( int d = 0; d < nd; d++ ) mkdirAt( dirs[d] ); prm[0] = sx_u64( "parameter" ); prm[1] = sx_u64( "other parameter" );
	if ( sx_param( "race_", 0 ) ) { racing(); return; }
	native = sx_param( "backend", 1 ) == 1; create( 0 ); add( 0, 0, 0 ); release( 0 ); nreg = 0; uint64_t base = sx_heap_live(); 
	if ( wideN ) { // many registrations of two watchers
		create( 1 ); create( 0 ); uint32_t first = sx_choose( 3, "first combination" ); for ( int d = 0; d < wideN; d++ ) for ( int s = 0; s < 2; s++ ) add( s, d, ( first + d * 5 + s ) % 12, false );
		probe(); { uint32_t i = many ? sx_choose( 3, "registration" ) * ( nreg / 2 - 1 ) : sx_choose( nreg, "registration" ); if ( !reg[i].act ) sx_end(); efsw_removewatch_byid( wp[reg[i].w], reg[i].id ); reg[i].act = false; sx_cover( "watch removed" ); }
		uint32_t gone = sx_choose( 3, "released" ); if ( gone < 2 ) release( gone ); probe(); for ( int s = 0; s < 2; s++ ) if ( slot[s] >= 0 ) release( s ); sx_check( sx_heap_live() <= base, "a released watcher leaves no registration behind" ); return;
	}
	int steps = sx_param( "steps", 4 ); create( 0 ); add( 0, 0, sx_choose( 12, "function, parameter and missed function" ) );
	for ( int k = 0; k < steps; k++ ) {
		uint32_t op = sx_choose( 4, "call" );
		if ( op == 0 ) { uint32_t s = sx_choose( 2, "watcher" ); if ( slot[s] >= 0 ) sx_end(); create( s ); sx_cover( nwp > 2 ? "created again" : "created" ); }
		else if ( op == 1 ) { static const uint32_t pick[5] = { 0, 1, 2, 4, 9 }; uint32_t s = sx_choose( 2, "watcher" ), d = sx_choose( 2, "directory" ); add( s, d, pick[sx_choose( 5, "function, parameter and missed function" )] ); }
		else if ( op == 2 ) release( sx_choose( 2, "watcher" ) );
		else { uint32_t i = sx_choose( nreg, "registration" ); if ( !reg[i].act ) sx_end(); efsw_removewatch_byid( wp[reg[i].w], reg[i].id ); reg[i].act = false; sx_cover( "watch removed" ); }
	}
	probe(); for ( int s = 0; s < 2; s++ ) if ( slot[s] >= 0 ) release( s ); sx_check( sx_heap_live() <= base, "a released watcher leaves no registration behind" );
}
