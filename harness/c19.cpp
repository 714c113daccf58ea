// C19: the error log used by two threads at once: no data race, and every text read is one that was stored.
#include "native.h"
#include <efsw/efsw.h>
static efsw::FileWatcher* fw; static Rec* r; static bool done; static const char* P[2] = { "/x", "/y" };
static bool whole( const char* t ) { Str s; sset( s, t, strlen( t ) ); if ( s.len == 0 ) return true; for ( const char* p : P ) { bool in = false; for ( int i = 0; i + 1 < s.len; i++ ) if ( s.s[i] == p[0] && s.s[i + 1] == p[1] ) in = true; if ( in ) return s.len > 5; } return false; }
static void calls( int i, int n ) {
	for ( int k = 0; k < n; k++ ) switch ( sx_choose( 5, "call" ) ) {
		case 0: sx_check( fw->addWatch( P[i], r, false ) == -1, "a missing directory is refused" ); break;
		case 1: { std::string s = efsw::Errors::Log::getLastErrorLog(); sx_check( whole( s.c_str() ), "the text is one that was stored" ); break; }
		case 2: { int c = efsw::Errors::Log::getLastErrorCode(); sx_check( c == 0 || c == -1, "the code is one that was stored" ); break; }
		case 3: { const char* t = efsw_getlasterror(); sx_sched(); sx_check( whole( t ), "the text is one that was stored" ); sx_cover( "C text" ); break; }
		default: efsw_clearlasterror();
	}
}
static void user( void* ) { calls( 1, sx_param( "calls", 2 ) ); done = true; sx_wake( 7777 ); }
extern "C" void harness() {
	init(); sx_preempt( 0 ); r = new Rec( 1 ); fw = sx_param( "backend", 1 ) == 1 ? new efsw::FileWatcher( false ) : new efsw::FileWatcher( true, 1000 ); sx_check( fw->addWatch( P[0], r, false ) == -1, "a missing directory is refused" );
	sx_race( 1 ); sx_preempt( sx_param( "preempts", 2 ) ); sx_thread_create( user, nullptr ); calls( 0, sx_param( "calls", 2 ) ); while ( !done ) sx_block( 7777 ); sx_preempt( 0 );
	efsw_clearlasterror(); sx_check( efsw_getlasterror()[0] == 0, "cleared" ); sx_check( fw->addWatch( P[1], r, false ) == -1 && efsw::Errors::Log::getLastErrorCode() == -1 && whole( efsw_getlasterror() ), "the last failure is kept" ); sx_cover( "done" );
	destroyed( fw );
}
