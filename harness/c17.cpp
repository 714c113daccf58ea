// C17: a watcher used through the C API and a C++ FileWatcher, with the same calls, in the same world: same ids, errors, switches and callbacks.
#include "native.h"
static efsw_watcher cw; static efsw::FileWatcher* fw; static char prm[4]; static CB ca[MAXCB]; static int nca; static int fnOf[MAXCB]; static void* prmOf[MAXCB];
struct Reg { long id; int fn; void* prm; int miss; bool act; }; static Reg reg[6]; static int nreg;
static void log( int fn, efsw_watcher w, efsw_watchid id, const char* dir, const char* file, int action, const char* old, void* p, bool missed ) {
	if ( silenced ) sx_fail( "C callback delivered after the watcher was released" ); sx_check( w == cw, "the callback gets the watcher it was added to" ); if ( nca >= MAXCB ) sx_fail( "model: too many callbacks" );
	CB& c = ca[nca]; memset( &c, 0, sizeof c ); c.id = id; c.action = action; sset( c.dir, dir, strlen( dir ) ); sset( c.file, file, strlen( file ) ); sset( c.old, old, strlen( old ) ); c.missed = missed; fnOf[nca] = fn; prmOf[nca] = p; nca++;
}
static void fa0( efsw_watcher w, efsw_watchid id, const char* d, const char* f, enum efsw_action a, const char* o, void* p ) { log( 0, w, id, d, f, a, o, p, false ); }
static void fa1( efsw_watcher w, efsw_watchid id, const char* d, const char* f, enum efsw_action a, const char* o, void* p ) { log( 1, w, id, d, f, a, o, p, false ); }
static void mi0( efsw_watcher w, efsw_watchid id, const char* d ) { log( 0, w, id, d, "", 0, "", nullptr, true ); }
static void mi1( efsw_watcher w, efsw_watchid id, const char* d ) { log( 1, w, id, d, "", 0, "", nullptr, true ); }
static bool sameName( const Str& a, const Str& b ) { return seq( a, b ); }
static void compare( const char* what, bool native ) {
	int j = 0; // C++ callbacks in order; those announcing losses are matched only where the C watch has a function for them
	for ( int i = 0; i < ncb; i++ ) { Reg* r = nullptr; for ( int k = 0; k < nreg; k++ ) if ( reg[k].act && reg[k].id == cbs[i].id ) r = &reg[k]; if ( !r ) { dumpCbs( 0 ); sx_fail( "model: callback of an unknown watch" ); }
		if ( cbs[i].missed && r->miss < 0 ) { sx_cover( "missed callback is NULL" ); continue; }
		if ( j >= nca ) { sx_note( what ); dumpCbs( 0 ); sx_fail( "the C API delivers the same callbacks" ); } CB& c = ca[j];
		sx_check( c.missed == cbs[i].missed && c.id == cbs[i].id && c.action == ( cbs[i].missed ? 0 : cbs[i].action ), "C callbacks have the same id and action" ); sx_check( sameName( c.dir, cbs[i].dir ), "C callbacks have the same directory" );
		if ( cbs[i].missed ) { sx_check( fnOf[j] == r->miss, "the missed-events function given for the watch is called" ); sx_cover( "missed" ); }
		else { sx_check( sameName( c.file, cbs[i].file ) & sameName( c.old, cbs[i].old ), "C callbacks have the same file names" ); sx_check( fnOf[j] == r->fn && prmOf[j] == r->prm, "the function and parameter given for the watch are used" ); sx_cover( "callback" ); if ( c.old.len ) sx_cover( "moved" ); }
		j++; }
	sx_check( j == nca, "the C API delivers no other callbacks" ); ncb = nca = 0;
}
static void errs() { Str a, b; const char* t = efsw_getlasterror(); sset( a, t, strlen( t ) ); sset( b, efsw::Errors::Log::getLastErrorLog() ); sx_check( seq( a, b ), "efsw_getlasterror is the last error text" ); }
extern "C" void harness() {
	init(); Name nm = symName( "name", sx_param( "len", 2 ) ); Rec r( 1 ); const char* dirs[] = { "/a", "/b/", "/b", "/l", "/missing", "/f" }; mkdirAt( "/a" ); mkdirAt( "/a/s" ); mkdirAt( "/b" ); mkdirAt( "/b/s" ); mkdirAt( "/o" ); mkdirAt( "/o/d" ); createOnly( "/o/d/x" ); mkdirAt( "/o/e" ); createOnly( "/f" ); symlinkAt( "/o/e", "/b/k" ); symlinkAt( "/o/e", "/l" );
	int g = (int)sx_u32( "generic_mode" ); bool native = g == 0; sx_cover( native ? "native" : "generic" ); cw = efsw_create( g ); fw = new efsw::FileWatcher( !native ); sx_check( cw != nullptr, "created" );
	sx_check( efsw_follow_symlinks_isenabled( cw ) == 0 && efsw_outofscopelinks_isallowed( cw ) == 0, "both link switches are off by default" );
	bool links = sx_param( "links", 1 ), opts = sx_param( "opts", 1 ), fns = sx_param( "fns", 1 ); int f = 0, o = 0; if ( links ) { f = (int)sx_u32( "enable" ); o = (int)sx_u32( "allow" ); } efsw_follow_symlinks( cw, f ); efsw_allow_outofscopelinks( cw, o ); sx_check( ( efsw_follow_symlinks_isenabled( cw ) != 0 ) == ( f != 0 ), "efsw_follow_symlinks sets the switch" ); sx_check( ( efsw_outofscopelinks_isallowed( cw ) != 0 ) == ( o != 0 ), "efsw_allow_outofscopelinks sets the switch" );
	fw->followSymlinks( f != 0 ); fw->allowOutOfScopeLinks( o != 0 ); bool early = fns || sx_choose( 2, "started before" ); if ( early ) { efsw_watch( cw ); fw->watch(); }
	int adds = sx_param( "adds", 2 );
	for ( int k = 0; k < adds; k++ ) {
		uint32_t d = fns ? k : k ? 1 + sx_choose( links ? 5 : 3, "directory" ) : sx_choose( links ? 6 : 2, "directory" ); int rec = fns && k ? 1 : (int)sx_u32( "recursive" ); uint32_t fn = fns ? sx_choose( 2, "function" ) : 0, nopt = opts ? sx_choose( 4, "options" ) : fns ? sx_choose( 2, "options" ) : 0; int miss = -1; void* p = k ? ( !fns || sx_choose( 2, "parameter" ) ? &prm[k] : nullptr ) : &prm[0]; long id; efsw_pfn_fileaction_callback fp = fn ? fa1 : fa0;
		efsw::Errors::Log::clearLastError(); Str err; std::vector<efsw::WatcherOption> cpp;
		if ( nopt == 0 ) id = efsw_addwatch( cw, dirs[d], fp, rec, p );
		else { miss = (int)sx_choose( 3, "missed function" ) - 1; efsw_watcher_option opt[2]; for ( uint32_t i = 0; i + 1 < nopt; i++ ) { opt[i].option = (enum efsw_option)sx_range( 1, 7, "option" ); opt[i].value = (int)sx_u32( "value" ); cpp.push_back( efsw::WatcherOption( (efsw::Option)opt[i].option, opt[i].value ) ); }
			id = efsw_addwatch_withoptions( cw, dirs[d], fp, rec, nopt == 1 && sx_choose( 2, "no array" ) ? nullptr : opt, nopt - 1, p, miss < 0 ? nullptr : miss ? mi1 : mi0 ); }
		const char* t = efsw_getlasterror(); sset( err, t, strlen( t ) ); int code = efsw::Errors::Log::getLastErrorCode(); efsw_clearlasterror(); errs();
		long id2 = fw->addWatch( dirs[d], &r, rec != 0, cpp ); sx_check( id == id2, "efsw_addwatch returns what addWatch returns" ); Str e2; sset( e2, efsw::Errors::Log::getLastErrorLog() ); sx_check( code == efsw::Errors::Log::getLastErrorCode() && seq( err, e2 ), "efsw_addwatch leaves the same error" ); errs();
		if ( id > 0 ) { Reg& x = reg[nreg++]; x.id = id; x.fn = fn; x.prm = p; x.miss = miss; x.act = true; sx_cover( "added" ); } else sx_cover( "rejected" );
	}
	if ( !early ) { efsw_watch( cw ); fw->watch(); }
	auto catchUp = [&]() { W.now++; if ( native ) { settle(); settle(); } else polls( 4 ); }; catchUp(); compare( "start", native );
	int steps = sx_param( "steps", 1 );
	for ( int k = 0; k < steps; k++ ) {
		if ( native && fns && sx_choose( 2, "short queue" ) ) { W.inst[0].limit = W.inst[1].limit = 2; }
		uint32_t op = opts ? 1 : links ? 2 : sx_choose( 4, "change" ); Path q( "/b" ); Path to = q; to / nm; int res;
		if ( op == 0 ) res = mkfile( to ); else if ( op == 1 ) res = renameAt( "/o/d", to ); else if ( op == 2 ) { res = renameAt( "/b/s", to ); createOnly( "/o/e/y" ); } else { createOnly( "/a/s/z" ); res = createOnly( "/b/s/z" ); }
		if ( res < 0 ) sx_end(); if ( op < 3 ) createOnly( "/a/z" ); if ( native && W.inst[0].limit == 2 ) { settle(); W.inst[0].limit = W.inst[1].limit = MAXQ; } catchUp(); compare( "change", native ); if ( op == 1 ) { createOnly( to / mkName( "w" ) ); catchUp(); compare( "in the new directory", native ); }
	}
	uint32_t rm = sx_param( "rm", 0 ) ? sx_choose( 3, "remove" ) : 0; if ( rm == 1 && nreg ) { long id = reg[0].id; efsw_removewatch_byid( cw, id ); fw->removeWatch( (efsw::WatchID)id ); reg[0].act = false; sx_cover( "removed by id" ); }
	else if ( rm == 2 ) { uint32_t d = sx_choose( 3, "path" ); efsw_removewatch( cw, dirs[d] ); fw->removeWatch( std::string( dirs[d] ) ); sx_cover( "removed by path" ); for ( int i = 0; i < nreg; i++ ) { bool left = false; std::vector<std::string> v = fw->directories(); if ( v.size() == 0 ) reg[i].act = false; } }
	if ( rm ) { std::vector<std::string> x = ( (efsw::FileWatcher*)cw )->directories(), y = fw->directories(); sx_check( x.size() == y.size(), "the same watches are left" ); for ( size_t i = 0; i < x.size(); i++ ) { Str a, b; sset( a, x[i] ); sset( b, y[i] ); sx_check( seq( a, b ), "the same watches are left" ); }
		createOnly( "/a/v" ); createOnly( "/b/v" ); catchUp(); compare( "after removing", native ); }
	efsw_release( cw ); silenced = true; delete fw; sx_check( W.threadsStarted == W.threadsJoined, "both threads have ended" );
}
