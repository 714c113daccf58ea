// C07 (results of addWatch), C08 (ids and directories()) and C19 (error log): symbolic sequence of addWatch calls over a population with every kind of path.
#include "addspec.h"
#include <efsw/efsw.h>
ASpec as; AWatch aw[8]; int naw;
static bool has( const std::string& h, const char* n ) { size_t l = strlen( n ); for ( size_t i = 0; i + l <= h.size(); i++ ) if ( memcmp( h.data() + i, n, l ) == 0 ) return true; return false; }
static void checkDirs( efsw::FileWatcher* fw ) {
	std::vector<std::string> d = fw->directories(); int act = 0; for ( int i = 0; i < naw; i++ ) if ( aw[i].active ) act++;
	sx_check( (int)d.size() == act, "directories() has one entry per active watch" );
	for ( int i = 0; i < naw; i++ ) if ( aw[i].active ) { int c = 0; for ( size_t k = 0; k < d.size(); k++ ) { Str s; sset( s, d[k] ); if ( seq( s, aw[i].dir ) ) c++; } sx_check( c == 1, "directories() lists each active watch once, with a trailing slash" ); }
}
extern "C" void harness() {
	init(); addTree(); Rec r( 1 ); int calls = sx_param( "calls", 2 ); bool errs = sx_param( "errors", 0 );
	as.native = sx_choose( 2, "native backend" ); if ( sx_param( "root", 0 ) ) W.uid = W.euid = 0;
	efsw::FileWatcher* fw = as.native ? new efsw::FileWatcher( false ) : new efsw::FileWatcher( true, 1000 );
	sx_check( !fw->followSymlinks() && !fw->allowOutOfScopeLinks(), "both link switches are off by default" );
	as.follow = sx_choose( 2, "followSymlinks" ); as.oos = sx_choose( 2, "allowOutOfScopeLinks" ); fw->followSymlinks( as.follow ); fw->allowOutOfScopeLinks( as.oos );
	sx_check( fw->followSymlinks() == as.follow && fw->allowOutOfScopeLinks() == as.oos, "the link switches read back what was set" );
	if ( sx_choose( 2, "started before" ) ) fw->watch();
	if ( errs ) { // every code has its own text, naming what is concerned
		Name what = symName( "log", 1 ); std::string log( what.s, what.len ), t[6]; static const efsw::Error E[6] = { efsw::Errors::FileNotFound, efsw::Errors::FileRepeated, efsw::Errors::FileOutOfScope, efsw::Errors::FileNotReadable, efsw::Errors::FileRemote, efsw::Errors::WatcherFailed };
		for ( int i = 0; i < 6; i++ ) { sx_check( efsw::Errors::Log::createLastError( E[i], log ) == E[i] && efsw::Errors::Log::getLastErrorCode() == E[i], "the error code is the one that was set" ); t[i] = efsw::Errors::Log::getLastErrorLog(); sx_check( t[i].size() > log.size(), "the text describes the failure" ); for ( int k = 0; k < i; k++ ) sx_check( t[k].size() != t[i].size() || memcmp( t[k].data(), t[i].data(), t[i].size() ) != 0, "different failures have different texts" ); }
		sx_check( efsw::Errors::Log::createLastError( efsw::Errors::Unspecified, log ) == efsw::Errors::Unspecified && efsw::Errors::Log::getLastErrorCode() == efsw::Errors::Unspecified, "the error code is the one that was set" ); std::string u = efsw::Errors::Log::getLastErrorLog(); sx_check( u.size() >= log.size(), "the text describes the failure" );
	}
	int lastErr = 0; std::string lastText; efsw::Errors::Log::clearLastError();
	for ( int k = 0; k < calls; k++ ) {
		uint32_t which = sx_choose( NADDPATHS, "path" ); Path arg = addPaths[which]; bool slash = arg.len && which != 16 && sx_choose( 2, "trailing slash" ); if ( slash ) { arg.s[arg.len++] = '/'; arg.s[arg.len] = 0; }
		bool rec = which != 16 && sx_choose( 2, "recursive" ); Path target; int want = expectAdd( arg, target ); int kw = watchCount();
		if ( want == 0 && as.native ) for ( int i = 0; i < naw; i++ ) if ( aw[i].active ) { Path t = target; t.s[t.len++] = '/'; int m = t.len < aw[i].dir.len ? t.len : aw[i].dir.len; if ( memcmp( t.s, aw[i].dir.s, m ) == 0 ) sx_end(); } // overlapping trees are outside the bounds
		bool full = false; if ( errs && want == 0 && as.native && sx_choose( 2, "out of kernel watches" ) ) { full = true; W.faultsLeft = 1; W.faultMask = F_ADDWATCH; }
		long id = fw->addWatch( std::string( arg.s, arg.len ), &r, rec );
		if ( full ) { want = id; W.faultsLeft = 0; if ( !W.faultsDone ) sx_end(); W.faultsDone = 0; if ( id > 0 ) sx_end(); /* a subdirectory's watch failed */ }
		if ( want == 0 ) {
			sx_check( id > 0, "a watchable directory is accepted with a positive id" ); for ( int i = 0; i < naw; i++ ) sx_check( !aw[i].active || aw[i].id != id, "ids are distinct" );
			AWatch& a = aw[naw++]; Path t = target; if ( t.len != 1 ) { t.s[t.len++] = '/'; t.s[t.len] = 0; } sset( a.dir, t.s, t.len ); a.id = id; a.rec = rec; a.active = true; specAdd( id, strdup( target.s ), rec, 1 ); sx_cover( "accepted" );
			if ( as.native ) sx_check( watchesOn( lookup( target ) ) == 1, "an accepted directory has its kernel watch" );
			sx_check( efsw::Errors::Log::getLastErrorCode() == lastErr || rec, "success leaves the last error alone" );
			if ( errs && !rec ) sx_check( efsw::Errors::Log::getLastErrorLog() == lastText, "success leaves the last error text alone" );
		} else {
			sx_check( id == want, "addWatch rejects with the documented code" ); if ( as.native && !full ) sx_check( watchCount() == kw, "a rejected directory gets no kernel watch" ); sx_cover( "rejected" );
			if ( errs ) {
				sx_check( efsw::Errors::Log::getLastErrorCode() == id, "getLastErrorCode is the code that was returned" ); std::string t = efsw::Errors::Log::getLastErrorLog();
				sx_check( !t.empty() || which == 11, "getLastErrorLog is not empty" ); Path a = arg; if ( a.len > 1 && a.s[a.len - 1] == '/' ) a.s[--a.len] = 0; sx_check( full || has( t, a.s ), "getLastErrorLog names the path" ); if ( full ) { char e[16]; errorText( e, W.injectedErrno ); sx_check( has( t, e ) || has( t, target.s ), "getLastErrorLog names the system error" ); }
				Str c; const char* ct = efsw_getlasterror(); sset( c, ct, strlen( ct ) ); Str s; sset( s, t ); sx_check( seq( c, s ), "efsw_getlasterror is the same text" );
				sx_cover( full ? "kernel limit" : "error text" );
			}
		}
		lastErr = efsw::Errors::Log::getLastErrorCode(); lastText = efsw::Errors::Log::getLastErrorLog();
		checkDirs( fw );
		if ( errs && sx_choose( 2, "clear" ) ) { if ( sx_choose( 2, "through C" ) ) efsw_clearlasterror(); else efsw::Errors::Log::clearLastError(); sx_check( efsw::Errors::Log::getLastErrorCode() == 0 && efsw::Errors::Log::getLastErrorLog().empty() && efsw_getlasterror()[0] == 0, "clearLastError resets both" ); lastErr = 0; lastText = ""; }
	}
	if ( !errs ) { // the accepted watches work, the rejected paths are silent
		fw->watch(); Path w( "/" ), d( "/l" ); w / nW; d / nD; Path wsub = w, e = d; wsub / nS; e / nE; Path probe[] = { w, wsub, d, e, Path( "/l" ), Path( "/ld" ), Path( "/u" ), Path( "/r" ) }; Name pn = mkName( "~p" );
		if ( as.native ) { settle(); sx_check( ncb == 0, "nothing reported before anything happened" ); beginOp(); for ( Path& p : probe ) createOnly( p / pn ); settle(); endOp( "probe" ); checkDirs( fw ); }
		else { polls( 1 ); sx_check( ncb == 0, "nothing reported before anything happened" ); gStart(); for ( Path& p : probe ) createOnly( p / pn ); bool links = false; for ( int i = 0; i < nws; i++ ) if ( ws[i].rec && as.follow ) links = true; if ( !links ) gPoll( "probe" ); checkDirs( fw ); }
		sx_cover( "probed" );
	}
	destroyed( fw );
}
