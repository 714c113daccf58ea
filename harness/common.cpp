#include "common.h"
CB cbs[MAXCB]; int ncb = 0; bool silenced = false; void ( *onCallback )( const CB& ) = nullptr;
// how the roots are written in addWatch: absolute, or relative to the working directory "/"
static const char* relPrefix() { static const char* f[] = { "/", "", "./", "o/../", "//" }; return f[sx_param( "rel", 0 )]; }
std::string rootArg( const char* abs ) { return std::string( relPrefix() ) + ( abs + 1 ); }
static void absDir( Str& d ) { if ( !sx_param( "rel", 0 ) ) return; const char* p = relPrefix(); int l = (int)strlen( p ); if ( d.len < l || memcmp( d.s, p, l ) != 0 || ( !l && d.s[0] == '/' ) ) { sx_note( d.s ); sx_fail( "directories are reported the way the watched one was given" ); } Str n; n.s[0] = '/'; memcpy( n.s + 1, d.s + l, d.len - l ); n.len = 1 + d.len - l; n.s[n.len] = 0; d = n; }
const char* actName( int a ) { return a == 1 ? "Add" : a == 2 ? "Delete" : a == 3 ? "Modified" : a == 4 ? "Moved" : "?"; }
void Rec::handleFileAction( efsw::WatchID id, const std::string& dir, const std::string& file, efsw::Action a, const std::string& old ) {
	if ( silenced ) sx_fail( "callback delivered after the watcher was destroyed or the watch removed" );
	if ( ncb >= MAXCB ) sx_fail( "model: too many callbacks" );
	CB& c = cbs[ncb++]; c.id = id; c.action = a; sset( c.dir, dir ); absDir( c.dir ); sset( c.file, file ); sset( c.old, old ); c.listener = no; c.missed = false; c.tid = sx_self();
	if ( onCallback ) onCallback( c );
}
void Rec::handleMissedFileActions( efsw::WatchID id, const std::string& dir ) {
	if ( silenced ) sx_fail( "callback delivered after the watcher was destroyed or the watch removed" );
	if ( ncb >= MAXCB ) sx_fail( "model: too many callbacks" );
	CB& c = cbs[ncb++]; memset( &c, 0, sizeof c ); c.id = id; sset( c.dir, dir ); absDir( c.dir ); c.listener = no; c.missed = true; c.tid = sx_self();
	if ( onCallback ) onCallback( c );
}
void dumpCbs( int from ) {
	for ( int i = from; i < ncb; i++ ) {
		char b[300]; int o = 0; auto put = [&]( const char* s, int n ) { for ( int k = 0; k < n && o < 290; k++ ) b[o++] = sx_is_symbolic( (unsigned char)s[k] ) ? '?' : s[k]; };
		CB& c = cbs[i]; put( "cb ", 3 ); put( c.missed ? "Missed" : actName( c.action ), c.missed ? 6 : strlen( actName( c.action ) ) ); put( " ", 1 ); put( c.dir.s, c.dir.len ); put( " | ", 3 ); put( c.file.s, c.file.len ); put( " | ", 3 ); put( c.old.s, c.old.len ); b[o] = 0; sx_notev( b, c.id );
	}
}
bool isCb( int i, long id, const char* dir, const Name& file, int action, const Name& old ) {
	if ( i >= ncb ) return false; CB& c = cbs[i];
	return !c.missed && c.id == id && c.action == action && seq( c.dir, dir ) && ( seq( c.file, file ) & seq( c.old, old ) );
}
bool isCb( int i, long id, const char* dir, const char* file, int action, const char* old ) { return isCb( i, id, dir, mkName( file ), action, mkName( old ) ); }
void destroyed( efsw::FileWatcher* fw ) {
	bool leaks = sx_param( "leaks", 0 ); if ( leaks ) { int inst = 0; for ( int i = 0; i < MAXINST; i++ ) if ( W.inst[i].open ) inst++; sx_check( inst <= 1 && openHandles() == inst, "an idle watcher holds its inotify descriptor only" ); }
	silenced = true; delete fw; if ( !leaks ) return; sx_check( watchCount() == 0, "no kernel watch is left" ); sx_check( openHandles() == 0, "every descriptor and directory stream is closed" ); sx_check( W.doubleClose == 0, "nothing is closed twice" );
	sx_check( W.threadsEnded == W.threadsStarted && W.threadsJoined == W.threadsStarted, "every thread has ended and was joined" ); sx_check( sx_leaks() == 0, "no memory is left behind" );
}
