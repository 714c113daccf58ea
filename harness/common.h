#pragma once
#include "../model/env.h"
#include <efsw/efsw.hpp>
#include <efsw/efsw.h>
#include <string>
#include <vector>
#include <new>
using namespace env;

struct Str { int len; char s[STRMAX]; };
static inline bool seq( const Str& a, const char* b, int n ) { if ( a.len != n ) return false; unsigned d = 0; for ( int i = 0; i < n; i++ ) d |= (unsigned char)( a.s[i] ^ b[i] ); return d == 0; }
static inline bool seq( const Str& a, const char* b ) { return seq( a, b, (int)strlen( b ) ); }
static inline bool seq( const Str& a, const Name& b ) { return seq( a, b.s, b.len ); }
static inline bool seq( const Str& a, const Str& b ) { return seq( a, b.s, b.len ); }
static inline void sset( Str& d, const char* p, size_t n ) { static char big[4096]; if ( W.longNames && n < sizeof big ) { memcpy( big, p, n ); n = squeeze( big, (int)n ); p = big; } if ( n > STRMAX - 1 ) n = STRMAX - 1; d.len = (int)n; memcpy( d.s, p, n ); d.s[n] = 0; }
static inline void sset( Str& d, const std::string& s ) { sset( d, s.data(), s.size() ); }

struct CB { long id; int action; Str dir, file, old; int listener; bool missed; int tid; };
extern CB cbs[MAXCB];
extern int ncb;
extern bool silenced;    // a callback while this is set is a violation
extern void ( *onCallback )( const CB& ); // nested actions from inside a callback
struct Rec : efsw::FileWatchListener {
	int no; explicit Rec( int n ) : no( n ) {}
	void handleFileAction( efsw::WatchID id, const std::string& dir, const std::string& file, efsw::Action a, const std::string& old = "" ) override;
	void handleMissedFileActions( efsw::WatchID id, const std::string& dir ) override;
};
std::string rootArg( const char* abs );
const char* actName( int a );
void dumpCbs( int from = 0 );
// true if callback i is exactly this
bool isCb( int i, long id, const char* dir, const Name& file, int action, const Name& old );
bool isCb( int i, long id, const char* dir, const char* file, int action, const char* old = "" );
void destroyed( efsw::FileWatcher* fw ); // deletes it and checks that everything it acquired was released
struct Sys { // silence heap ownership: objects the harness owns
};
