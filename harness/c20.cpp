// C20: path and string helpers, every byte of the strings symbolic.
#include "common.h"
#include <efsw/FileSystem.hpp>
#include <efsw/String.hpp>
#include <efsw/FileInfo.hpp>
using efsw::FileSystem; using efsw::String;
static std::string symStr( int maxLen, const char* tag, bool nul = false ) { uint32_t n = sx_choose( maxLen + 1, "length" ); std::string s; for ( uint32_t i = 0, pad = sx_param( "pad", 0 ); i < pad; i++ ) s.push_back( i % 7 == 6 ? '/' : 'x' ); for ( uint32_t i = 0; i < n; i++ ) { char c = (char)sx_u8( tag ); if ( !nul ) sx_assume( c != 0 ); s.push_back( c ); } return s; }
static bool eq( const std::string& a, const char* p, size_t n ) { if ( a.size() != n ) return false; unsigned d = 0; for ( size_t i = 0; i < n; i++ ) d |= (unsigned char)( a[i] ^ p[i] ); return d == 0; }
static bool eq( const std::string& a, const std::string& b ) { return eq( a, b.data(), b.size() ); }
static void slashes( int N ) {
	std::string s = symStr( N, "path byte" ), a = s, r = s, t = s; size_t n = s.size(); bool ends = n && sx_maybe( s[n - 1] == '/' ) && s[n - 1] == '/';
	sx_check( FileSystem::getOSSlash() == '/', "the separator is a slash" ); sx_check( FileSystem::slashAtEnd( t ) == ends && eq( t, s ), "slashAtEnd tells whether the path ends in a slash" );
	FileSystem::dirAddSlashAtEnd( a ); sx_check( n ? ends ? eq( a, s ) : a.size() == n + 1 && a[n] == '/' && eq( a.substr( 0, n ), s ) : a.empty(), "adding a trailing slash changes at most the end" );
	std::string aa = a; FileSystem::dirAddSlashAtEnd( aa ); sx_check( eq( aa, a ), "adding a trailing slash is idempotent" );
	std::string u = a; FileSystem::dirRemoveSlashAtEnd( u ); if ( !ends ) sx_check( eq( u, s ), "removing the trailing slash undoes adding it" );
	FileSystem::dirRemoveSlashAtEnd( r ); sx_check( ends && n > 1 ? eq( r, s.data(), n - 1 ) : eq( r, s ), "removing a trailing slash removes nothing else, and the root directory stays what it is" );
	sx_check( eq( FileSystem::precomposeFileName( s ), s ), "names are not recomposed on Linux" ); sx_cover( ends ? "ends in a slash" : "no trailing slash" );
}
static void parts( int N ) {
	std::string s = symStr( N, "path byte" ); std::string f = FileSystem::fileNameFromPath( s ), d = FileSystem::pathRemoveFileName( s ); std::string r = s; if ( r.size() && r[r.size() - 1] == '/' ) r.erase( r.size() - 1 );
	bool any = false; for ( size_t i = 0; i < f.size(); i++ ) any |= f[i] == '/'; sx_check( !any, "the file name contains no slash" );
	bool dir = false; for ( size_t i = 0; i < r.size(); i++ ) dir |= r[i] == '/';
	if ( dir ) { sx_check( d.size() && d[d.size() - 1] == '/', "the parent directory ends in a slash" ); std::string j = d; j += f; sx_check( eq( j, r ), "parent directory and file name make up the path" ); sx_cover( "with a directory" ); }
	else { sx_check( eq( f, r ), "a path without directory is its own file name" ); sx_cover( "plain name" ); }
}
static void prefix( int N ) {
	std::string a = symStr( N, "prefix byte", true ), b = symStr( N, "string byte", true ); int got = String::strStartsWith( a, b );
	bool is = a.size() <= b.size(); unsigned d = 0; if ( is ) for ( size_t i = 0; i < a.size(); i++ ) d |= (unsigned char)( a[i] ^ b[i] ); is = is && d == 0;
	if ( a.size() ) { sx_check( ( got != -1 ) == is, "prefix tests hold exactly for prefixes" ); if ( is ) sx_check( got == (int)a.size() - 1, "the position is that of the last matching character" ); sx_cover( is ? "prefix" : "no prefix" ); }
	String::StringType ua, ub; for ( char c : a ) ua.push_back( (unsigned char)c * 0x101u ); for ( char c : b ) ub.push_back( (unsigned char)c * 0x101u ); String sa( ua ), sb( ub );
	if ( a.size() ) sx_check( ( String::strStartsWith( sa, sb ) != -1 ) == is, "prefix tests hold exactly for prefixes (String)" );
}
static void splitting( int N ) {
	std::string s = symStr( N, "byte" ); char sep = (char)sx_u8( "separator" ); std::vector<std::string> p = String::split( s, sep, true ), q = String::split( s, sep, false );
	std::string j; size_t seps = 0; for ( size_t i = 0; i < s.size(); i++ ) if ( s[i] == sep ) seps++;
	for ( size_t i = 0; i < p.size(); i++ ) { if ( i ) j.push_back( sep ); j += p[i]; bool has = false; for ( char c : p[i] ) has |= c == sep; sx_check( !has, "no piece contains the separator" ); }
	bool last = s.size() && s[s.size() - 1] == sep; if ( last ) j.push_back( sep ); sx_check( eq( j, s ), "joining the pieces reproduces the string" );
	sx_check( p.size() == ( s.empty() ? 0 : last ? seps : seps + 1 ), "there is one piece per separator" );
	size_t k = 0; for ( size_t i = 0; i < p.size(); i++ ) if ( !p[i].empty() ) { sx_check( k < q.size() && eq( q[k], p[i] ), "without empty pieces the others stay" ); k++; } sx_check( k == q.size(), "without empty pieces nothing is added" ); sx_cover( p.size() > 1 ? "several pieces" : "one piece" );
	String::StringType u; for ( char c : s ) u.push_back( (unsigned char)c * 0x10003u ); std::vector<String> v = String::split( String( u ), (unsigned char)sep * 0x10003u, true ); bool ok = v.size() == p.size(); for ( size_t i = 0; i < v.size() && ok; i++ ) { ok = v[i].size() == p[i].size(); for ( size_t c = 0; c < p[i].size() && ok; c++ ) ok = v[i][c] == (unsigned char)p[i][c] * 0x10003u; } sx_check( ok, "String and std::string are split alike" );
}
extern "C" void harness() {
	init(); int n = sx_param( "n", 6 );
	switch ( sx_param( "part", 0 ) ) { case 0: slashes( n ); break; case 1: parts( n ); break; case 2: prefix( n ); break; default: splitting( n ); }
}
