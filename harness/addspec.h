// What addWatch has to answer, from the state of the file system and of the watcher.
#pragma once
#include "generic.h"
struct ASpec { bool native, follow, oos; };
extern ASpec as;
struct AWatch { Str dir; long id; bool rec, active; }; // dir with its trailing slash
extern AWatch aw[8]; extern int naw;
static inline bool isRemote( int fs ) { // the network and FUSE types listed in the documentation of FileSystemImpl (FUSE block devices are decided separately)
	uint64_t m = W.fs[fs].magic; static const uint64_t t[] = { 0x5346414F, 0x61756673, 0x00C36400, 0xFF534D42, 0x73757245, 0x19830326, 0x65735543, 0x01161970, 0x47504653, 0x6B414653, 0x0BD00BD0, 0x564C, 0x6969, 0x6E667364, 0x7461636F, 0xAAD7AAEA, 0x50495045, 0x517B, 0xBEEFDEAD, 0xBACBACBC, 0xA501FCF5 };
	unsigned r = 0; for ( uint64_t x : t ) r |= m == x; return r != 0; }
// number of the watch (index) that covers exactly this directory ("already watched"), or -1; for the poller the tracked subdirectories count as well
static inline int watchedAs( const Path& real, bool sub ) {
	Path p = real; if ( p.len != 1 ) { p.s[p.len++] = '/'; p.s[p.len] = 0; }
	for ( int i = 0; i < naw; i++ ) if ( aw[i].active ) {
		if ( seq( aw[i].dir, p.s, p.len ) ) return i;
		if ( sub && aw[i].rec && p.len > aw[i].dir.len && memcmp( aw[i].dir.s, p.s, aw[i].dir.len ) == 0 ) return i; }
	return -1;
}
// expected result (0: a positive id); target: the directory that is watched then
static inline int expectAdd( const char* arg, Path& target ) {
	Path p( arg ); if ( p.len > 1 && p.s[p.len - 1] == '/' ) p.s[--p.len] = 0; target = p;
	int r = lookup( p ); if ( as.native && r >= 0 && W.n[r].type == T_DIR && isRemote( W.n[r].fs ) ) return efsw::Errors::FileRemote;
	if ( r < 0 || W.n[r].type != T_DIR ) return efsw::Errors::FileNotFound;
	if ( W.euid != 0 && !( W.n[r].mode & 0400 ) ) return efsw::Errors::FileNotReadable;
	if ( watchedAs( p, !as.native ) >= 0 ) return efsw::Errors::FileRepeated;
	int l = lookup( p, false ); if ( W.n[l].type != T_LNK ) return 0;
	target = pathOf( r ); if ( watchedAs( target, !as.native ) >= 0 ) return efsw::Errors::FileRepeated;
	if ( as.follow && as.oos ) return 0;
	int k = p.len; while ( k && p.s[k - 1] != '/' ) k--; // the link's directory, with its slash
	Path t = target; t.s[t.len++] = '/'; t.s[t.len] = 0; return t.len >= k && memcmp( t.s, p.s, k ) == 0 ? 0 : efsw::Errors::FileOutOfScope;
}
// the population used by the addWatch harnesses; the names of /W, /W/S, /l/D and /l/D/E, the permissions of /u and the type of the file system mounted on /r are symbolic
static Name nW, nS, nD, nE; static Path addPaths[17]; enum { NADDPATHS = 17 };
static inline Name upName( const char* tag ) { Name n; memset( &n, 0, sizeof n ); n.len = 1; n.s[0] = (char)sx_u8( tag ); sx_assume( ( n.s[0] >= 'A' ) & ( n.s[0] <= 'Z' ) ); return n; }
static inline void addTree() {
	nW = upName( "name W" ); nS = upName( "name S" ); nD = upName( "name D" ); nE = upName( "name E" );
	Path w( "/" ); w / nW; Path ws_ = w; ws_ / nS; Path d( "/l" ); d / nD; Path e = d; e / nE;
	mkdirAt( w ); mkdirAt( ws_ ); createOnly( "/f" ); mkdirAt( "/l" ); mkdirAt( d ); mkdirAt( e ); mkdirAt( "/ld" ); mkdirAt( "/u" ); mkdirAt( "/r" );
	Path rel; rel.s[0] = nD.s[0]; rel.s[1] = '/'; rel.s[2] = nE.s[0]; rel.s[3] = 0;
	symlinkAt( d, "/l/in" ); symlinkAt( w, "/l/out" ); symlinkAt( "/nowhere", "/l/broken" ); symlinkAt( "/f", "/l/tofile" ); symlinkAt( rel, "/l/deep" ); symlinkAt( "/l/in", "/l/lnlnk" ); symlinkAt( "/ld", "/l/pre" ); symlinkAt( "/r", "/l/rem" ); symlinkAt( "/u", "/l/unr" );
	uint32_t m = sx_u32( "mode of /u" ); sx_assume( ( m & ~0777u ) == 0 && ( m & 0100 ) ); W.n[lookup( "/u" )].mode = m; mountOn( "/r", mkFs( sx_param( "magic", 0 ) ? 0 : 0x6969 ) );
	if ( sx_param( "magic", 0 ) ) { uint64_t g = sx_u64( "file system type" ); sx_assume( g != 0x65735546 ); W.fs[1].magic = g; }
	const char* fixed[] = { "", "", "/l/in", "/l/out", "/f", "/missing", "/l/broken", "/l/tofile", "/u", "/r", "/l/deep", "", "/l/lnlnk", "/l/pre", "/l/rem", "/l/unr", "/" };
	for ( int i = 0; i < NADDPATHS; i++ ) addPaths[i] = Path( fixed[i] ); addPaths[0] = w; addPaths[1] = ws_;
}
