// Specification of what a listener must see, computed from the ideal log of directory changes (no knowledge of the implementation).
#pragma once
#include "common.h"
struct WSpec { long id; const char* root; bool rec; int listener; bool active; bool synth; bool gone; /* removed while the changes were being delivered: what was not delivered yet need not be */ };
#ifdef BIG
enum { MAXWS = 40, MAXEXP = 1024 };
#else
enum { MAXWS = 10, MAXEXP = 128 };
#endif
struct Exp { long id; int listener, action; const char* dir; int dirLen; Name file, old; bool optional, ordered, used; int alt; /* 0, or +g / -g: one of the two alternatives of group g */ };
extern WSpec ws[MAXWS]; extern int nws;
extern Exp exps[MAXEXP]; extern int nexps;
extern bool covered[MAXNODE];
extern bool fsRemote[MAXFS];       // file systems the native backend does not watch and the poller does not track below
extern int mark_i, mark_c; extern bool lossy, strictSynth, laxMoved; // events were dropped by the kernel: every expectation is optional
void specAdd( long id, const char* root, bool rec, int listener, bool synth = false );
WSpec* specFor( const char* path, int len );        // path ends in a slash
bool inTree( int node );                            // a readable directory inside some active watch (non-recursive: the root only)
void beginOp();                                      // snapshot of coverage before a step (watcher settled)
void endOp( const char* what );                      // after the watcher settled: callbacks must be exactly the expected ones
void checkKernelWatches( const char* what );         // exactly one kernel watch per covered directory, none elsewhere
void probeAll( const char* what );                   // makes a file in every directory; covered ones must report it, others must not
// path building with names whose bytes may be symbolic
struct Path { char s[PATHMAX]; int len; Path() : len( 0 ) { s[0] = 0; } Path( const char* p ) { len = (int)strlen( p ); memcpy( s, p, len + 1 ); } Path& operator/( const Name& n ) { if ( len != 1 ) s[len++] = '/'; memcpy( s + len, n.s, n.len ); len += n.len; s[len] = 0; return *this; } operator const char*() const { return s; } };
Path pathOf( int node );
Name symName( const char* tag, int maxLen = 2, int minLen = 1 );
void distinct( const Name& a, const Name& b );
