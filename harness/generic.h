// Specification of the polling backend: the difference between two consecutive states of the watched trees, computed without knowledge of the implementation.
#pragma once
#include "native.h"
struct SEnt { Name name; bool dir, tracked; uint64_t mtime, size, ino; uint32_t uid, gid, mode; int parent; int node; };
#ifdef BIG
enum { MAXSNAP = 512, MAXGX = 1024 };
#else
enum { MAXSNAP = 72, MAXGX = 128 };
#endif
struct Snap { SEnt e[MAXSNAP]; int n; bool rootOk; };
struct GX { long id; int listener, action; Str dir; Name file, old; bool used; };
extern GX gx[MAXGX]; extern int ngx;
extern Snap gsnap[MAXWS];              // state at the last poll, by watch
bool gTracked( const WSpec& w, int node, const char* path, bool viaLink );
void takeSnap( const WSpec& w, Snap& s );
void gStart();                           // after the watches were added
void gExpect( const WSpec& w, int wi );  // expected callbacks since the last poll (appended to gx); updates the snapshot
void gPoll( const char* what );          // polls once and checks that the callbacks are exactly the expected ones
