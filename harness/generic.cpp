#include "generic.h"
GX gx[MAXGX]; int ngx; Snap gsnap[MAXWS];
static void addPathSlash( Path& p ) { if ( p.len != 1 ) { p.s[p.len++] = '/'; p.s[p.len] = 0; } }
bool gTracked( const WSpec& w, int node, const char*, bool viaLink ) { return w.rec && !viaLink && ( W.n[node].mode & 0400 ) && !fsRemote[W.n[node].fs]; }
static void snapDir( const WSpec& w, Snap& s, int parent, int dir, const Path& p ) {
	for ( int i = 0; i < W.n[dir].nents; i++ ) {
		Ent& en = W.n[dir].ents[i]; int node = en.node; bool link = W.n[node].type == T_LNK;
		if ( link ) { Path q = p; node = lookup( q / en.name ); if ( node < 0 ) continue; }
		if ( W.n[node].type != T_FILE && W.n[node].type != T_DIR ) continue;
		if ( s.n >= MAXSNAP ) sx_fail( "model: snapshot full" );
		int me = s.n++; SEnt& e = s.e[me]; memset( &e, 0, sizeof e ); Node& n = W.n[node]; e.name = en.name; e.dir = n.type == T_DIR; e.mtime = n.mtime; e.size = n.size; e.ino = n.ino; e.uid = n.uid; e.gid = n.gid; e.mode = n.mode; e.parent = parent; e.node = node;
		if ( e.dir ) { Path q = p; q / en.name; e.tracked = gTracked( w, node, q.s, link ); if ( e.tracked ) snapDir( w, s, me, node, q ); }
	}
}
void takeSnap( const WSpec& w, Snap& s ) { s.n = 0; int r = lookup( w.root ); s.rootOk = r >= 0 && W.n[r].type == T_DIR && ( W.n[r].mode & 0400 ); if ( s.rootOk ) snapDir( w, s, -1, r, Path( w.root ) ); }
void gStart() { for ( int i = 0; i < nws; i++ ) takeSnap( ws[i], gsnap[i] ); mark_c = ncb; }
static void put( const WSpec& w, int action, const Path& dir, const Name& file, const Name& old ) {
	if ( ngx >= MAXGX ) sx_fail( "model: too many expectations" );
	GX& x = gx[ngx++]; memset( &x, 0, sizeof x ); x.id = w.id; x.listener = w.listener; x.action = action; Path d = dir; addPathSlash( d ); sset( x.dir, d.s, d.len ); x.file = file; x.old = old;
}
static Name none;
static void all( const WSpec& w, int action, const Snap& s, int parent, const Path& dir ) { // everything inside, added or deleted
	for ( int i = 0; i < s.n; i++ ) if ( s.e[i].parent == parent ) { put( w, action, dir, s.e[i].name, none ); if ( s.e[i].tracked ) { Path q = dir; all( w, action, s, i, q / s.e[i].name ); } }
}
static bool nmEq( const Name& a, const Name& b ) { if ( a.len != b.len ) return false; unsigned d = 0; for ( int i = 0; i < a.len; i++ ) d |= (unsigned char)( a.s[i] ^ b.s[i] ); return d == 0; }
static void diff( const WSpec& w, const Snap& a, int pa, const Snap& b, int pb, const Path& dir ) {
	int same[MAXSNAP], moved[MAXSNAP]; bool goneUsed[MAXSNAP]; for ( int i = 0; i < MAXSNAP; i++ ) { same[i] = moved[i] = -1; goneUsed[i] = false; }
	bool stays[MAXSNAP]; for ( int i = 0; i < a.n; i++ ) { stays[i] = false; if ( a.e[i].parent == pa ) for ( int j = 0; j < b.n; j++ ) if ( b.e[j].parent == pb && nmEq( a.e[i].name, b.e[j].name ) ) { stays[i] = true; same[j] = i; break; } }
	for ( int j = 0; j < b.n; j++ ) if ( b.e[j].parent == pb && same[j] < 0 ) { int cand = -1, nc = 0; for ( int i = 0; i < a.n; i++ ) if ( a.e[i].parent == pa && !stays[i] && !goneUsed[i] && a.e[i].ino == b.e[j].ino && a.e[i].dir == b.e[j].dir ) { cand = i; nc++; } if ( nc > 1 ) sx_end(); /* which of several gone hard links it was is not specified */ if ( cand >= 0 ) { moved[j] = cand; goneUsed[cand] = true; } }
	for ( int i = 0; i < a.n; i++ ) if ( a.e[i].parent == pa && !stays[i] && !goneUsed[i] ) { put( w, 2, dir, a.e[i].name, none ); if ( a.e[i].tracked ) { Path q = dir; all( w, 2, a, i, q / a.e[i].name ); } }
	for ( int j = 0; j < b.n; j++ ) if ( b.e[j].parent == pb ) {
		Path q = dir; q / b.e[j].name; int i = same[j] >= 0 ? same[j] : moved[j];
		if ( i < 0 ) { put( w, 1, dir, b.e[j].name, none ); if ( b.e[j].tracked ) all( w, 1, b, j, q ); continue; }
		const SEnt &x = a.e[i], &y = b.e[j]; if ( same[j] < 0 ) put( w, 4, dir, y.name, x.name );
		else if ( x.dir != y.dir || x.mtime != y.mtime || x.size != y.size || x.ino != y.ino || x.uid != y.uid || x.gid != y.gid || x.mode != y.mode ) put( w, 3, dir, y.name, none );
		if ( x.tracked && y.tracked ) diff( w, a, i, b, j, q ); else if ( x.tracked ) all( w, 2, a, i, q ); else if ( y.tracked ) all( w, 1, b, j, q );
	}
}
void gExpect( const WSpec& w, int wi ) { static Snap cur; takeSnap( w, cur ); if ( w.active ) diff( w, gsnap[wi], -1, cur, -1, Path( w.root ) ); gsnap[wi] = cur; }
void gPoll( const char* what ) {
	polls( 1 ); ngx = 0; for ( int i = 0; i < nws; i++ ) gExpect( ws[i], i );
	for ( int c = mark_c; c < ncb; c++ ) {
		CB& cb = cbs[c]; int hit = -1;
		for ( int i = 0; i < ngx && hit < 0; i++ ) { GX& x = gx[i]; if ( x.used || cb.missed || cb.id != x.id || cb.listener != x.listener || cb.action != x.action || cb.file.len != x.file.len || cb.old.len != x.old.len || cb.dir.len != x.dir.len ) continue; if ( seq( cb.dir, x.dir ) & seq( cb.file, x.file ) & seq( cb.old, x.old ) ) hit = i; }
		if ( hit >= 0 ) gx[hit].used = true; else { sx_note( what ); dumpCbs( mark_c ); sx_notev( "unexpected callback number", c - mark_c ); sx_fail( "no callback without a difference" ); }
	}
	for ( int i = 0; i < ngx; i++ ) if ( !gx[i].used ) { bool gone = false; for ( int k = 0; k < nws; k++ ) if ( ws[k].id == gx[i].id && ws[k].gone ) gone = true; if ( gone ) continue; sx_note( what ); dumpCbs( mark_c ); sx_note( actName( gx[i].action ) ); sx_note( gx[i].dir.s ); Path p; Name f = gx[i].file; p / f; sx_note( p.s ); sx_fail( "every difference is reported" ); }
	sx_check( true, "callbacks match the difference" ); mark_c = ncb;
}
