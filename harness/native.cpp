#include "native.h"
WSpec ws[MAXWS]; int nws; Exp exps[MAXEXP]; int nexps; bool covered[MAXNODE]; int mark_i, mark_c; bool lossy, strictSynth, laxMoved; bool fsRemote[MAXFS]; static Str before[MAXNODE];
void specAdd( long id, const char* root, bool rec, int listener, bool synth ) { WSpec& w = ws[nws++]; w.id = id; w.root = root; w.rec = rec; w.listener = listener; w.active = true; w.synth = synth; }
static int rootLen( const char* root ) { return root[1] ? (int)strlen( root ) : 0; }
static void addPathSlash( Path& p ) { if ( p.len != 1 ) { p.s[p.len++] = '/'; p.s[p.len] = 0; } }
WSpec* specFor( const char* p, int len ) {
	for ( int i = 0; i < nws; i++ ) { if ( !ws[i].active ) continue; int l = rootLen( ws[i].root ); if ( len < l + 1 || memcmp( p, ws[i].root, l ) != 0 || p[l] != '/' ) continue; if ( len == l + 1 || ws[i].rec ) return &ws[i]; }
	return nullptr;
}
Path pathOf( int node ) { Path p; if ( !nodePath( node, p.s ) ) { p.s[0] = 0; p.len = 0; } else p.len = (int)strlen( p.s ); return p; }
bool inTree( int node ) {
	if ( W.n[node].type != T_DIR || !W.n[node].nlink ) return false;
	Path p = pathOf( node ); if ( !p.len ) return false; addPathSlash( p ); WSpec* w = specFor( p.s, p.len ); if ( !w ) return false;
	for ( int x = node;; x = W.n[x].parent ) { if ( fsRemote[W.n[x].fs] ||  !( W.n[x].mode & 0400 ) || !( W.n[x].mode & 0100 ) ) return false; if ( x == 0 ) break; }
	return true;
}
void beginOp() { mark_i = nilog; mark_c = ncb; for ( int i = 0; i < W.nn; i++ ) { covered[i] = inTree( i ); if ( covered[i] ) { Path p = pathOf( i ); addPathSlash( p ); sset( before[i], p.s, p.len ); } } for ( int i = W.nn; i < MAXNODE; i++ ) covered[i] = false; }
static Exp& expect( WSpec* w, int action, const IEv& e, bool optional, bool ordered ) {
	if ( nexps >= MAXEXP ) sx_fail( "model: too many expectations" );
	Exp& x = exps[nexps++]; memset( &x, 0, sizeof x ); x.id = w->id; x.listener = w->listener; x.action = action; x.dir = e.path; x.dirLen = e.plen; x.file = e.name; x.optional = optional; x.ordered = ordered; return x;
}
static bool nameIs( const Str& s, const Name& n ) { return seq( s, n ); }
static bool movedNow( int d ) { Path p = pathOf( d ); if ( !p.len ) return true; addPathSlash( p ); return !seq( before[d], p.s, p.len ); } // moved or removed since beginOp
void endOp( const char* what ) {
	nexps = 0; int groups = 0;
	for ( int i = mark_i; i < nilog; i++ ) {
		IEv& e = ilog[i]; WSpec* w = specFor( e.path, e.plen ); bool opt = !covered[e.dir] || lossy || ( w && w->gone ) || ( laxMoved && ( !seq( before[e.dir], e.path, e.plen ) || movedNow( e.dir ) ) );
		if ( i > mark_i && !( e.mask & IN_MOVE ) ) { IEv& p = ilog[i - 1]; if ( p.dir == e.dir && p.mask == e.mask && p.name.len == e.name.len && memcmp( p.name.s, e.name.s, e.name.len ) == 0 ) opt = true; } // the kernel may merge the two
		if ( !w && !( e.mask & IN_MOVED_FROM ) ) continue;
		if ( w && w->synth && !covered[e.dir] && !strictSynth ) opt = true; else if ( w && w->synth && !covered[e.dir] ) continue; // nothing is delivered twice when the watcher only runs afterwards
		if ( e.mask & IN_CREATE ) expect( w, 1, e, opt, true );
		else if ( e.mask & ( IN_MODIFY | IN_CLOSE_WRITE ) ) expect( w, 3, e, opt, true );
		else if ( e.mask & IN_DELETE ) expect( w, 2, e, opt, true );
		else if ( e.mask & IN_MOVED_FROM ) {
			IEv* to = nullptr; for ( int k = i + 1; k < nilog; k++ ) if ( ( ilog[k].mask & IN_MOVED_TO ) && ilog[k].cookie == e.cookie ) to = &ilog[k];
			if ( to && to->dir == e.dir ) { if ( w ) {
				Exp& x = expect( w, 4, *to, opt, true ); x.old = e.name; bool split = false; for ( int k = 0; k < W.nsplit; k++ ) if ( W.splitCookies[k] == e.cookie ) split = true;
				if ( lossy ) { expect( w, 2, e, true, false ); expect( w, 1, *to, true, false ); expect( w, 3, *to, true, false ); }
				else if ( split ) { x.alt = ++groups; expect( w, 2, e, opt, false ).alt = -groups; expect( w, 1, *to, opt, false ).alt = -groups; expect( w, 3, *to, true, false ).alt = -groups; } } }
			else if ( w ) expect( w, 2, e, opt, false );
		} else if ( e.mask & IN_MOVED_TO ) {
			IEv* fr = nullptr; for ( int k = mark_i; k < i; k++ ) if ( ( ilog[k].mask & IN_MOVED_FROM ) && ilog[k].cookie == e.cookie ) fr = &ilog[k];
			if ( fr && fr->dir == e.dir ) continue;
			expect( w, 1, e, opt, false ); expect( w, 3, e, true, false );
		}
	}
	for ( int d = 0; d < W.nn; d++ ) if ( W.n[d].type == T_DIR && inTree( d ) ) { // discovery of directories that entered a tree with synthetic events
		static IEv sy[MAXNODE]; IEv& e = sy[d]; Path p = pathOf( d ); addPathSlash( p ); WSpec* w = specFor( p.s, p.len ); if ( !w || !w->synth || p.len == rootLen( w->root ) + 1 ) continue;
		bool moved = covered[d]; if ( moved && seq( before[d], p.s, p.len ) ) continue; memcpy( e.path, p.s, p.len + 1 ); e.plen = p.len;
		for ( int k = 0; k < W.n[d].nents; k++ ) { Ent& x = W.n[d].ents[k]; int t = x.node; if ( W.n[t].type == T_LNK ) { Path q = p; memcpy( q.s + q.len, x.name.s, x.name.len ); q.len += x.name.len; q.s[q.len] = 0; int r = lookup( q ); if ( r >= 0 ) t = r; }
			bool opt = lossy || moved || W.n[t].type == T_LNK; if ( W.n[t].type == T_FIFO ) continue; e.name = x.name; expect( w, 1, e, opt, false ); }
	}
	int lastOrdered = -1;
	for ( int c = mark_c; c < ncb; c++ ) {
		CB& cb = cbs[c]; int hit = -1; if ( lossy && cb.missed ) continue;
		for ( int pass = 0; pass < 2 && hit < 0; pass++ ) for ( int i = 0; i < nexps && hit < 0; i++ ) {
			Exp& x = exps[i]; if ( x.optional != ( pass == 1 ) || x.used || cb.missed || cb.id != x.id || cb.listener != x.listener || cb.action != x.action || cb.dir.len != x.dirLen || cb.file.len != x.file.len || cb.old.len != x.old.len ) continue;
			if ( seq( cb.dir, x.dir, x.dirLen ) & nameIs( cb.file, x.file ) & nameIs( cb.old, x.old ) ) hit = i;
		}
		if ( hit >= 0 ) { exps[hit].used = true; if ( exps[hit].ordered && !exps[hit].optional ) { if ( hit < lastOrdered ) { dumpCbs( mark_c ); sx_fail( "callbacks in the order of the changes" ); } lastOrdered = hit; } continue; }
		// a directory that left the tree: Delete of directories below it is tolerated
		bool ok = false;
		if ( !cb.missed && cb.action == 2 ) for ( int i = mark_i; i < nilog && !ok; i++ ) if ( ilog[i].mask & IN_MOVED_FROM ) {
			IEv& e = ilog[i]; int l = e.plen + e.name.len; if ( cb.dir.len > l && memcmp( cb.dir.s, e.path, e.plen ) == 0 && memcmp( cb.dir.s + e.plen, e.name.s, e.name.len ) == 0 && cb.dir.s[l] == '/' ) ok = true; }
		if ( !ok ) { sx_note( what ); dumpCbs( mark_c ); sx_notev( "unexpected callback number", c - mark_c ); sx_fail( "no callback without a corresponding change" ); }
	}
	for ( int g = 1; g <= groups; g++ ) { // a rename whose halves were read separately: one alternative, not both
		bool first = false, second = false; for ( int i = 0; i < nexps; i++ ) { if ( exps[i].alt == g && exps[i].used ) first = true; if ( exps[i].alt == -g && exps[i].used ) second = true; }
		if ( first && second ) { sx_note( what ); dumpCbs( mark_c ); sx_fail( "a rename is reported once" ); }
		for ( int i = 0; i < nexps; i++ ) if ( exps[i].alt == ( second ? g : -g ) ) exps[i].optional = true;
	}
	for ( int i = 0; i < nexps; i++ ) if ( !exps[i].used && !exps[i].optional ) { sx_note( what ); dumpCbs( mark_c ); sx_note( actName( exps[i].action ) ); sx_note( exps[i].dir ); sx_fail( "every change of a covered directory is reported" ); }
	sx_check( true, "callbacks match the changes" );
}
void checkKernelWatches( const char* what ) {
	for ( int i = 0; i < W.nn; i++ ) {
		int have = watchesOn( i ); bool want = inTree( i );
		if ( have != ( want ? 1 : 0 ) ) { sx_note( what ); Path p = pathOf( i ); sx_note( p.s ); sx_notev( "node", i ); sx_notev( "kernel watches", have ); sx_fail( want ? "every covered directory has its kernel watch" : "no kernel watch outside the watched trees" ); }
	}
	sx_check( true, "kernel watches match the trees" );
}
void probeAll( const char* what ) {
	int n = W.nn; Name probe = mkName( "~p" );
	for ( int i = 0; i < n; i++ ) if ( W.n[i].type == T_DIR && W.n[i].nlink && ( W.n[i].mode & 0300 ) == 0300 && W.n[i].nents < MAXENT ) {
		Path p = pathOf( i ); if ( !p.len ) continue;
		beginOp(); createOnly( p / probe ); settle(); endOp( what );
	}
}
Name symName( const char* tag, int maxLen, int minLen ) {
	Name n; memset( &n, 0, sizeof n ); int fixed = sx_param( "nlen", 0 ); bool lg = sx_param( "long", 0 ); if ( lg ) W.longNames = true;
	n.len = fixed ? fixed : minLen + sx_choose( maxLen - minLen + 1, "name length" ); // long names: 254 or 255 bytes
	for ( int i = 0; i < n.len; i++ ) { n.s[i] = (char)sx_u8( tag ); sx_assume( ( n.s[i] != 0 ) & ( n.s[i] != '/' ) & ( n.s[i] != '\1' ) ); if ( lg ) sx_assume( ( n.s[i] != 'L' ) & ( n.s[i] != '\2' ) ); }
	if ( lg ) { n.s[2] = n.s[1]; n.s[1] = '\2'; n.len++; return n; }
	if ( n.len == 1 ) sx_assume( n.s[0] != '.' ); if ( n.len == 2 ) sx_assume( !( ( n.s[0] == '.' ) & ( n.s[1] == '.' ) ) );
	return n;
}
void distinct( const Name& a, const Name& b ) { if ( a.len != b.len ) return; unsigned d = 0; for ( int i = 0; i < a.len; i++ ) d |= (unsigned char)( a.s[i] ^ b.s[i] ); sx_assume( d != 0 ); }
