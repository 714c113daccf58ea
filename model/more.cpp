// Further library functions a rewrite of the code under test may reasonably use: formatting, casts, exceptions, descriptors of directories.
#include "env.h"
#include <cstring>
#include <cstdlib>
#include <cstdarg>
#include <dirent.h>
#include <fcntl.h>
#include <errno.h>
#include <sys/stat.h>
#include <climits>
using namespace env;

namespace {
struct Out { char* b; size_t n, o; void put( char c ) { if ( o + 1 < n ) b[o] = c; o++; } };
typedef unsigned long long u64x;
// %[-+ 0#][width][.prec][hh|h|l|ll|z|j|t](d i u x X o c s p %); the arguments come as 64-bit words
int format( Out& o, const char* f, u64x ( *next )( void* ), void* st ) {
	for ( ; *f; f++ ) {
		if ( *f != '%' ) { o.put( *f ); continue; }
		f++; bool left = false, zero = false, plus = false, space = false, alt = false;
		for ( ;; f++ ) { if ( *f == '-' ) left = true; else if ( *f == '0' ) zero = true; else if ( *f == '+' ) plus = true; else if ( *f == ' ' ) space = true; else if ( *f == '#' ) alt = true; else break; }
		int width = 0, prec = -1, lng = 0;
		if ( *f == '*' ) { width = (int)next( st ); f++; if ( width < 0 ) { left = true; width = -width; } } else while ( *f >= '0' && *f <= '9' ) width = width * 10 + ( *f++ - '0' );
		if ( *f == '.' ) { f++; prec = 0; if ( *f == '*' ) { prec = (int)next( st ); f++; } else while ( *f >= '0' && *f <= '9' ) prec = prec * 10 + ( *f++ - '0' ); }
		for ( ;; f++ ) { if ( *f == 'l' || *f == 'z' || *f == 'j' || *f == 't' ) lng = 2; else if ( *f == 'h' ) lng--; else break; }
		char t[72]; const char* s = t; size_t n = 0; char c = *f;
		if ( !c ) break;
		if ( c == '%' ) { o.put( '%' ); continue; }
		if ( c == 'c' ) { t[0] = (char)next( st ); n = 1; }
		else if ( c == 's' ) { s = (const char*)next( st ); if ( !s ) s = "(null)"; while ( ( prec < 0 || n < (size_t)prec ) && s[n] ) n++; }
		else {
			bool neg = false; u64x v = next( st ); unsigned base = c == 'x' || c == 'X' || c == 'p' ? 16 : c == 'o' ? 8 : 10;
			if ( c == 'p' ) { lng = 2; alt = true; }
			if ( c != 'd' && c != 'i' && c != 'u' && base == 10 ) sx_fail( "model: format conversion not supported" );
			bool sgn = c == 'd' || c == 'i';
			if ( lng == 0 ) v = sgn ? (u64x)(long long)(int)v : (unsigned)v; else if ( lng == -1 ) v = sgn ? (u64x)(long long)(short)v : (unsigned short)v; else if ( lng == -2 ) v = sgn ? (u64x)(long long)(signed char)v : (unsigned char)v;
			if ( sgn && (long long)v < 0 ) { neg = true; v = 0 - v; }
			char d[32]; int k = 0; do { unsigned q = (unsigned)( v % base ); d[k++] = q < 10 ? '0' + q : ( c == 'X' ? 'A' : 'a' ) + q - 10; v /= base; } while ( v );
			while ( k < prec && k < 31 ) d[k++] = '0';
			if ( neg ) t[n++] = '-'; else if ( plus && sgn ) t[n++] = '+'; else if ( space && sgn ) t[n++] = ' ';
			if ( alt && base == 16 ) { t[n++] = '0'; t[n++] = c == 'X' ? 'X' : 'x'; }
			if ( zero && !left && prec < 0 ) while ( n + k < (size_t)width && k < 31 ) d[k++] = '0';
			while ( k ) t[n++] = d[--k];
		}
		if ( !left ) for ( size_t i = n; i < (size_t)width; i++ ) o.put( ' ' );
		for ( size_t i = 0; i < n; i++ ) o.put( s[i] );
		if ( left ) for ( size_t i = n; i < (size_t)width; i++ ) o.put( ' ' );
	}
	if ( o.n ) o.b[o.o < o.n ? o.o : o.n - 1] = 0;
	return (int)o.o;
}
struct Words { const u64x* a; int i; };
u64x nextWord( void* p ) { Words* w = (Words*)p; if ( w->i >= 24 ) sx_fail( "model: too many format arguments" ); return w->a[w->i++]; }
struct VaTag { unsigned gp, fp; char* overflow; char* regs; }; // System V va_list
u64x nextVa( void* p ) { VaTag* v = (VaTag*)p; char* a; if ( v->gp < 48 ) { a = v->regs + v->gp; v->gp += 8; } else { a = v->overflow; v->overflow += 8; } return *(u64x*)a; }
int digitOf( char c ) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'z' ? c - 'a' + 10 : c >= 'A' && c <= 'Z' ? c - 'A' + 10 : 99; }
bool white( char c ) { return c == ' ' || ( c >= 9 && c <= 13 ); }
u64x number( const char* s, char** end, int base, bool& neg, bool& over ) {
	const char* st = s; while ( white( *s ) ) s++; neg = false; over = false; if ( *s == '-' || *s == '+' ) neg = *s++ == '-';
	if ( ( base == 0 || base == 16 ) && s[0] == '0' && ( s[1] == 'x' || s[1] == 'X' ) && digitOf( s[2] ) < 16 ) { s += 2; base = 16; } else if ( base == 0 ) base = *s == '0' ? 8 : 10;
	u64x v = 0; bool any = false; for ( ; digitOf( *s ) < base; s++ ) { any = true; u64x d = digitOf( *s ); if ( v > ( ~0ull - d ) / base ) over = true; v = v * base + d; }
	if ( end ) *end = (char*)( any ? s : st ); return v;
}
}
extern "C" {
int m_snprintf( char* b, size_t n, const char* f, u64x a0, u64x a1, u64x a2, u64x a3, u64x a4, u64x a5, u64x a6, u64x a7, u64x a8, u64x a9, u64x a10, u64x a11, u64x a12, u64x a13, u64x a14, u64x a15, u64x a16, u64x a17, u64x a18, u64x a19, u64x a20, u64x a21, u64x a22, u64x a23 ) { u64x a[24] = { a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23 }; Words w{ a, 0 }; Out o{ b, n, 0 }; return format( o, f, nextWord, &w ); }
int m_sprintf( char* b, const char* f, u64x a0, u64x a1, u64x a2, u64x a3, u64x a4, u64x a5, u64x a6, u64x a7, u64x a8, u64x a9, u64x a10, u64x a11, u64x a12, u64x a13, u64x a14, u64x a15, u64x a16, u64x a17, u64x a18, u64x a19, u64x a20, u64x a21, u64x a22, u64x a23 ) { return m_snprintf( b, (size_t)1 << 30, f, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23 ); }
int m_vsnprintf( char* b, size_t n, const char* f, void* va ) { Out o{ b, n, 0 }; return format( o, f, nextVa, va ); }
int m_vsprintf( char* b, const char* f, void* va ) { return m_vsnprintf( b, (size_t)1 << 30, f, va ); }
int m_fputc( int c, void* ) { return c; }
int m_putc( int c, void* ) { return c; }
long m_strtol( const char* s, char** e, int base ) { bool neg, over; u64x v = number( s, e, base, neg, over ); if ( over || v > (u64x)LONG_MAX + neg ) { *__errno_location() = ERANGE; return neg ? LONG_MIN : LONG_MAX; } return neg ? (long)( 0 - v ) : (long)v; }
unsigned long m_strtoul( const char* s, char** e, int base ) { bool neg, over; u64x v = number( s, e, base, neg, over ); if ( over ) { *__errno_location() = ERANGE; return ULONG_MAX; } return neg ? 0 - v : v; }
long m___isoc23_strtol( const char* s, char** e, int b ) { return m_strtol( s, e, b ); }
long m___isoc23_strtoll( const char* s, char** e, int b ) { return m_strtol( s, e, b ); }
long m_strtoll( const char* s, char** e, int b ) { return m_strtol( s, e, b ); }
unsigned long m___isoc23_strtoul( const char* s, char** e, int b ) { return m_strtoul( s, e, b ); }
unsigned long m___isoc23_strtoull( const char* s, char** e, int b ) { return m_strtoul( s, e, b ); }
unsigned long m_strtoull( const char* s, char** e, int b ) { return m_strtoul( s, e, b ); }
long m_atol( const char* s ) { return m_strtol( s, nullptr, 10 ); }
SX_WEAK int m_isdigit( int c ) { return c >= '0' && c <= '9'; }
SX_WEAK int m_isupper( int c ) { return c >= 'A' && c <= 'Z'; }
SX_WEAK int m_islower( int c ) { return c >= 'a' && c <= 'z'; }
SX_WEAK int m_isalpha( int c ) { return m_isupper( c ) || m_islower( c ); }
SX_WEAK int m_isalnum( int c ) { return m_isalpha( c ) || m_isdigit( c ); }
SX_WEAK int m_isxdigit( int c ) { return m_isdigit( c ) || ( c >= 'a' && c <= 'f' ) || ( c >= 'A' && c <= 'F' ); }
SX_WEAK int m_iscntrl( int c ) { return ( c >= 0 && c < 32 ) || c == 127; }
SX_WEAK int m_isprint( int c ) { return c >= 32 && c < 127; }
SX_WEAK int m_isgraph( int c ) { return c > 32 && c < 127; }
SX_WEAK int m_ispunct( int c ) { return m_isgraph( c ) && !m_isalnum( c ); }
SX_WEAK int m_isblank( int c ) { return c == ' ' || c == '\t'; }
SX_WEAK int m_strncasecmp( const char* a, const char* b, size_t n ) { for ( ; n; n--, a++, b++ ) { int x = *a >= 'A' && *a <= 'Z' ? *a + 32 : (unsigned char)*a, y = *b >= 'A' && *b <= 'Z' ? *b + 32 : (unsigned char)*b; if ( x != y ) return x - y; if ( !x ) return 0; } return 0; }
SX_WEAK char* m_strncat( char* d, const char* s, size_t n ) { char* r = d; while ( *d ) d++; for ( ; n && *s; n-- ) *d++ = *s++; *d = 0; return r; }
SX_WEAK size_t m_strspn( const char* s, const char* a ) { size_t n = 0; for ( ; s[n]; n++ ) { const char* p = a; while ( *p && *p != s[n] ) p++; if ( !*p ) break; } return n; }
SX_WEAK size_t m_strcspn( const char* s, const char* a ) { size_t n = 0; for ( ; s[n]; n++ ) { const char* p = a; while ( *p && *p != s[n] ) p++; if ( *p ) break; } return n; }
SX_WEAK char* m_strpbrk( const char* s, const char* a ) { s += m_strcspn( s, a ); return *s ? (char*)s : nullptr; }
SX_WEAK char* m_strtok_r( char* s, const char* d, char** sv ) { if ( !s ) s = *sv; s += m_strspn( s, d ); if ( !*s ) { *sv = s; return nullptr; } char* r = s; s += m_strcspn( s, d ); if ( *s ) *s++ = 0; *sv = s; return r; }
SX_WEAK char* m_strndup( const char* s, size_t n ) { size_t k = 0; while ( k < n && s[k] ) k++; char* r = (char*)malloc( k + 1 ); memcpy( r, s, k ); r[k] = 0; return r; }
SX_WEAK void* m_memrchr( const void* p, int c, size_t n ) { const unsigned char* s = (const unsigned char*)p; while ( n ) if ( s[--n] == (unsigned char)c ) return (void*)( s + n ); return nullptr; }
SX_WEAK void* m_mempcpy( void* d, const void* s, size_t n ) { memcpy( d, s, n ); return (char*)d + n; }
SX_WEAK char* m_stpcpy( char* d, const char* s ) { while ( ( *d = *s++ ) ) d++; return d; }
SX_WEAK void m_bzero( void* p, size_t n ) { memset( p, 0, n ); }
SX_WEAK int m_bcmp( const void* a, const void* b, size_t n ) { return memcmp( a, b, n ); }
SX_WEAK int m_abs( int v ) { return v < 0 ? -v : v; }
SX_WEAK long m_labs( long v ) { return v < 0 ? -v : v; }
SX_WEAK void m_qsort( void* base, size_t n, size_t sz, int ( *cmp )( const void*, const void* ) ) { // insertion sort
	char* b = (char*)base; for ( size_t i = 1; i < n; i++ ) for ( size_t j = i; j && cmp( b + ( j - 1 ) * sz, b + j * sz ) > 0; j-- ) for ( size_t k = 0; k < sz; k++ ) { char t = b[( j - 1 ) * sz + k]; b[( j - 1 ) * sz + k] = b[j * sz + k]; b[j * sz + k] = t; }
}
int m_pthread_once( int* c, void ( *fn )() ) {
	sx_hb_acquire( (uint64_t)c );
	for ( ;; ) { if ( *c == 2 ) return 0; if ( !*c ) { *c = 1; fn(); *c = 2; sx_hb_release( (uint64_t)c ); sx_wake( (uint64_t)c ); return 0; } sx_block( (uint64_t)c ); sx_hb_acquire( (uint64_t)c ); }
}
// ---------------------------------------------------------------- run-time type information
extern char _ZTVN10__cxxabiv120__si_class_type_infoE[], _ZTVN10__cxxabiv121__vmi_class_type_infoE[];
static const void* upTo( const void* p, const void* const* ti, const void* want ) { // the want subobject of the object p of type ti
	if ( ti == want ) return p;
	if ( ti[0] == _ZTVN10__cxxabiv120__si_class_type_infoE + 16 ) return upTo( p, (const void* const*)ti[2], want );
	if ( ti[0] == _ZTVN10__cxxabiv121__vmi_class_type_infoE + 16 ) { unsigned n = ( (const unsigned*)ti )[5]; for ( unsigned i = 0; i < n; i++ ) { const long* b = (const long*)( ti + 3 + 2 * i ); if ( b[1] & 1 ) sx_fail( "model: dynamic_cast through a virtual base" ); const void* r = upTo( (const char*)p + ( b[1] >> 8 ), *(const void* const* const*)b, want ); if ( r ) return r; } }
	return nullptr;
}
void* m___dynamic_cast( const void* p, const void*, const void* dst, long ) { const long* vt = *(const long* const*)p; return (void*)upTo( (const char*)p + vt[-2], (const void* const*)vt[-1], dst ); }
}
// ---------------------------------------------------------------- standard exceptions (layout: vtable pointer, text)
namespace { struct StdErr { virtual ~StdErr() {} virtual const char* what() const { return msg ? msg : "exception"; } const char* msg; }; struct PlaceT {}; }
inline void* operator new( size_t, void* p, PlaceT ) { return p; }
static void mkErr( void* p, const char* m ) { char* c = nullptr; if ( m ) { size_t n = strlen( m ) + 1; c = (char*)malloc( n ); memcpy( c, m, n ); } ( new ( p, PlaceT() ) StdErr )->msg = c; }
static void rmErr( StdErr* e ) { free( (void*)e->msg ); e->msg = nullptr; }
#define TI( sym, base ) extern const void* const sym[3]; const void* const sym[3] = { nullptr, #sym, base }
extern "C" {
TI( _ZTISt9exception, nullptr );
TI( _ZTISt13runtime_error, _ZTISt9exception ); TI( _ZTISt11logic_error, _ZTISt9exception ); TI( _ZTISt16invalid_argument, _ZTISt11logic_error ); TI( _ZTISt12out_of_range, _ZTISt11logic_error ); TI( _ZTISt12length_error, _ZTISt11logic_error ); TI( _ZTISt9bad_alloc, _ZTISt9exception ); TI( _ZTISt8bad_cast, _ZTISt9exception );
void m__ZNSt9exceptionD2Ev( void* ) {}
void m__ZNSt9exceptionD1Ev( void* ) {}
const char* m__ZNKSt9exception4whatEv( void* ) { return "std::exception"; }
#define STDERR( len, name ) \
	void m__ZNSt##len##name##C1EPKc( void* p, const char* m ) { mkErr( p, m ); } \
	void m__ZNSt##len##name##C2EPKc( void* p, const char* m ) { mkErr( p, m ); } \
	void m__ZNSt##len##name##C1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE( void* p, const char* const* m ) { mkErr( p, *m ); } \
	void m__ZNSt##len##name##C2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE( void* p, const char* const* m ) { mkErr( p, *m ); } \
	void m__ZNSt##len##name##C1ERKS_( void* p, StdErr* o ) { mkErr( p, o->msg ); } \
	void m__ZNSt##len##name##C2ERKS_( void* p, StdErr* o ) { mkErr( p, o->msg ); } \
	void m__ZNSt##len##name##D1Ev( StdErr* e ) { rmErr( e ); } \
	void m__ZNSt##len##name##D2Ev( StdErr* e ) { rmErr( e ); } \
	const char* m__ZNKSt##len##name##4whatEv( StdErr* e ) { return e->msg; }
STDERR( 13, runtime_error )
STDERR( 11, logic_error )
STDERR( 16, invalid_argument )
STDERR( 12, out_of_range )
STDERR( 12, length_error )
}

// rounding, as intrinsics and as library calls (std::unordered_map's rehash uses ceil)
static double fTrunc( double x ) { return x >= 4503599627370496.0 || x <= -4503599627370496.0 ? x : (double)(long long)x; }
static double fFloor( double x ) { double t = fTrunc( x ); return t > x ? t - 1 : t; }
static double fCeil( double x ) { double t = fTrunc( x ); return t < x ? t + 1 : t; }
static double fAbs( double x ) { return x < 0 ? 0.0 - x : x; }
static double fRound( double x ) { return x < 0 ? 0.0 - fFloor( 0.5 - x ) : fFloor( x + 0.5 ); }
#define FPFN( n, G ) \
	extern "C" double n##Id( double x ) __asm__( "m_llvm." #n ".f64" ); double n##Id( double x ) { return G( x ); } \
	extern "C" float n##If( float x ) __asm__( "m_llvm." #n ".f32" ); float n##If( float x ) { return (float)G( x ); } \
	extern "C" double m_##n( double x ) { return G( x ); } extern "C" float m_##n##f( float x ) { return (float)G( x ); }
FPFN( ceil, fCeil ) FPFN( floor, fFloor ) FPFN( trunc, fTrunc ) FPFN( round, fRound ) FPFN( fabs, fAbs )
