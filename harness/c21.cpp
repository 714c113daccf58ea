// C21: Unicode conversions, every code point / code unit symbolic.
#include "common.h"
#include <efsw/String.hpp>
typedef uint16_t U16; typedef uint32_t U32; typedef const char* C8; typedef const U16* C16; typedef const U32* C32; typedef const wchar_t* CW;
extern "C" {
size_t u_8_8( C8, C8, char* ); size_t u_8_16( C8, C8, U16* ); size_t u_8_32( C8, C8, U32* ); size_t u_8_w( C8, C8, wchar_t* ); size_t u_8_l( C8, C8, char*, char );
size_t u_16_8( C16, C16, char* ); size_t u_16_16( C16, C16, U16* ); size_t u_16_32( C16, C16, U32* ); size_t u_16_w( C16, C16, wchar_t* ); size_t u_16_l( C16, C16, char*, char );
size_t u_32_8( C32, C32, char* ); size_t u_32_16( C32, C32, U16* ); size_t u_32_32( C32, C32, U32* ); size_t u_32_w( C32, C32, wchar_t* ); size_t u_32_l( C32, C32, char*, char );
size_t u_w_8( CW, CW, char* ); size_t u_w_16( CW, CW, U16* ); size_t u_w_32( CW, CW, U32* );
size_t u_l_8( const unsigned char*, const unsigned char*, char* ); size_t u_l_16( const unsigned char*, const unsigned char*, U16* ); size_t u_l_32( const unsigned char*, const unsigned char*, U32* );
size_t u_count8( C8, C8 ); size_t u_count16( C16, C16 ); size_t u_count32( C32, C32 ); size_t u_next8( C8, C8 ); size_t u_next16( C16, C16 ); size_t u_next32( C32, C32 );
size_t u_dec8( C8, C8, U32*, U32 ); size_t u_dec16( C16, C16, U32*, U32 ); size_t u_enc8( U32, char*, uint8_t ); size_t u_enc16( U32, U16*, U16 );
}
enum { MAXU = 320 };
template <class T> struct Buf { T* p; int n; Buf() : p( (T*)malloc( MAXU * sizeof( T ) ) ), n( 0 ) {} explicit Buf( int k ) : p( (T*)malloc( k * sizeof( T ) + ( k == 0 ) ) ), n( k ) {} ~Buf() { free( p ); } void put( U32 v ) { p[n++] = (T)v; } const T* b() const { return p; } const T* e() const { return p + n; } };
template <class T, class S> static bool same( const T* a, size_t n, const S* b, size_t m ) { if ( n != m ) return false; U32 d = 0; for ( size_t i = 0; i < n; i++ ) d |= (U32)a[i] ^ (U32)b[i]; return d == 0; }
template <class T> static Buf<T>& exact( Buf<T>& x ) { T* q = (T*)malloc( x.n * sizeof( T ) + ( x.n == 0 ) ); for ( int i = 0; i < x.n; i++ ) q[i] = x.p[i]; free( x.p ); x.p = q; return x; } // reading past the end is an error
static void ref8( Buf<unsigned char>& o, U32 c ) { if ( c < 0x80 ) o.put( c ); else if ( c < 0x800 ) { o.put( 0xC0 | ( c >> 6 ) ); o.put( 0x80 | ( c & 0x3F ) ); } else if ( c < 0x10000 ) { o.put( 0xE0 | ( c >> 12 ) ); o.put( 0x80 | ( c >> 6 & 0x3F ) ); o.put( 0x80 | ( c & 0x3F ) ); } else { o.put( 0xF0 | ( c >> 18 ) ); o.put( 0x80 | ( c >> 12 & 0x3F ) ); o.put( 0x80 | ( c >> 6 & 0x3F ) ); o.put( 0x80 | ( c & 0x3F ) ); } }
static void ref16( Buf<U16>& o, U32 c ) { if ( c < 0x10000 ) o.put( c ); else { o.put( 0xD800 + ( ( c - 0x10000 ) >> 10 ) ); o.put( 0xDC00 + ( ( c - 0x10000 ) & 0x3FF ) ); } }
static bool valid8( const unsigned char* p, size_t n ) { // RFC 3629
	for ( size_t i = 0; i < n; ) { unsigned c = p[i]; size_t k; U32 v; if ( c < 0x80 ) { i++; continue; } if ( c < 0xC2 ) return false; if ( c < 0xE0 ) { k = 1; v = c & 0x1F; } else if ( c < 0xF0 ) { k = 2; v = c & 0x0F; } else if ( c < 0xF5 ) { k = 3; v = c & 7; } else return false;
		if ( i + k >= n ) return false; unsigned bad = 0; for ( size_t j = 1; j <= k; j++ ) { bad |= ( p[i + j] & 0xC0 ) ^ 0x80; v = v << 6 | ( p[i + j] & 0x3F ); } if ( bad ) return false; if ( k == 2 && ( ( v < 0x800 ) | ( ( v >= 0xD800 ) & ( v < 0xE000 ) ) ) ) return false; if ( k == 3 && ( ( v < 0x10000 ) | ( v > 0x10FFFF ) ) ) return false; i += k + 1; }
	return true; }
static bool valid16( const U16* p, size_t n ) { for ( size_t i = 0; i < n; i++ ) { if ( p[i] < 0xD800 || p[i] > 0xDFFF ) continue; if ( p[i] > 0xDBFF || i + 1 >= n || p[i + 1] < 0xDC00 || p[i + 1] > 0xDFFF ) return false; i++; } return true; }
static void roundtrip( int N ) {
	int pad = sx_param( "pad", 0 ), k = pad + 1 + sx_choose( N, "code points" ); Buf<U32> c; Buf<unsigned char> a; Buf<U16> u; Buf<wchar_t> w; bool latin = true;
	for ( int i = 0; i < k; i++ ) { U32 v = i < pad ? i % 5 == 4 ? 0x1F600 + i : i % 5 == 3 ? 0x20AC : 'a' + i % 26 : sx_u32( "code point" ); sx_assume( ( v <= 0x10FFFF ) & ( ( v < 0xD800 ) | ( v > 0xDFFF ) ) ); c.put( v ); ref8( a, v ); ref16( u, v ); w.put( v ); }
	int n8 = a.n, n16 = u.n; exact( a ); exact( u ); exact( c ); exact( w ); C8 ab = (C8)a.b(), ae = ab + n8;
	{ Buf<unsigned char> o; sx_check( same( o.p, u_32_8( c.b(), c.e(), (char*)o.p ), a.p, n8 ), "UTF-32 to UTF-8" ); sx_check( same( o.p, u_16_8( u.b(), u.e(), (char*)o.p ), a.p, n8 ), "UTF-16 to UTF-8" ); sx_check( same( o.p, u_w_8( w.b(), w.e(), (char*)o.p ), a.p, n8 ), "wide to UTF-8" ); sx_check( same( o.p, u_8_8( ab, ae, (char*)o.p ), a.p, n8 ), "UTF-8 to UTF-8" ); }
	{ Buf<U16> o; sx_check( same( o.p, u_32_16( c.b(), c.e(), o.p ), u.p, n16 ), "UTF-32 to UTF-16" ); sx_check( same( o.p, u_8_16( ab, ae, o.p ), u.p, n16 ), "UTF-8 to UTF-16" ); sx_check( same( o.p, u_w_16( w.b(), w.e(), o.p ), u.p, n16 ), "wide to UTF-16" ); sx_check( same( o.p, u_16_16( u.b(), u.e(), o.p ), u.p, n16 ), "UTF-16 to UTF-16" ); }
	{ Buf<U32> o; sx_check( same( o.p, u_8_32( ab, ae, o.p ), c.p, k ), "UTF-8 to UTF-32" ); sx_check( same( o.p, u_16_32( u.b(), u.e(), o.p ), c.p, k ), "UTF-16 to UTF-32" ); sx_check( same( o.p, u_w_32( w.b(), w.e(), o.p ), c.p, k ), "wide to UTF-32" ); sx_check( same( o.p, u_32_32( c.b(), c.e(), o.p ), c.p, k ), "UTF-32 to UTF-32" ); }
	{ Buf<wchar_t> o; sx_check( same( o.p, u_8_w( ab, ae, o.p ), c.p, k ), "UTF-8 to wide" ); sx_check( same( o.p, u_16_w( u.b(), u.e(), o.p ), c.p, k ), "UTF-16 to wide" ); sx_check( same( o.p, u_32_w( c.b(), c.e(), o.p ), c.p, k ), "UTF-32 to wide" ); }
	sx_check( u_count8( ab, ae ) == (size_t)k && u_count16( u.b(), u.e() ) == (size_t)k && u_count32( c.b(), c.e() ) == (size_t)k, "the code points are counted" );
	{ size_t o8 = 0, o16 = 0; for ( int i = 0; i < k; i++ ) { U32 d = 0; o8 += u_dec8( ab + o8, ae, &d, 7 ); sx_check( d == c.p[i], "UTF-8 code points are decoded one by one" ); o16 += u_dec16( u.b() + o16, u.e(), &d, 7 ); sx_check( d == c.p[i], "UTF-16 code points are decoded one by one" ); } sx_check( o8 == (size_t)n8 && o16 == (size_t)n16, "every code unit belongs to a code point" ); sx_check( u_next8( ab, ae ) <= 4 && u_next32( c.b(), c.e() ) == 1, "Next goes to the next code point" ); }
	bool nul = false; for ( int i = 0; i < k; i++ ) nul |= c.p[i] == 0;
	std::string s( (C8)a.p, n8 ); efsw::String e = efsw::String::fromUtf8( s ), e2( s ); sx_check( e.size() == (size_t)k && same( e.c_str(), e.size(), c.p, k ) && same( e2.c_str(), e2.size(), c.p, k ), "String holds the code points" );
	std::string back = e.toUtf8(); sx_check( same( (const unsigned char*)back.data(), back.size(), a.p, n8 ), "String gives the UTF-8 back" ); std::wstring ww = e.toWideString(); sx_check( same( ww.data(), ww.size(), c.p, k ), "String gives wide characters" ); efsw::String ew( ww ); sx_check( same( ew.c_str(), ew.size(), c.p, k ), "String takes wide characters" );
	if ( !nul ) { efsw::String ez( s.c_str() ); sx_check( same( ez.c_str(), ez.size(), c.p, k ), "String takes C strings" ); }
	sx_cover( n8 == 4 * k || ( pad && n8 > 3 * k ) ? "astral" : n8 == k ? "ASCII" : "other" );
}
static void latin( int N ) {
	int k = 1 + sx_choose( N, "characters" ); Buf<unsigned char> l( k ), a; Buf<U16> u( k ); Buf<U32> c( k ); for ( int i = 0; i < k; i++ ) { unsigned char b = sx_u8( "character" ); l.p[i] = b; u.p[i] = b; c.p[i] = b; ref8( a, b ); } exact( a );
	{ Buf<unsigned char> o; sx_check( same( o.p, u_l_8( l.b(), l.e(), (char*)o.p ), a.p, a.n ), "Latin-1 to UTF-8" ); Buf<U16> o2; sx_check( same( o2.p, u_l_16( l.b(), l.e(), o2.p ), u.p, k ), "Latin-1 to UTF-16" ); Buf<U32> o3; sx_check( same( o3.p, u_l_32( l.b(), l.e(), o3.p ), c.p, k ), "Latin-1 to UTF-32" ); }
	{ Buf<unsigned char> o; sx_check( same( o.p, u_8_l( (C8)a.b(), (C8)a.e(), (char*)o.p, '?' ), l.p, k ), "UTF-8 to Latin-1" ); sx_check( same( o.p, u_16_l( u.b(), u.e(), (char*)o.p, '?' ), l.p, k ), "UTF-16 to Latin-1" ); sx_check( same( o.p, u_32_l( c.b(), c.e(), (char*)o.p, '?' ), l.p, k ), "UTF-32 to Latin-1" ); } sx_cover( "Latin-1" );
}
static void malformed8( int N ) {
	int pad = sx_param( "pad", 0 ), n = pad + sx_choose( N + 1, "bytes" ); Buf<char> a( n ); for ( int i = 0; i < n; i++ ) a.p[i] = i < pad ? 'a' + i % 26 : (char)sx_u8( "byte" ); U32 rep = sx_u32( "replacement" );
	Buf<U16> o16; size_t k16 = u_8_16( a.b(), a.e(), o16.p ); sx_check( k16 <= 2 * (size_t)n && valid16( o16.p, k16 ), "whatever is decoded, the UTF-16 produced is well-formed" );
	Buf<U32> o32; size_t k32 = u_8_32( a.b(), a.e(), o32.p ); sx_check( k32 <= (size_t)n, "no more code points than bytes" ); Buf<unsigned char> o8; size_t k8 = u_32_8( o32.p, o32.p + k32, (char*)o8.p ); sx_check( valid8( o8.p, k8 ), "whatever is decoded, the UTF-8 produced is well-formed" );
	sx_check( u_count8( a.b(), a.e() ) == k32, "Count agrees with the number of decoded characters" ); Buf<wchar_t> ow; sx_check( u_8_w( a.b(), a.e(), ow.p ) == k32, "as many wide characters as code points" );
	size_t at = 0; int steps = 0; while ( at < (size_t)n ) { U32 d; size_t s = u_dec8( a.b() + at, a.e(), &d, rep ); sx_check( s > 0 && s <= n - at, "decoding advances and stays inside the input" ); at += s; steps++; } sx_check( steps == (int)k32, "Decode and ToUtf32 agree" );
	if ( valid8( (unsigned char*)a.p, n ) ) { sx_check( same( o8.p, k8, (unsigned char*)a.p, n ), "well-formed UTF-8 comes back unchanged" ); sx_cover( "well-formed" ); } else sx_cover( "malformed" );
	std::string s( a.p, n ); efsw::String e( s ); std::string t = e.toUtf8(); sx_check( valid8( (const unsigned char*)t.data(), t.size() ), "String produces well-formed UTF-8" );
}
static void malformed16( int N ) {
	int n = sx_choose( N + 1, "units" ); Buf<U16> a( n ); for ( int i = 0; i < n; i++ ) a.p[i] = sx_u16( "unit" ); U32 rep = sx_u32( "replacement" );
	Buf<unsigned char> o8; size_t k8 = u_16_8( a.b(), a.e(), (char*)o8.p ); sx_check( k8 <= 3 * (size_t)n && valid8( o8.p, k8 ), "whatever is decoded, the UTF-8 produced is well-formed" );
	Buf<U32> o32; size_t k32 = u_16_32( a.b(), a.e(), o32.p ); sx_check( k32 <= (size_t)n && u_count16( a.b(), a.e() ) == k32, "Count agrees with the number of decoded characters" ); Buf<U16> o16; size_t k16 = u_32_16( o32.p, o32.p + k32, o16.p ); sx_check( valid16( o16.p, k16 ), "whatever is decoded, the UTF-16 produced is well-formed" );
	size_t at = 0; while ( at < (size_t)n ) { U32 d; size_t s = u_dec16( a.b() + at, a.e(), &d, rep ); sx_check( s > 0 && s <= n - at, "decoding advances and stays inside the input" ); at += s; }
	if ( valid16( a.p, n ) ) { sx_check( same( o16.p, k16, a.p, n ), "well-formed UTF-16 comes back unchanged" ); sx_cover( "well-formed" ); } else sx_cover( "malformed" );
}
static void malformed32( int N ) {
	int n = 1 + sx_choose( N, "values" ); Buf<U32> a( n ); for ( int i = 0; i < n; i++ ) a.p[i] = sx_u32( "value" ); Buf<unsigned char> o8; size_t k8 = u_32_8( a.b(), a.e(), (char*)o8.p ); sx_check( valid8( o8.p, k8 ), "whatever the values, the UTF-8 produced is well-formed" ); Buf<U16> o16; size_t k16 = u_32_16( a.b(), a.e(), o16.p ); sx_check( valid16( o16.p, k16 ), "whatever the values, the UTF-16 produced is well-formed" );
	Buf<wchar_t> w( n ); for ( int i = 0; i < n; i++ ) w.p[i] = (wchar_t)a.p[i]; Buf<unsigned char> p8; size_t j8 = u_w_8( w.b(), w.e(), (char*)p8.p ); sx_check( same( p8.p, j8, o8.p, k8 ), "wide characters are converted like UTF-32" );
	uint8_t r8 = sx_u8( "replacement" ); sx_assume( r8 < 0x80 ); char one[8]; size_t k = u_enc8( a.p[0], one, r8 ); bool ok = a.p[0] <= 0x10FFFF && ( a.p[0] < 0xD800 || a.p[0] > 0xDFFF ); if ( !ok ) { sx_check( r8 ? k == 1 && (uint8_t)one[0] == r8 : k == 0, "what cannot be encoded is replaced or skipped" ); sx_cover( "malformed" ); } else sx_cover( "well-formed" );
	U16 t16[4]; k = u_enc16( a.p[0], t16, r8 ); if ( !ok ) sx_check( r8 ? k == 1 && t16[0] == r8 : k == 0, "what cannot be encoded is replaced or skipped" );
}
extern "C" void harness() {
	init(); int n = sx_param( "n", 2 );
	switch ( sx_param( "part", 0 ) ) { case 0: roundtrip( n ); break; case 1: latin( n ); break; case 2: malformed8( n ); break; case 3: malformed16( n ); break; default: malformed32( n ); }
}
