// Instantiates the conversion templates of /repo/src/efsw/Utf.hpp for plain pointers; linked with the code under test.
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <string>
#include <efsw/Utf.hpp>
using namespace efsw;
typedef const char* C8; typedef const Uint16* C16; typedef const Uint32* C32; typedef const wchar_t* CW;
extern "C" {
size_t u_8_8( C8 b, C8 e, char* o ) { return Utf<8>::toUtf8( b, e, o ) - o; }
size_t u_8_16( C8 b, C8 e, Uint16* o ) { return Utf<8>::ToUtf16( b, e, o ) - o; }
size_t u_8_32( C8 b, C8 e, Uint32* o ) { return Utf<8>::ToUtf32( b, e, o ) - o; }
size_t u_8_w( C8 b, C8 e, wchar_t* o ) { return Utf<8>::ToWide( b, e, o ) - o; }
size_t u_8_l( C8 b, C8 e, char* o, char r ) { return Utf<8>::ToLatin1( b, e, o, r ) - o; }
size_t u_16_8( C16 b, C16 e, char* o ) { return Utf<16>::toUtf8( b, e, o ) - o; }
size_t u_16_16( C16 b, C16 e, Uint16* o ) { return Utf<16>::ToUtf16( b, e, o ) - o; }
size_t u_16_32( C16 b, C16 e, Uint32* o ) { return Utf<16>::ToUtf32( b, e, o ) - o; }
size_t u_16_w( C16 b, C16 e, wchar_t* o ) { return Utf<16>::ToWide( b, e, o ) - o; }
size_t u_16_l( C16 b, C16 e, char* o, char r ) { return Utf<16>::ToLatin1( b, e, o, r ) - o; }
size_t u_32_8( C32 b, C32 e, char* o ) { return Utf<32>::toUtf8( b, e, o ) - o; }
size_t u_32_16( C32 b, C32 e, Uint16* o ) { return Utf<32>::ToUtf16( b, e, o ) - o; }
size_t u_32_32( C32 b, C32 e, Uint32* o ) { return Utf<32>::ToUtf32( b, e, o ) - o; }
size_t u_32_w( C32 b, C32 e, wchar_t* o ) { return Utf<32>::ToWide( b, e, o ) - o; }
size_t u_32_l( C32 b, C32 e, char* o, char r ) { return Utf<32>::ToLatin1( b, e, o, r ) - o; }
size_t u_w_8( CW b, CW e, char* o ) { return Utf<8>::FromWide( b, e, o ) - o; }
size_t u_w_16( CW b, CW e, Uint16* o ) { return Utf<16>::FromWide( b, e, o ) - o; }
size_t u_w_32( CW b, CW e, Uint32* o ) { return Utf<32>::FromWide( b, e, o ) - o; }
size_t u_l_8( const unsigned char* b, const unsigned char* e, char* o ) { return Utf<8>::FromLatin1( b, e, o ) - o; }
size_t u_l_16( const unsigned char* b, const unsigned char* e, Uint16* o ) { return Utf<16>::FromLatin1( b, e, o ) - o; }
size_t u_l_32( const unsigned char* b, const unsigned char* e, Uint32* o ) { return Utf<32>::FromLatin1( b, e, o ) - o; }
size_t u_count8( C8 b, C8 e ) { return Utf<8>::Count( b, e ); }
size_t u_count16( C16 b, C16 e ) { return Utf<16>::Count( b, e ); }
size_t u_count32( C32 b, C32 e ) { return Utf<32>::Count( b, e ); }
size_t u_next8( C8 b, C8 e ) { return Utf<8>::Next( b, e ) - b; }
size_t u_next16( C16 b, C16 e ) { return Utf<16>::Next( b, e ) - b; }
size_t u_next32( C32 b, C32 e ) { return Utf<32>::Next( b, e ) - b; }
size_t u_dec8( C8 b, C8 e, Uint32* o, Uint32 r ) { return Utf<8>::Decode( b, e, *o, r ) - b; }
size_t u_dec16( C16 b, C16 e, Uint32* o, Uint32 r ) { return Utf<16>::Decode( b, e, *o, r ) - b; }
size_t u_enc8( Uint32 c, char* o, Uint8 r ) { return Utf<8>::Encode( c, o, r ) - o; }
size_t u_enc16( Uint32 c, Uint16* o, Uint16 r ) { return Utf<16>::Encode( c, o, r ) - o; }
}
