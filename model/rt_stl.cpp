// Out-of-line parts of libstdc++ that the code under test links against, for symbolic execution only
// (native replays use the real libstdc++). Functions that touch the caller's objects are weak, so that the
// engine attributes their accesses to the calling code.
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include <string>
#include <list>
#include <map>
#include <unordered_map>
#include <thread>
#include <mutex>
#include <condition_variable>
#include <chrono>
#include <typeinfo>
#include <cstring>
#include <cwchar>
#include <cstdlib>
#include <cstdarg>
#include "sx.h"

template class std::basic_string<char>;
template class std::basic_string<wchar_t>;
template class std::basic_string<char32_t>;
template class std::basic_string<char16_t>;

namespace std {
const nothrow_t nothrow = nothrow_t{};
namespace __detail {
SX_WEAK void _List_node_base::_M_hook( _List_node_base* p ) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
SX_WEAK void _List_node_base::_M_unhook() noexcept { _M_next->_M_prev = _M_prev; _M_prev->_M_next = _M_next; }
SX_WEAK void _List_node_base::swap( _List_node_base& x, _List_node_base& y ) noexcept {
	if ( x._M_next != &x ) {
		if ( y._M_next != &y ) { std::swap( x._M_next, y._M_next ); std::swap( x._M_prev, y._M_prev ); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
		else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; }
	} else if ( y._M_next != &y ) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; }
}
SX_WEAK void _List_node_base::_M_transfer( _List_node_base* first, _List_node_base* last ) noexcept {
	if ( this != last ) { last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; this->_M_prev->_M_next = first;
		_List_node_base* tmp = this->_M_prev; this->_M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = tmp; }
}
SX_WEAK void _List_node_base::_M_reverse() noexcept { _List_node_base* t = this; do { std::swap( t->_M_next, t->_M_prev ); t = t->_M_prev; } while ( t != this ); }

static const unsigned long primes[] = { 2, 5, 11, 13, 29, 59, 127, 257, 541, 1109, 2357, 5087, 10273, 20753 };
SX_WEAK size_t _Prime_rehash_policy::_M_next_bkt( size_t n ) const {
	size_t r = 20753;
	for ( unsigned long p : primes ) if ( p >= n ) { r = p; break; }
	_M_next_resize = r; return r;
}
SX_WEAK std::pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash( size_t bkt, size_t elt, size_t ins ) const {
	if ( elt + ins > _M_next_resize ) {
		size_t want = elt + ins; if ( !_M_next_resize && want < 11 ) want = 11;
		if ( want >= bkt ) { size_t g = bkt * 2; return { true, _M_next_bkt( want + 1 > g ? want + 1 : g ) }; }
		_M_next_resize = bkt; return { false, 0 };
	}
	return { false, 0 };
}
}
// depends on the length only: symbolic keys of known length land in a known bucket (any deterministic hash is legal)
SX_WEAK size_t _Hash_bytes( const void*, size_t len, size_t seed ) { return len * 31 + ( seed & 7 ); }
SX_WEAK size_t _Fnv_hash_bytes( const void*, size_t len, size_t seed ) { return len * 31 + ( seed & 7 ); }

typedef _Rb_tree_node_base* BP;
SX_WEAK BP rb_inc( BP x ) throw() {
	if ( x->_M_right ) { x = x->_M_right; while ( x->_M_left ) x = x->_M_left; }
	else { BP y = x->_M_parent; while ( x == y->_M_right ) { x = y; y = y->_M_parent; } if ( x->_M_right != y ) x = y; }
	return x;
}
SX_WEAK BP rb_dec( BP x ) throw() {
	if ( x->_M_color == _S_red && x->_M_parent->_M_parent == x ) x = x->_M_right;
	else if ( x->_M_left ) { BP y = x->_M_left; while ( y->_M_right ) y = y->_M_right; x = y; }
	else { BP y = x->_M_parent; while ( x == y->_M_left ) { x = y; y = y->_M_parent; } x = y; }
	return x;
}
SX_WEAK _Rb_tree_node_base* _Rb_tree_increment( _Rb_tree_node_base* x ) throw() { return rb_inc( x ); }
SX_WEAK const _Rb_tree_node_base* _Rb_tree_increment( const _Rb_tree_node_base* x ) throw() { return rb_inc( const_cast<BP>( x ) ); }
SX_WEAK _Rb_tree_node_base* _Rb_tree_decrement( _Rb_tree_node_base* x ) throw() { return rb_dec( x ); }
SX_WEAK const _Rb_tree_node_base* _Rb_tree_decrement( const _Rb_tree_node_base* x ) throw() { return rb_dec( const_cast<BP>( x ) ); }
// no rebalancing: any valid binary search tree behaves the same; colours only mark the header (red) for decrement
SX_WEAK void _Rb_tree_insert_and_rebalance( const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h ) throw() {
	x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_black;
	if ( left ) { p->_M_left = x; if ( p == &h ) { h._M_parent = x; h._M_right = x; } else if ( p == h._M_left ) h._M_left = x; }
	else { p->_M_right = x; if ( p == h._M_right ) h._M_right = x; }
}
SX_WEAK _Rb_tree_node_base* _Rb_tree_rebalance_for_erase( _Rb_tree_node_base* const z, _Rb_tree_node_base& h ) throw() {
	BP& root = h._M_parent; BP& lm = h._M_left; BP& rm = h._M_right; BP y = z, x = 0;
	if ( y->_M_left == 0 ) x = y->_M_right;
	else if ( y->_M_right == 0 ) x = y->_M_left;
	else { y = y->_M_right; while ( y->_M_left ) y = y->_M_left; x = y->_M_right; }
	if ( y != z ) {
		z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
		if ( y != z->_M_right ) { if ( x ) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; }
		if ( root == z ) root = y; else if ( z->_M_parent->_M_left == z ) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y;
		y->_M_parent = z->_M_parent;
	} else {
		if ( x ) x->_M_parent = y->_M_parent;
		if ( root == z ) root = x; else if ( z->_M_parent->_M_left == z ) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
		if ( lm == z ) { if ( z->_M_right == 0 ) lm = z->_M_parent; else { BP m = x; while ( m->_M_left ) m = m->_M_left; lm = m; } }
		if ( rm == z ) { if ( z->_M_left == 0 ) rm = z->_M_parent; else { BP m = x; while ( m->_M_right ) m = m->_M_right; rm = m; } }
	}
	return z;
}
std::thread::_State::~_State() = default;
__thread void* __once_callable; __thread void ( *__once_call )();
SX_WEAK void __once_proxy_body() { __once_call(); }
}

extern "C" {
void __once_proxy() { std::__once_call(); }
int m___cxa_atexit( void ( * )( void* ), void*, void* ) { return 0; }
int m___cxa_guard_acquire( uint64_t* g ) {
	sx_hb_acquire( (uint64_t)g );
	for ( ;; ) {
		unsigned char* b = (unsigned char*)g;
		if ( b[0] ) return 0;
		if ( !b[1] ) { b[1] = 1; return 1; }
		sx_block( (uint64_t)g ); sx_hb_acquire( (uint64_t)g );
	}
}
void m___cxa_guard_release( uint64_t* g ) { ( (unsigned char*)g )[0] = 1; ( (unsigned char*)g )[1] = 0; sx_hb_release( (uint64_t)g ); sx_wake( (uint64_t)g ); }
void m___cxa_guard_abort( uint64_t* g ) { ( (unsigned char*)g )[1] = 0; sx_wake( (uint64_t)g ); }
void m__ZNSt8ios_base4InitC1Ev( void* ) {}
void m__ZNSt8ios_base4InitD1Ev( void* ) {}
}

// pure string functions: weak, executed as part of the caller
extern "C" {
SX_WEAK int m_strcmp( const char* a, const char* b ) { while ( *a && *a == *b ) { a++; b++; } return (unsigned char)*a - (unsigned char)*b; }
SX_WEAK int m_strncmp( const char* a, const char* b, size_t n ) { for ( ; n; n--, a++, b++ ) { if ( *a != *b ) return (unsigned char)*a - (unsigned char)*b; if ( !*a ) return 0; } return 0; }
static inline int lc( int c ) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
SX_WEAK int m_strcasecmp( const char* a, const char* b ) { while ( *a && lc( *a ) == lc( *b ) ) { a++; b++; } return lc( (unsigned char)*a ) - lc( (unsigned char)*b ); }
SX_WEAK char* m_strcpy( char* d, const char* s ) { char* r = d; while ( ( *d++ = *s++ ) ) {} return r; }
SX_WEAK char* m_strncpy( char* d, const char* s, size_t n ) { size_t i = 0; for ( ; i < n && s[i]; i++ ) d[i] = s[i]; for ( ; i < n; i++ ) d[i] = 0; return d; }
SX_WEAK char* m_strcat( char* d, const char* s ) { char* r = d; while ( *d ) d++; while ( ( *d++ = *s++ ) ) {} return r; }
SX_WEAK char* m_strchr( const char* s, int c ) { for ( ;; s++ ) { if ( *s == (char)c ) return (char*)s; if ( !*s ) return 0; } }
SX_WEAK char* m_strrchr( const char* s, int c ) { const char* r = 0; for ( ;; s++ ) { if ( *s == (char)c ) r = s; if ( !*s ) return (char*)r; } }
SX_WEAK char* m_strstr( const char* h, const char* n ) { for ( ;; h++ ) { size_t i = 0; while ( n[i] && h[i] == n[i] ) i++; if ( !n[i] ) return (char*)h; if ( !*h ) return 0; } }
SX_WEAK size_t m_strnlen( const char* s, size_t n ) { size_t i = 0; while ( i < n && s[i] ) i++; return i; }
SX_WEAK char* m_strdup( const char* s ) { size_t n = strlen( s ) + 1; char* r = (char*)malloc( n ); memcpy( r, s, n ); return r; }
SX_WEAK size_t m_wcslen( const wchar_t* s ) { size_t i = 0; while ( s[i] ) i++; return i; }
SX_WEAK int m_wmemcmp( const wchar_t* a, const wchar_t* b, size_t n ) { for ( ; n; n--, a++, b++ ) if ( *a != *b ) return *a < *b ? -1 : 1; return 0; }
SX_WEAK wchar_t* m_wmemcpy( wchar_t* d, const wchar_t* s, size_t n ) { memcpy( d, s, n * sizeof( wchar_t ) ); return d; }
SX_WEAK wchar_t* m_wmemmove( wchar_t* d, const wchar_t* s, size_t n ) { memmove( d, s, n * sizeof( wchar_t ) ); return d; }
SX_WEAK wchar_t* m_wmemset( wchar_t* d, wchar_t c, size_t n ) { for ( size_t i = 0; i < n; i++ ) d[i] = c; return d; }
SX_WEAK wchar_t* m_wmemchr( const wchar_t* s, wchar_t c, size_t n ) { for ( ; n; n--, s++ ) if ( *s == c ) return (wchar_t*)s; return 0; }
SX_WEAK char* m_dirname( char* p ) { // POSIX dirname(3)
	static char dot[] = "."; if ( !p || !*p ) return dot;
	size_t n = strlen( p ); while ( n > 1 && p[n - 1] == '/' ) n--;
	while ( n > 0 && p[n - 1] != '/' ) n--;
	if ( n == 0 ) return dot;
	while ( n > 1 && p[n - 1] == '/' ) n--;
	p[n] = 0; return p;
}
SX_WEAK char* m_basename( char* p ) { char* r = m_strrchr( p, '/' ); return r ? r + 1 : p; }
SX_WEAK int m_toupper( int c ) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
SX_WEAK int m_tolower( int c ) { return lc( c ); }
SX_WEAK int m_isspace( int c ) { return c == ' ' || ( c >= 9 && c <= 13 ); }
SX_WEAK int m_atoi( const char* s ) { int r = 0; bool n = false; if ( *s == '-' ) { n = true; s++; } while ( *s >= '0' && *s <= '9' ) r = r * 10 + ( *s++ - '0' ); return n ? -r : r; }
// text output is not the subject of any property: formatting has an empty body
int m_printf( const char*, ... ) { return 0; }
int m_fprintf( void*, const char*, ... ) { return 0; }
int m_puts( const char* ) { return 0; }
int m_putchar( int ) { return 0; }
int m_fputs( const char*, void* ) { return 0; }
int m_fflush( void* ) { return 0; }
int m_vfprintf( void*, const char*, void* ) { return 0; }
int m_vprintf( const char*, void* ) { return 0; }
size_t m_fwrite( const void*, size_t, size_t n, void* ) { return n; }
void* m_fopen( const char*, const char* ) { return 0; }
int m_fclose( void* ) { return 0; }
void* stderr_model; 
}
