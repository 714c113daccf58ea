// Intrinsics understood by the symbolic executor (engine/symx) and by the native replay runtime (model/replay_rt.cpp).
#pragma once
#include <cstdint>
#include <cstddef>
extern "C" {
void sx_symbolic( void* p, size_t n, const char* name );
uint8_t sx_u8( const char* name );
uint16_t sx_u16( const char* name );
uint32_t sx_u32( const char* name );
uint64_t sx_u64( const char* name );
uint32_t sx_range( uint32_t lo, uint32_t hi_excl, const char* name ); // symbolic value in [lo,hi)
uint32_t sx_choose( uint32_t n, const char* name );                   // symbolic value in [0,n), one path per value
uint64_t sx_concretize( uint64_t v );
void sx_assume( bool b );
void sx_check( bool b, const char* label );
[[noreturn]] void sx_fail( const char* label );
void sx_cover( const char* label );
void sx_note( const char* text );
void sx_notev( const char* text, uint64_t v );
uint32_t sx_param( const char* name, uint32_t def );
int sx_thread_create( void ( *fn )( void* ), void* arg );
int sx_self();
void sx_block( uint64_t key );
void sx_wake( uint64_t key );
void sx_sleep( uint64_t key );
void sx_sched();
void sx_preempt( int n );
void sx_hb_acquire( uint64_t key );
void sx_hb_release( uint64_t key );
uint64_t sx_heap_live();
uint64_t sx_leaks();
int sx_in_repo();
int sx_threads_live();
int sx_is_freed( const void* p );
void sx_race( int on );
[[noreturn]] void sx_end();
int sx_is_symbolic( uint64_t v );
int sx_maybe( bool b );
int sx_blocked_on( uint64_t key );
}
#define SX_WEAK __attribute__( ( weak ) )
