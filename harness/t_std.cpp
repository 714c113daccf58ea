#include "common.h"
#include <algorithm>
#include <array>
#include <atomic>
#include <bitset>
#include <chrono>
#include <condition_variable>
#include <deque>
#include <forward_list>
#include <functional>
#include <future>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <queue>
#include <set>
#include <stack>
#include <stdexcept>
#include <thread>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <cctype>
#include <cinttypes>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <cwchar>
#include <cerrno>
extern "C" void harness() {
	init(); int part = sx_param( "part", 0 );
	if ( part == 0 ) { std::list<int> l{ 3, 1, 2 }; l.sort(); l.push_front( 0 ); l.remove( 1 ); std::list<int> l2; l2.splice( l2.end(), l ); sx_check( l2.size() == 3 && l2.back() == 3, "list" ); l2.reverse(); }
	if ( part == 1 ) { std::vector<int> v{ 3, 1, 2, 9, 8 }; std::stable_sort( v.begin(), v.end() ); std::reverse( v.begin(), v.end() ); std::rotate( v.begin(), v.begin() + 1, v.end() ); auto it = std::unique( v.begin(), v.end() ); v.erase( it, v.end() ); std::sort( v.rbegin(), v.rend() ); std::nth_element( v.begin(), v.begin() + 1, v.end() ); std::partial_sort( v.begin(), v.begin() + 2, v.end() ); sx_check( std::accumulate( v.begin(), v.end(), 0 ) == 23, "v" ); std::make_heap( v.begin(), v.end() ); std::stable_partition( v.begin(), v.end(), []( int x ) { return x > 2; } ); }
	if ( part == 2 ) { auto p = std::make_shared<std::string>( "hello world this is long" ); std::weak_ptr<std::string> w = p; { auto q = w.lock(); sx_check( q->size() > 3, "q" ); } std::unique_ptr<int[]> u( new int[4] ); auto f = std::bind( []( int a, int b ) { return a - b; }, std::placeholders::_2, std::placeholders::_1 ); sx_check( f( 1, 3 ) == 2, "bind" ); p.reset(); sx_check( w.expired(), "expired" ); struct E : std::enable_shared_from_this<E> {}; auto e = std::make_shared<E>(); auto e2 = e->shared_from_this(); std::atomic_store( &e, e2 ); }
	if ( part == 3 ) { std::unordered_set<std::string> s; for ( int i = 0; i < 40; i++ ) s.insert( "k" + std::to_string( i ) ); sx_check( s.count( "k39" ) == 1, "us" ); std::unordered_multimap<int, int> m; m.insert( { 1, 2 } ); m.insert( { 1, 3 } ); m.rehash( 100 ); m.reserve( 30 ); sx_check( m.count( 1 ) == 2, "mm" ); s.erase( "k1" ); s.clear(); std::unordered_map<std::string, std::vector<int>> q; q["a"].push_back( 1 ); q.emplace( "b", std::vector<int>{} ); }
	if ( part == 4 ) { std::set<std::string> s{ "b", "a" }; std::multiset<int> ms{ 1, 1, 2 }; ms.erase( ms.lower_bound( 1 ), ms.upper_bound( 1 ) ); std::map<int, int> m; m[3] = 1; m.insert( m.begin(), { 1, 2 } ); std::map<int, int> c = m; sx_check( c == m, "map" ); std::swap( c, m ); auto r = m.equal_range( 3 ); (void)r; for ( auto it = m.rbegin(); it != m.rend(); ++it ) {} m.erase( 3 ); std::priority_queue<int> pq; pq.push( 1 ); pq.push( 5 ); sx_check( pq.top() == 5, "pq" ); }
	if ( part == 5 ) { std::deque<std::string> d; for ( int i = 0; i < 40; i++ ) d.push_back( "x" ); d.push_front( "y" ); d.pop_back(); d.insert( d.begin() + 3, "q" ); std::stack<int> s; s.push( 1 ); std::queue<std::string> q; q.push( "a" ); q.pop(); std::bitset<70> b; b.set( 3 ); sx_check( b.count() == 1, "b" ); std::forward_list<int> fl{ 2, 1 }; fl.sort(); std::array<int, 3> a{ { 1, 2, 3 } }; a.fill( 1 ); std::vector<bool> vb( 77 ); vb[3] = true; vb.push_back( true ); sx_check( std::count( vb.begin(), vb.end(), true ) == 2, "vb" ); }
	if ( part == 6 ) { std::string s = "abc/def/ghi"; s.replace( 1, 2, "xxxxxxxxxxxxxxxxxxxx" ); s.insert( 2, "q" ); s.erase( 3, 2 ); s.resize( 40, 'c' ); s.append( 3, 'd' ); s.assign( "hello" ); s += std::string( "b" ) + 'c'; s.push_back( 'z' ); s.pop_back(); sx_check( s.compare( 0, 3, "hel" ) == 0 && s.find( "lo" ) == 3 && s.rfind( 'l' ) == 3 && s.find_first_of( "xyzl" ) == 2 && s.find_last_not_of( "c" ) == 5 && s.find_first_not_of( "h" ) == 1, "str" ); s.reserve( 100 ); s.shrink_to_fit(); std::string t( s.begin(), s.end() ); std::swap( s, t ); t.swap( s ); s.copy( &t[0], 2, 0 ); std::wstring w = L"wide"; w += L"x"; std::u32string u = U"abc"; u += U'd'; std::u16string v( u.begin(), u.end() ); sx_check( std::stoi( "42" ) == 42 && std::stoul( "7" ) == 7 && std::stoll( "-9" ) == -9, "stoi" ); sx_check( std::hash<std::string>()( "a" ) != 0, "hash" ); try { s.at( 100 ); } catch ( const std::out_of_range& ) { sx_cover( "oor" ); } std::lexicographical_compare( s.begin(), s.end(), t.begin(), t.end() ); bool eq = s == "x" || "x" < s; (void)eq; }
	if ( part == 7 ) { char b[100]; snprintf( b, sizeof b, "%d %s %u %ld %lu %zu %c %x %p %5d %05d %-5s| %lld %llu %.3s", 1, "a", 2u, 3L, 4UL, (size_t)5, 'c', 255, (void*)b, 3, 4, "ab", 1LL, 2ULL, "abcdef" ); sx_check( strncmp( b, "1 a 2 3 4 5 c ff ", 17 ) == 0, "snprintf" ); sprintf( b, "%s/%s", "a", "b" ); sx_check( strcmp( b, "a/b" ) == 0, "sprintf" ); strncpy( b, "abc", 50 ); strncat( b, "d", 2 ); strcat( b, "e" ); sx_check( strrchr( b, 'd' ) && strchr( b, 'a' ) && strstr( b, "cd" ) && !strpbrk( b, "xyz" ) && strspn( b, "ab" ) == 2 && strcspn( b, "c" ) == 2 && strnlen( b, 3 ) == 3, "str*" ); char* sv; char t[] = "a,b"; sx_check( strtok_r( t, ",", &sv ) && strtok_r( nullptr, ",", &sv ), "strtok_r" ); char* d = strdup( b ); char* d2 = strndup( b, 2 ); free( d ); free( d2 ); sx_check( memchr( b, 'c', 5 ) && !memcmp( b, "ab", 2 ) && atoi( "12" ) == 12 && strtol( "0x10", nullptr, 16 ) == 16 && strtoul( "8", nullptr, 10 ) == 8, "conv" ); memmove( b + 1, b, 5 ); sx_check( isalpha( 'a' ) && isdigit( '3' ) && isspace( ' ' ) && toupper( 'a' ) == 'A' && tolower( 'B' ) == 'b' && !strcasecmp( "aB", "Ab" ) && !strncasecmp( "aBx", "Aby", 2 ), "ctype" ); void* p = calloc( 3, 4 ); p = realloc( p, 100 ); free( p ); int i[3] = { 3, 1, 2 }; qsort( i, 3, 4, []( const void* a, const void* b ) { return *(int*)a - *(int*)b; } ); sx_check( i[0] == 1, "qsort" ); fprintf( stderr, "x %d\n", 3 ); printf( "a\n" ); puts( "b" ); fputs( "c", stderr ); fflush( stdout ); perror( "x" ); abs( -3 ); sx_check( ceil( 2.5 ) == 3.0 && floor( 2.5 ) == 2.0 && round( -2.5 ) == -3.0 && -ceil( (double)sx_param( "part", 0 ) ) == -7.0, "math" ); }
	if ( part == 8 ) { auto t0 = std::chrono::steady_clock::now(); auto t1 = std::chrono::system_clock::now(); std::this_thread::sleep_for( std::chrono::milliseconds( 3 ) ); sx_check( std::chrono::steady_clock::now() >= t0, "clock" ); (void)t1; std::mutex m; std::condition_variable cv; { std::unique_lock<std::mutex> l( m ); cv.wait_for( l, std::chrono::milliseconds( 5 ) ); cv.wait_until( l, std::chrono::steady_clock::now() + std::chrono::milliseconds( 2 ), [] { return false; } ); cv.notify_all(); cv.notify_one(); } std::timed_mutex tm; tm.try_lock_for( std::chrono::milliseconds( 1 ) ); tm.unlock(); std::recursive_mutex rm; std::lock_guard<std::recursive_mutex> g( rm ); std::once_flag of; std::call_once( of, [] { sx_cover( "once" ); } ); std::mutex a, b; std::lock( a, b ); a.unlock(); b.unlock(); time( nullptr ); std::this_thread::yield(); sx_check( std::this_thread::get_id() == std::this_thread::get_id(), "id" ); struct timespec ts; clock_gettime( CLOCK_MONOTONIC, &ts ); nanosleep( &ts, nullptr ); }
	if ( part == 9 ) { std::atomic<int> n{ 0 }; std::thread t( [&] { n++; } ); t.join(); int x = 0; std::thread t2( [&x] { x = 3; } ); t2.join(); sx_check( x == 3 && n == 1, "threads" ); std::atomic_flag fl = ATOMIC_FLAG_INIT; while ( fl.test_and_set() ) {} fl.clear(); int e = 1; n.compare_exchange_strong( e, 5 ); n.fetch_sub( 2 ); sx_check( n == 3, "atomics" ); thread_local int tl = 4; tl++; sx_check( tl == 5, "tls" ); std::condition_variable cv; std::mutex m; bool ready = false; std::thread t3( [&] { { std::lock_guard<std::mutex> g( m ); ready = true; } cv.notify_one(); } ); { std::unique_lock<std::mutex> l( m ); cv.wait( l, [&] { return ready; } ); } t3.join(); std::condition_variable_any ca; (void)ca; }
	if ( part == 10 ) { try { throw std::runtime_error( "x" ); } catch ( const std::exception& e ) { sx_check( e.what()[0] == 'x', "what" ); } try { std::vector<int> v; v.at( 3 ); } catch ( ... ) { sx_cover( "at" ); } std::function<int( int )> f; try { f( 1 ); } catch ( const std::bad_function_call& ) { sx_cover( "bfc" ); } try { std::map<int, int> m; m.at( 2 ); } catch ( std::out_of_range& ) { sx_cover( "map at" ); } f = []( int a ) { return a + 1; }; sx_check( f( 1 ) == 2, "f" ); struct B { virtual ~B() {} }; struct D : B {}; B* b = new D; sx_check( dynamic_cast<D*>( b ) != nullptr, "dc" ); delete b; sx_check( std::numeric_limits<int>::max() > 0, "lim" ); try { std::stoi( "q" ); } catch ( const std::invalid_argument& ) { sx_cover( "inv" ); } }
	sx_cover( "done" );
}
