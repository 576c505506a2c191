// vs: min=16 flags=-fno-sanitize=null
// P17: iterators that stand for a position
#include "vs.h"
#include <array>
#include <daw/iterator/daw_argument_iterator.h>
#include <daw/iterator/daw_chunk_iterator.h>
#include <daw/iterator/daw_circular_iterator.h>
#include <daw/iterator/daw_counting_iterators.h>
#include <daw/iterator/daw_indexed_iterator.h>
#include <daw/iterator/daw_integer_iterator.h>
#include <daw/iterator/daw_iota_iterator.h>
#include <daw/iterator/daw_pointer_iterator.h>
#include <daw/iterator/daw_random_iterator.h>
#include <daw/iterator/daw_repeat_n_char_iterator.h>
#include <daw/iterator/daw_reverse_iterator.h>
#include <daw/iterator/daw_zipiter.h>

using diff = std::ptrdiff_t;

// a random access iterator over a buffer, seen through addr( it )
template<typename It, typename Addr>
static void moves( It it, char const *p, diff i, diff d, diff step, Addr addr ) {
	char const *here = p + i;
	char const *there = p + i + d * step;
	CHECK( addr( it ) == here, "starts there" );
	{
		It c = it;
		It &r = ( c += d );
		CHECK( &r == &c, "+= gives the iterator itself" );
		CHECK( addr( c ) == there, "+= moves by so many" );
		c -= d;
		CHECK( addr( c ) == here, "-= undoes +=" );
	}
	{
		It c = it;
		It q = c + d;
		CHECK( addr( q ) == there, "+ is as many further" );
		CHECK( addr( c ) == here, "+ leaves the iterator where it was" );
		It b = q - d;
		CHECK( addr( b ) == here, "- is as many back" );
		CHECK( addr( q ) == there, "- leaves the iterator where it was" );
		CHECK( q - c == d, "the difference is the number of steps" );
	}
}
template<typename It, typename Addr>
static void steps( It it, char const *p, diff i, diff step, Addr addr ) {
	char const *here = p + i;
	It c = it;
	It &r = ++c;
	CHECK( &r == &c, "++x is x" );
	CHECK( addr( c ) == here + step, "++ is one further" );
	It const o = c--;
	CHECK( addr( o ) == here + step, "x-- is the position before" );
	CHECK( addr( c ) == here, "-- is one back" );
	It const n = c++;
	CHECK( addr( n ) == here, "x++ is the position before" );
	CHECK( addr( c ) == here + step, "x++ is one further" );
	It &s = --c;
	CHECK( &s == &c, "--x is x" );
	CHECK( addr( c ) == here, "-- undoes ++" );
}
template<typename It>
static void ordered( It const &a, It const &b, bool lt, bool eq ) {
	CHECK( ( a == b ) == eq, "equal where the positions are" );
	CHECK( ( a != b ) == not eq, "unequal where the positions are" );
	CHECK( ( a < b ) == lt, "less where the position is" );
	CHECK( ( a <= b ) == ( lt or eq ), "not greater where the position is" );
	CHECK( ( a > b ) == not( lt or eq ), "greater where the position is" );
	CHECK( ( a >= b ) == not lt, "not less where the position is" );
}
#define AT []( auto x ) { return static_cast<char const *>( &*x ); }
#define WHERE( p, n, i, d, step )                                     \
	VS_LEN( n );                                                        \
	vs_region( p, n, true );                                            \
	ASSUME( i >= 0 and i <= diff( n ) );                                \
	ASSUME( d >= -diff( n ) and d <= diff( n ) );                       \
	ASSUME( i + d >= 0 and i + d <= diff( n ) )

DRIVER( pointer_iterator )( char *p, std::size_t n, diff i, diff d ) {
	vs_total( );
	WHERE( p, n, i, d, 1 );
	ASSUME( p != nullptr );
	daw::pointer_iterator<char> it( p + i );
	moves( it, p, i, d, 1, []( auto x ) { return x.get( ); } );
	ordered( it, it + d, d > 0, d == 0 );
	ASSUME( i < diff( n ) );
	steps( it, p, i, 1, AT );
	CHECK( it.operator->( ) == p + i, "-> gives the element" );
	ASSUME( i + d < diff( n ) );
	CHECK( &it[d] == p + i + d, "[] is the element so many further" );
	daw::pointer_iterator<char const> c( it );
	CHECK( c.get( ) == p + i, "an iterator to const from one to mutable" );
	c = it + d;
	CHECK( c.get( ) == p + i + d, "assigned from one to mutable" );
	CHECK( c - it == d, "the difference across constness" );
	REACH( "pointer_iterator" );
}
DRIVER( random_iterator )( char *p, std::size_t n, diff i, diff d ) {
	vs_total( );
	WHERE( p, n, i, d, 1 );
	auto it = daw::make_random_iterator( p + i );
	moves( it, p, i, d, 1, []( auto x ) { return x.ptr( ); } );
	ordered( it, it + d, d > 0, d == 0 );
	ASSUME( i < diff( n ) );
	steps( it, p, i, 1, []( auto x ) { return x.ptr( ); } );
	CHECK( it.operator->( ) == p + i, "-> gives the element" );
	CHECK( &*it == p + i, "* gives the element" );
	it = p;
	CHECK( it.ptr( ) == p, "assigned from a pointer" );
	auto c = daw::make_const_random_iterator( p + i );
	CHECK( &*c == p + i, "to const" );
	REACH( "random_iterator" );
}
DRIVER( reverse_iterator )( char *p, std::size_t n, diff i, diff d ) {
	vs_total( );
	VS_LEN( n );
	vs_region( p, n, true );
	ASSUME( i >= 0 and i <= diff( n ) );
	ASSUME( d >= -diff( n ) and d <= diff( n ) );
	ASSUME( i - d >= 0 and i - d <= diff( n ) );
	auto it = daw::make_reverse_iterator( p + i );
	moves( it, p, i, d, -1, []( auto x ) { return x.base( ); } );
	ordered( it, it + d, d > 0, d == 0 );
	CHECK( ( d + it ).base( ) == p + i - d, "n + x" );
	ASSUME( i > 0 );
	steps( it, p, i, -1, []( auto x ) { return x.base( ); } );
	CHECK( &*it == p + i - 1, "* gives the element before the base" );
	CHECK( it.operator->( ) == p + i - 1, "-> gives the element before the base" );
	ASSUME( i - d > 0 );
	CHECK( &it[d] == p + i - d - 1, "[] is the element so many further on" );
	auto const ci = it;
	CHECK( &ci[d] == p + i - d - 1, "const [] is the element so many further on" );
	CHECK( &*ci == p + i - 1, "const * gives the element before the base" );
	REACH( "reverse_iterator" );
}
template<int K>
static void chunks( char *p, std::size_t n, diff i, diff d ) {
	vs_total( );
	VS_LEN( n );
	vs_region( p, n, true );
	ASSUME( i >= 0 and i <= diff( n ) );
	ASSUME( d >= -diff( n ) and d <= diff( n ) );
	ASSUME( i + K * d >= 0 and i + K * d <= diff( n ) );
	daw::chunk_iterator<char *> it( p + i, K );
	auto addr = []( auto x ) { return static_cast<char const *>( &*x ); };
	moves( it, p, i, d, K, addr );
	ordered( it, it + d, K * d > 0, K * d == 0 );
	auto b = d + it;
	CHECK( addr( b ) == p + i + K * d, "n + x" );
	ASSUME( i + K <= diff( n ) );
	steps( it, p, i, K, addr );
	CHECK( it.operator->( ) == p + i, "-> gives the first element of the chunk" );
	std::size_t j = vs_size( );
	ASSUME( j < K );
	CHECK( &it[j] == p + i + j, "[] is an element of the chunk" );
	REACH( "chunk_iterator" );
}
DRIVER( chunk_iterator_1 )( char *p, std::size_t n, diff i, diff d ) {
	chunks<1>( p, n, i, d );
}
DRIVER( chunk_iterator_3 )( char *p, std::size_t n, diff i, diff d ) {
	chunks<3>( p, n, i, d );
}
DRIVER( chunk_iterator_4 )( char *p, std::size_t n, diff i, diff d ) {
	chunks<4>( p, n, i, d );
}

struct buffer {
	using value_type = char;
	using reference = char &;
	using const_reference = char const &;
	using size_type = std::size_t;
	using difference_type = diff;
	using iterator = char *;
	using const_iterator = char const *;
	char *p;
	std::size_t n;
	std::size_t size( ) const noexcept {
		return n;
	}
	char *begin( ) const noexcept {
		return p;
	}
	char *end( ) const noexcept {
		return p + n;
	}
	char &operator[]( std::size_t i ) const noexcept {
		return p[i];
	}
};
DRIVER( indexed_iterator )( char *p, std::size_t n, diff i, diff d ) {
	vs_total( );
	WHERE( p, n, i, d, 1 );
	buffer b{ p, n };
	daw::indexed_iterator<buffer> it( &b, static_cast<std::size_t>( i ) );
	auto const first = daw::ibegin( b );
	auto const last = daw::iend( b );
	auto pos = [&]( auto x ) {
		return static_cast<char const *>( p + ( x - first ) );
	};
	moves( it, p, i, d, 1, pos );
	ordered( it, it + d, d > 0, d == 0 );
	CHECK( last - first == diff( n ), "from the first to the last" );
	CHECK( pos( it.next( d ) ) == p + i + d, "next" );
	CHECK( pos( it.prev( -d ) ) == p + i + d, "prev" );
	auto c = it;
	c.advance( d );
	CHECK( pos( c ) == p + i + d, "advance" );
	ASSUME( i < diff( n ) );
	steps( it, p, i, 1, pos );
	CHECK( &*it == p + i, "* gives the element" );
	CHECK( it.operator->( ) == p + i, "-> gives the element" );
	auto cb = daw::cibegin( b );
	auto ce = daw::ciend( b );
	CHECK( ce - cb == diff( n ), "const: from the first to the last" );
	CHECK( &*( cb + i ) == p + i, "const: * gives the element" );
	REACH( "indexed_iterator" );
}

// every position and some turns either way
template<int N, int I, int D>
static void circular_one( ) {
	std::array<char, N> a{ };
	// the place D steps on, around the end
	constexpr diff w = ( I + D + 4 * N ) % N;
	using It = daw::circular_iterator<std::array<char, N>>;
	It const first( a );
	It it( a, a.begin( ) + I );
	CHECK( &*it == a.data( ) + I, "starts there" );
	CHECK( it - first == I, "starts there" );
	auto x = it + D;
	CHECK( x - first == w, "+ goes around the end" );
	auto y = it;
	y += D;
	CHECK( y == x, "+= is +" );
	auto z = it - ( -D );
	CHECK( z == x, "- is + the other way" );
	y = it;
	y -= -D;
	CHECK( y == x, "-= is - " );
}
template<int N, int R, int... K>
static void circular( std::integer_sequence<int, K...> ) {
	( circular_one<N, K % N, K / N - R>( ), ... );
}
template<int N, int R>
static void circular( ) {
	vs_total( );
	circular<N, R>( std::make_integer_sequence<int, N *( 2 * R + 1 )>{ } );
	REACH( "circular" );
}
DRIVER( circular_1 )( ) {
	circular<1, 4>( );
}
DRIVER( circular_2 )( ) {
	circular<2, 6>( );
}
DRIVER( circular_3 )( ) {
	circular<3, 7>( );
}
// any size, up to one turn
DRIVER( circular_any )( char *p, std::size_t n, diff i, diff d ) {
	vs_total( );
	VS_LEN( n );
	vs_region( p, n, true );
	ASSUME( i >= 0 and i < diff( n ) );
	ASSUME( d > -diff( n ) and d < diff( n ) );
	buffer b{ p, n };
	daw::circular_iterator<buffer> it( b, p + i );
	auto const first = daw::make_circular_iterator( b );
	auto const w = i + d < 0 ? i + d + diff( n )
	                         : ( i + d >= diff( n ) ? i + d - diff( n ) : i + d );
	CHECK( ( it + d ) - first == w, "+ goes around the end" );
	CHECK( ( it - -d ) - first == w, "- goes around the end" );
	auto c = it;
	c += d;
	CHECK( &*c == p + w, "* is the element there" );
	REACH( "circular_any" );
}
DRIVER( circular_step )( char *p, std::size_t n, diff i ) {
	vs_total( );
	VS_LEN( n );
	vs_region( p, n, true );
	ASSUME( i >= 0 and i < diff( n ) );
	buffer b{ p, n };
	daw::circular_iterator<buffer> it( b, p + i );
	auto const first = daw::make_circular_iterator( b );
	auto const up = i + 1 == diff( n ) ? 0 : i + 1;
	auto const down = i == 0 ? diff( n ) - 1 : i - 1;
	auto c = it;
	auto &r = ++c;
	CHECK( &r == &c and c - first == up, "++ goes around the end" );
	CHECK( &*c == p + up, "* is the element there" );
	c = it;
	auto &q = --c;
	CHECK( &q == &c and c - first == down, "-- goes around the start" );
	CHECK( &*c == p + down, "* is the element there" );
	c = it;
	auto o = c++;
	CHECK( o == it and c - first == up, "x++" );
	c = it;
	o = c--;
	CHECK( o == it and c - first == down, "x--" );
	CHECK( it.end( ) - first == diff( n ), "end is behind the last" );
	REACH( "circular_step" );
}
DRIVER( circular_order )( diff i, diff j ) {
	vs_total( );
	std::array<char, 6> a{ };
	ASSUME( i >= 0 and i < 6 and j >= 0 and j < 6 );
	using It = daw::circular_iterator<std::array<char, 6>>;
	ordered( It( a, a.begin( ) + i ), It( a, a.begin( ) + j ), i < j, i == j );
	CHECK( It( a, a.begin( ) + j ) - It( a, a.begin( ) + i ) == j - i,
	       "the difference" );
}

DRIVER( zip_iterator )( char *p, char *q, std::size_t n, diff i, diff d ) {
	vs_total( );
	VS_LEN( n );
	vs_region( p, n, true );
	vs_region( q, n, true );
	ASSUME( i >= 0 and i < diff( n ) );
	ASSUME( d >= -diff( n ) and d <= diff( n ) );
	ASSUME( i + d >= 0 and i + d <= diff( n ) );
	daw::zip_iterator<char *, char const *> z( p + i, q + i );
	auto at = [&]( auto const &x, diff k ) {
		return daw::get<0>( x ) == p + k and daw::get<1>( x ) == q + k;
	};
	CHECK( at( z, i ), "made of the iterators" );
	auto c = z;
	c.advance( d );
	CHECK( at( c, i + d ), "advance moves every one" );
	CHECK( ( c == z ) == ( d == 0 ), "equal where every one is" );
	CHECK( ( c != z ) == ( d != 0 ), "unequal where one is" );
	c = z;
	auto &r = ++c;
	CHECK( &r == &c and at( c, i + 1 ), "++ moves every one" );
	auto o = c--;
	CHECK( at( o, i + 1 ) and at( c, i ), "x-- moves every one" );
	o = c++;
	CHECK( at( o, i ) and at( c, i + 1 ), "x++ moves every one" );
	auto &s = --c;
	CHECK( &s == &c and at( c, i ), "-- moves every one" );
	CHECK( &std::get<0>( *z ) == p + i and &std::get<1>( *z ) == q + i,
	       "* gives the elements" );
	CHECK( std::get<0>( z.operator->( ) ) == p + i and
	         std::get<1>( z.operator->( ) ) == q + i,
	       "-> gives where the elements are" );
	CHECK( z.size( ) == 2, "size" );
	daw::zip_iterator<char *, char const *> w( p + i, q );
	CHECK( ( w == z ) == ( i == 0 ), "equal only if every one is" );
	REACH( "zip_iterator" );
}
template<typename It>
static void counting( char const *p, std::size_t n, diff i ) {
	VS_LEN( n );
	vs_region( p, n, false );
	ASSUME( i >= 0 and i < diff( n ) );
	It it( p );
	for( diff k = 0; k < i; ++k ) {
		++it;
	}
	CHECK( it.distance( ) == i, "the number of steps made" );
	CHECK( &*it == p + i, "and as many elements on" );
	auto o = it++;
	CHECK( o.distance( ) == i and it.distance( ) == i + 1 and o == p + i and
	         it == p + i + 1,
	       "x++ counts" );
	CHECK( it != o and p + i != it and p + i == o, "compares like the iterator" );
}
DRIVER( forward_counting )( char const *p, std::size_t n, diff i ) {
	vs_total( );
	counting<daw::forward_counting_iterator<char const *>>( p, n, i );
	REACH( "forward_counting" );
}
DRIVER( bidirectional_counting )( char const *p, std::size_t n, diff i ) {
	vs_total( );
	using It = daw::bidirectional_counting_iterator<char const *>;
	counting<It>( p, n, i );
	ASSUME( i > 0 );
	It it( p + i );
	--it;
	CHECK( it.distance( ) == -1 and it == p + i - 1, "-- counts back" );
	auto o = it--;
	CHECK( o.distance( ) == -1 and it.distance( ) == -2, "x-- counts back" );
	REACH( "bidirectional_counting" );
}
