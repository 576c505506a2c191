// P14: algorithms that write a range, of any length
// vs: min=63 flags=-fno-sanitize=null
#include "vs.h"
#include <daw/algorithms/daw_algorithm_accumulate.h>
#include <daw/algorithms/daw_algorithm_copy.h>
#include <daw/algorithms/daw_algorithm_copy_n.h>
#include <daw/algorithms/daw_algorithm_partial_sum.h>
#include <daw/algorithms/daw_array_compare.h>
#include <daw/daw_algorithm.h>
#include <daw/daw_algorithm_cx.h>
#include <daw/vector_algorithm.h>
#include <functional>
#include <memory>

namespace al = daw::algorithm;
using uc = unsigned char;
#define IN( p, n )        \
	ASSUME( p != nullptr ); \
	VS_LEN( n );            \
	vs_region( p, n, false )
#define OUT( p, n )       \
	ASSUME( p != nullptr ); \
	VS_LEN( n );            \
	vs_region( p, n, true )
#define ANY( p, n, j )  \
	ASSUME( j < n );      \
	vs_watch( p + j, 1 ); \
	vs_name( p + j )
#define PRED( t )              \
	ASSUME( t != nullptr );      \
	vs_region( t, 256, false );  \
	auto pr = [t]( uc x ) { return t[x] == 1; }
// what t makes of it
#define FUNC( t )             \
	ASSUME( t != nullptr );     \
	vs_region( t, 256, false ); \
	auto fn = [t]( uc x ) { return t[x]; }
#define WITHIN( r, p, n ) ( ( r ) >= ( p ) and ( r ) <= ( p ) + ( n ) )

// ---- every element is written in its place, nothing outside the range is
#define WRITER( name, expr, want )                                               \
	DRIVER( name )( uc const *p, uc *q, std::size_t n, uc const *t, std::size_t j ) { \
		IN( p, n );                                                                  \
		OUT( q, n );                                                                 \
		vs_noalias( q );                                                          \
		FUNC( t );                                                                   \
		vs_noalias( q );                                                          \
		(void)fn;                                                                    \
		ASSUME( j < n );                                                             \
		vs_watch( p + j, 1 );                                                        \
		vs_watch( q + j, 1 );                                                        \
		vs_name( q + j );                                                            \
		uc const x = p[j];                                                           \
		vs_total( );                                                                 \
		uc *const r = expr;                                                          \
		CHECK( r == q + n, "the end of what was written" );                          \
		CHECK( q[j] == ( want ), "element" );                                        \
		CHECK( p[j] == x, "the source stays" );                                      \
		REACH( "end" );                                                              \
	}
WRITER( copy, al::copy( p, p + n, q ), x )
WRITER( copy_n, al::copy_n( p, q, n ).output, x )
WRITER( move, al::move( p, p + n, q ), x )
WRITER( move_n, al::move_n( p, q, n ).output, x )
WRITER( transform, al::transform( p, p + n, q, fn ), fn( x ) )
WRITER( transform_n, al::transform_n( p, q, n, fn ).output, fn( x ) )
WRITER( transform_it,
        al::transform_it( p, p + n, q,
                          [t]( uc y, uc *o ) {
	                          *o = t[y];
	                          return o + 1;
                          } ),
        fn( x ) )
WRITER( convert_copy, al::convert_copy<uc>( p, p + n, q ), x )
WRITER( convert_copy_n, al::convert_copy_n<uc>( p, q, n ), x )
WRITER( copy_if_all, al::copy_if( p, p + n, q, [n]( uc ) { return n == n; } ), x )
WRITER( map_one, al::map( p, p + n, q, fn ), fn( x ) )
WRITER( map_two, al::map( p, p + n, p, q, []( uc a, uc b ) { return static_cast<uc>( a - b / 2 ); } ), static_cast<uc>( x - x / 2 ) )
WRITER( cartesian_product_map, al::cartesian_product_map( []( uc a, uc b ) { return static_cast<uc>( a - b / 2 ); }, p, p + n, q, p ), static_cast<uc>( x - x / 2 ) )
DRIVER( ends_of_the_source )( uc const *p, uc *q, std::size_t n ) {
	IN( p, n );
	OUT( q, n );
	vs_noalias( q );
	vs_total( );
	switch( vs_int( ) ) {
	case 0:
		CHECK( al::copy_n( p, q, n ).input == p + n, "copy_n" );
		break;
	case 1:
		CHECK( al::move_n( p, q, n ).input == p + n, "move_n" );
		break;
	case 2:
		CHECK( al::transform_n( p, q, n, []( uc c ) { return c; } ).input == p + n, "transform_n" );
		break;
	}
	REACH( "end" );
}
DRIVER( fill )( uc *q, std::size_t n, uc c, std::size_t j ) {
	OUT( q, n );
	ANY( q, n, j );
	vs_total( );
	al::fill( q, q + n, c );
	CHECK( q[j] == c, "element" );
	REACH( "end" );
}
DRIVER( fill_n )( uc *q, std::size_t n, uc c, std::size_t j ) {
	OUT( q, n );
	ANY( q, n, j );
	vs_total( );
	CHECK( al::fill_n( q, n, c ) == q + n, "the end" );
	CHECK( q[j] == c, "element" );
	REACH( "end" );
}
DRIVER( iota )( uc *q, std::size_t n, std::size_t j ) {
	OUT( q, n );
	ANY( q, n, j );
	vs_total( );
	al::iota( q, q + n, std::size_t{ 0 }, [j]( uc &e, std::size_t i ) { e = i == j ? 1 : 2; } );
	CHECK( q[j] == 1, "element" );
	REACH( "end" );
}
template<std::size_t N>
static void iota_of( unsigned c ) {
	unsigned a[N];
	al::iota( a, a + N, c );
	for( std::size_t n = 0; n < N; ++n ) {
		CHECK( a[n] == c + n, "element" );
	}
}
DRIVER( iota_some )( unsigned c ) {
	vs_total( );
	ASSUME( c < 1000000U );
	iota_of<1>( c );
	iota_of<5>( c );
	REACH( "end" );
}
// ---- in place
DRIVER( reverse )( uc *q, std::size_t n ) {
	OUT( q, n );
	vs_total( );
	al::reverse( q, q + n );
	REACH( "end" );
}
DRIVER( nth_element )( uc *q, std::size_t n, std::size_t k ) {
	OUT( q, n );
	ASSUME( k <= n );
	vs_total( );
	al::nth_element( q, q + k, q + n );
	REACH( "end" );
}
template<std::size_t N>
static void reverse_of( unsigned const ( &e )[N] ) {
	unsigned a[N];
	al::copy( e, e + N, a );
	al::reverse( a, a + N );
	for( std::size_t n = 0; n < N; ++n ) {
		CHECK( a[n] == e[N - 1 - n], "the other way round" );
	}
}
DRIVER( reverse_some )( unsigned a, unsigned b, unsigned c, unsigned d, unsigned e, unsigned f ) {
	vs_total( );
	reverse_of( { a } );
	reverse_of( { a, b } );
	reverse_of( { a, b, c } );
	reverse_of( { a, b, c, d } );
	reverse_of( { a, b, c, d, e } );
	reverse_of( { a, b, c, d, e, f } );
	REACH( "end" );
}
DRIVER( reverse_nothing )( uc *q ) {
	OUT( q, 0 );
	vs_total( );
	al::reverse( q, q );
	al::rotate( q, q, q );
	al::nth_element( q, q, q );
	CHECK( al::partition( q, q, []( uc ) { return true; } ) == q, "nothing" );
	CHECK( al::remove( q, q, uc{ 1 } ) == q, "nothing" );
	CHECK( al::remove_if( q, q, []( uc ) { return true; } ) == q, "nothing" );
	REACH( "end" );
}
// elements that stay, and nothing else
#define REMOVER( name, expr, gone )                                        \
	DRIVER( name )( uc *q, std::size_t n, uc const *t, uc c ) {              \
		OUT( q, n );                                                           \
		PRED( t );                                                             \
		vs_noalias( q );                                                    \
		(void)pr;                                                              \
		(void)c;                                                               \
		vs_total( );                                                           \
		uc *const r = expr;                                                    \
		CHECK( WITHIN( r, q, n ), "inside the range" );                        \
		REACH( "end" );                                                        \
	}                                                                        \
	DRIVER( name##_left )                                                    \
	( uc *q, std::size_t n, uc const *t, uc c, std::size_t j ) {             \
		OUT( q, n );                                                           \
		PRED( t );                                                             \
		vs_noalias( q );                                                    \
		ANY( q, n, j );                                                        \
		(void)pr;                                                              \
		(void)c;                                                               \
		vs_total( );                                                           \
		uc *const r = expr;                                                    \
		CHECK( q + j >= r or not( gone( q[j] ) ), "only what stays is left" ); \
		REACH( "end" );                                                        \
	}
#define EQC( x ) ( ( x ) == c )
#define HOLDS( x ) ( pr( x ) )
#define HOLDS_NOT( x ) ( not pr( x ) )
REMOVER( remove, al::remove( q, q + n, c ), EQC )
REMOVER( remove_if, al::remove_if( q, q + n, pr ), HOLDS )
REMOVER( partition, al::partition( q, q + n, pr ), HOLDS_NOT )
DRIVER( copy_if )( uc const *p, uc *q, std::size_t n, uc const *t, std::size_t j ) {
	IN( p, n );
	OUT( q, n );
	vs_noalias( q );
	PRED( t );
	vs_noalias( q );
	ANY( q, n, j );
	vs_total( );
	uc *const r = al::copy_if( p, p + n, q, pr );
	CHECK( WITHIN( r, q, n ), "no more than there are" );
	CHECK( q + j >= r or pr( q[j] ), "only what satisfies it" );
	REACH( "end" );
}
DRIVER( transform_if )( uc const *p, uc *q, std::size_t n, uc const *t, std::size_t j ) {
	IN( p, n );
	OUT( q, n );
	vs_noalias( q );
	PRED( t );
	vs_noalias( q );
	ANY( q, n, j );
	vs_total( );
	uc *const r = al::transform_if( p, p + n, q, pr, []( uc ) { return uc{ 9 }; } );
	CHECK( WITHIN( r, q, n ), "no more than there are" );
	CHECK( q + j >= r or q[j] == 9, "what the function made of it" );
	REACH( "end" );
}
// which of four elements stay, in their order
template<typename F, typename G>
static void kept_of_four( unsigned ( &v )[4], F stays, G made, unsigned const *r, unsigned const *o ) {
	std::size_t k = 0;
	for( std::size_t n = 0; n < 4; ++n ) {
		if( stays( v[n] ) ) {
			CHECK( o[k] == made( v[n] ), "in order" );
			++k;
		}
	}
	CHECK( r == o + k, "all of them" );
}
DRIVER( kept )( unsigned a, unsigned b, unsigned c, unsigned d, unsigned x ) {
	unsigned v[4] = { a, b, c, d };
	unsigned o[4] = { };
	auto same = []( unsigned y ) { return y; };
	auto is_x = [x]( unsigned y ) { return y == x; };
	auto not_x = [x]( unsigned y ) { return y != x; };
	vs_total( );
	switch( vs_int( ) ) {
	case 0:
		kept_of_four( v, is_x, same, al::copy_if( v, v + 4, o, is_x ), o );
		REACH( "copy_if" );
		break;
	case 1:
		kept_of_four( v, is_x, []( unsigned y ) { return y + 1; }, al::transform_if( v, v + 4, o, is_x, []( unsigned y ) { return y + 1; } ), o );
		REACH( "transform_if" );
		break;
	case 2:
		al::copy( v, v + 4, o );
		kept_of_four( v, not_x, same, al::remove( o, o + 4, x ), o );
		REACH( "remove" );
		break;
	case 3:
		al::copy( v, v + 4, o );
		kept_of_four( v, not_x, same, al::remove_if( o, o + 4, is_x ), o );
		REACH( "remove_if" );
		break;
	case 4: {
		unsigned *e = o;
		al::for_each_if( v, v + 4, is_x, [&e]( unsigned y ) { *e++ = y; } );
		kept_of_four( v, is_x, same, e, o );
		REACH( "for_each_if" );
		break;
	}
	}
}
static std::size_t count_of( unsigned const *v, std::size_t n, unsigned x ) {
	std::size_t r = 0;
	for( std::size_t i = 0; i < n; ++i ) {
		r += v[i] == x ? 1U : 0U;
	}
	return r;
}
// the same elements as before, x stands for any value
template<std::size_t N>
static void permuted( unsigned const ( &a )[N], unsigned const ( &b )[N], unsigned x ) {
	CHECK( count_of( a, N, x ) == count_of( b, N, x ), "the same elements" );
}
DRIVER( partition_some )( unsigned a, unsigned b, unsigned c, unsigned x ) {
	unsigned const v[3] = { a, b, c };
	unsigned o[3] = { a, b, c };
	vs_total( );
	auto r = al::partition( o, o + 3, []( unsigned y ) { return y < 100; } );
	CHECK( WITHIN( r, o, 3 ), "inside" );
	for( unsigned *i = o; i != o + 3; ++i ) {
		CHECK( ( i < r ) == ( *i < 100 ), "in front those that satisfy it" );
	}
	permuted( v, o, x );
	REACH( "end" );
}
template<std::size_t N, std::size_t M>
static void rotate_of( unsigned const ( &e )[N] ) {
	unsigned a[N];
	al::copy( e, e + N, a );
	al::rotate( a, a + M, a + N );
	for( std::size_t n = 0; n < N; ++n ) {
		CHECK( a[n] == e[( n + M ) % N], "rotated" );
	}
}
#define ROTATE( n, m )                                                                           \
	DRIVER( rotate_##n##_##m )( unsigned a, unsigned b, unsigned c, unsigned d, unsigned e ) {     \
		vs_total( );                                                                                 \
		unsigned const v[5] = { a, b, c, d, e };                                                     \
		unsigned w[n];                                                                               \
		al::copy( v, v + n, w );                                                                     \
		rotate_of<n, m>( w );                                                                        \
		REACH( "end" );                                                                              \
	}
ROTATE( 1, 0 )
ROTATE( 1, 1 )
ROTATE( 2, 0 )
ROTATE( 2, 1 )
ROTATE( 2, 2 )
ROTATE( 3, 1 )
ROTATE( 3, 2 )
ROTATE( 4, 1 )
ROTATE( 4, 2 )
ROTATE( 4, 3 )
ROTATE( 5, 0 )
ROTATE( 5, 1 )
ROTATE( 5, 2 )
ROTATE( 5, 3 )
ROTATE( 5, 4 )
ROTATE( 5, 5 )
DRIVER( slide_some )( unsigned a, unsigned b, unsigned c, unsigned d, unsigned e ) {
	unsigned o[5] = { a, b, c, d, e };
	vs_total( );
	switch( vs_int( ) ) {
	case 0: {
		auto r = al::slide( o + 1, o + 3, o + 5 );
		CHECK( r.first == o + 3 and r.second == o + 5, "to the back" );
		CHECK( o[0] == a and o[1] == d and o[2] == e and o[3] == b and o[4] == c, "to the back" );
		REACH( "back" );
		break;
	}
	case 1: {
		auto r = al::slide( o + 2, o + 4, o );
		CHECK( r.first == o and r.second == o + 2, "to the front" );
		CHECK( o[0] == c and o[1] == d and o[2] == a and o[3] == b and o[4] == e, "to the front" );
		REACH( "front" );
		break;
	}
	case 2: {
		auto r = al::slide( o + 1, o + 4, o + 2 );
		CHECK( r.first == o + 1 and r.second == o + 4, "into itself" );
		CHECK( o[0] == a and o[1] == b and o[2] == c and o[3] == d and o[4] == e, "into itself" );
		break;
	}
	}
}
template<std::size_t N, std::size_t M>
static void nth_of( unsigned const ( &e )[N], unsigned x ) {
	unsigned a[N];
	al::copy( e, e + N, a );
	al::nth_element( a, a + M, a + N );
	for( std::size_t n = 0; n < N; ++n ) {
		CHECK( n < M ? a[n] <= a[M] : a[n] >= a[M], "no greater one in front, no less one behind" );
	}
	permuted( e, a, x );
}
DRIVER( nth_of_two )( unsigned a, unsigned b, unsigned x ) {
	vs_total( );
	nth_of<1, 0>( { a }, x );
	nth_of<2, 0>( { a, b }, x );
	nth_of<2, 1>( { a, b }, x );
	REACH( "end" );
}
DRIVER( nth_first_of_three )( unsigned a, unsigned b, unsigned c, unsigned x ) {
	vs_total( );
	nth_of<3, 0>( { a, b, c }, x );
}
DRIVER( nth_second_of_three )( unsigned a, unsigned b, unsigned c, unsigned x ) {
	vs_total( );
	nth_of<3, 1>( { a, b, c }, x );
}
DRIVER( nth_third_of_three )( unsigned a, unsigned b, unsigned c, unsigned x ) {
	vs_total( );
	nth_of<3, 2>( { a, b, c }, x );
}
DRIVER( set_intersection_2_1 )( unsigned a, unsigned b, unsigned c ) {
	unsigned const v[2] = { a, b }, w[1] = { c };
	unsigned o[1] = { 0 };
	ASSUME( a <= b );
	vs_total( );
	auto r = al::set_intersection( v, v + 2, w, w + 1, o );
	if( c == a or c == b ) {
		CHECK( r == o + 1, "in both" );
		CHECK( o[0] == c, "in both" );
	} else {
		CHECK( r == o, "in none" );
	}
	REACH( "end" );
}
DRIVER( set_intersection_1_2 )( unsigned a, unsigned b, unsigned c ) {
	unsigned const v[2] = { a, b }, w[1] = { c };
	unsigned o[1] = { 0 };
	ASSUME( a <= b );
	vs_total( );
	auto r = al::set_intersection( w, w + 1, v, v + 2, o );
	if( c == a or c == b ) {
		CHECK( r == o + 1, "in both" );
		CHECK( o[0] == c, "in both" );
	} else {
		CHECK( r == o, "in none" );
	}
	REACH( "end" );
}
DRIVER( set_intersection_2_2 )( unsigned a, unsigned b, unsigned c, unsigned d ) {
	unsigned const v[2] = { a, b }, w[2] = { c, d };
	unsigned o[2] = { 0, 0 };
	ASSUME( a <= b and c <= d );
	vs_total( );
	auto r = al::set_intersection( v, v + 2, w, w + 2, o );
	if( a == c and b == d ) {
		CHECK( r == o + 2, "both" );
		CHECK( o[0] == a and o[1] == b, "both" );
	}
	if( b < c or d < a ) {
		CHECK( r == o, "none" );
	}
	REACH( "end" );
}
DRIVER( set_intersection_any )( uc const *p, std::size_t n, uc const *q, std::size_t m, uc *o ) {
	IN( p, n );
	IN( q, m );
	OUT( o, n );
	vs_noalias( o );
	vs_noalias( o );
	vs_total( );
	auto r = al::set_intersection( p, p + n, q, q + m, o );
	CHECK( WITHIN( r, o, n ) and static_cast<std::size_t>( r - o ) <= m, "no more than either" );
	REACH( "end" );
}
// ---- sums
DRIVER( sums )( unsigned a, unsigned b, unsigned c, unsigned z ) {
	unsigned const v[3] = { a, b, c };
	ASSUME( a < 1000000 and b < 1000000 and c < 1000000 and z < 1000000 );
	vs_total( );
	switch( vs_int( ) ) {
	case 0:
		CHECK( al::accumulate( v, v + 3, z ) == z + a + b + c, "accumulate" );
		CHECK( al::accumulate( v, v + 1, z ) == z + a, "accumulate" );
		CHECK( al::accumulate( v, v, z ) == z, "accumulate" );
		break;
	case 1:
		CHECK( al::accumulate( v, v + 3, z, []( unsigned x, unsigned y ) { return 2 * x + y; } ) == 8 * z + 4 * a + 2 * b + c, "accumulate" );
		break;
	case 2:
		CHECK( al::reduce( v, v + 3, z, []( unsigned x, unsigned y ) { return 2 * x + y; } ) == 8 * z + 4 * a + 2 * b + c, "reduce" );
		CHECK( al::reduce( v, v, z, []( unsigned x, unsigned y ) { return 2 * x + y; } ) == z, "reduce" );
		break;
	case 3:
		CHECK( al::map_reduce( v, v + 2, v + 1, z, []( unsigned x, unsigned y ) { return 2 * x + y; },
		                       []( unsigned x, unsigned y ) { return 3 * x + y; } ) == 4 * z + 2 * ( 3 * a + b ) + 3 * b + c,
		       "map_reduce" );
		break;
	case 4: {
		unsigned o[3];
		CHECK( al::partial_sum( v, v + 3, o ) == o + 3, "partial_sum" );
		CHECK( o[0] == a and o[1] == a + b and o[2] == a + b + c, "partial_sum" );
		CHECK( al::partial_sum( v, v + 3, o, []( unsigned x, unsigned y ) { return 2 * x + y; } ) == o + 3, "partial_sum" );
		CHECK( o[0] == a and o[1] == 2 * a + b and o[2] == 4 * a + 2 * b + c, "partial_sum" );
		CHECK( al::partial_sum( v, v, o ) == o, "nothing" );
		break;
	}
	case 5: {
		unsigned s = z;
		al::cartesian_product( [&s]( unsigned x, unsigned y ) { s = 2 * s + 3 * x + y; }, v, v + 2, v + 1 );
		CHECK( s == 4 * z + 2 * ( 3 * a + b ) + 3 * b + c, "one from each" );
		break;
	}
	}
	REACH( "end" );
}
// every element is added, once
DRIVER( counted )( uc const *p, uc *q, std::size_t n, std::size_t z ) {
	IN( p, n );
	OUT( q, n );
	vs_noalias( q );
	ASSUME( z < 1000 );
	vs_total( );
	auto more = []( std::size_t s, uc ) { return s + 1; };
	switch( vs_int( ) ) {
	case 0:
		CHECK( al::accumulate( p, p + n, z, more ) == z + n, "accumulate" );
		break;
	case 1:
		CHECK( al::reduce( p, p + n, z, more ) == z + n, "reduce" );
		break;
	case 2:
		CHECK( al::map_reduce( p, p + n, p, z, more, []( uc a, uc ) { return a; } ) == z + n, "map_reduce" );
		break;
	case 3:
		CHECK( al::partial_sum( p, p + n, q, []( uc a, uc ) { return a; } ) == q + n, "partial_sum" );
		break;
	}
	REACH( "end" );
}
// ---- stable_partition in two halves
DRIVER( gather )( uc *q, std::size_t n, std::size_t k ) {
	OUT( q, n );
	ASSUME( k <= n );
	vs_may_throw( );
	auto r = al::gather( q, q + n, q + k, []( uc c ) { return c < 7; } );
	(void)r;
}
// ---- arrays
DRIVER( array_compare )( int a, int b, int c, int d ) {
	int const x[2][1] = { { a }, { b } }, y[2][1] = { { c }, { d } };
	int const v[2] = { a, b }, w[2] = { c, d };
	vs_total( );
	CHECK( daw::array_cmp( x, y ) == ( a == c and b == d ), "two dimensions" );
	CHECK( daw::array_cmp( v, w ) == ( a == c and b == d ), "one dimension" );
	REACH( "end" );
}
template<unsigned step>
static void iota_vector( unsigned first ) {
	unsigned v[4] = { 1, 2, 3, 4 };
	std::allocator<unsigned> a;
	CHECK( al::iota_op<unsigned>( +first, +step )( v, std::size_t{ 3 }, a ) == 3, "how many" );
	CHECK( v[0] == first and v[1] == first + step and v[2] == first + 2 * step and v[3] == 4, "values" );
	CHECK( al::iota_op<unsigned>( first )( v, std::size_t{ 2 }, a ) == 2, "how many" );
	CHECK( v[0] == first and v[1] == first + 1 and v[2] == first + 2 * step, "values" );
}
DRIVER( iota_vector )( unsigned first ) {
	ASSUME( first < 1000 );
	vs_total( );
	iota_vector<1>( first );
	iota_vector<7>( first );
	REACH( "end" );
}
// each element that satisfies it is handed over, the others stay
DRIVER( consume_if )( unsigned a, unsigned b, unsigned c, unsigned d, unsigned x ) {
	unsigned v[4] = { a, b, c, d };
	unsigned o[4] = { a, b, c, d };
	vs_total( );
	unsigned seen = 0;
	bool right = true;
	auto r = al::consume_if(
	  o, o + 4, [x]( unsigned y ) { return y < x; },
	  [&]( unsigned y ) {
		  ++seen;
		  right = right and y < x;
	  } );
	CHECK( right, "only those that satisfy it" );
	CHECK( static_cast<std::size_t>( r - o ) + seen == 4, "each of them" );
	kept_of_four( v, [x]( unsigned y ) { return not( y < x ); }, []( unsigned y ) { return y; }, r, o );
	REACH( "end" );
}
