// vs: min=39 flags=-fno-sanitize=null
// P17: iterators that make up or filter what they give
#include "vs.h"
#include <daw/iterator/daw_argument_iterator.h>
#include <daw/iterator/daw_back_inserter.h>
#include <daw/iterator/daw_checked_iterator_proxy.h>
#include <daw/iterator/daw_end_inserter.h>
#include <daw/iterator/daw_find_iterator.h>
#include <daw/iterator/daw_find_one_iterator.h>
#include <daw/iterator/daw_function_iterator.h>
#include <daw/iterator/daw_inserter.h>
#include <daw/iterator/daw_integer_iterator.h>
#include <daw/iterator/daw_iota_iterator.h>
#include <daw/iterator/daw_output_stream_iterator.h>
#include <daw/iterator/daw_repeat_n_char_iterator.h>
#include <daw/pipelines/iota.h>
#include <stdexcept>

using diff = std::ptrdiff_t;

template<typename T>
static void integers( T f, T l ) {
	ASSUME( f <= l );
	daw::integer_range<T> r( f, l );
	T want = f;
	for( auto it = r.begin( ); it != r.end( ); ++it ) {
		if constexpr( std::is_unsigned_v<T> ) {
			CHECK( want < l, "not beyond the last" );
		}
		CHECK( *it == want, "one after the other" );
		++want;
	}
	CHECK( want == l, "up to the last" );
	auto it = r.begin( );
	CHECK( ( it == r.end( ) ) == ( f == l ), "equal where the values are" );
	ASSUME( f < l );
	auto o = it++;
	CHECK( *o == f and *it == static_cast<T>( f + 1 ), "x++ is the value before" );
}
DRIVER( integer_range )( int f, int l ) {
	vs_total( );
	integers( f, l );
	REACH( "int" );
}
DRIVER( integer_range_unsigned )( unsigned f, unsigned l ) {
	vs_total( );
	integers( f, l );
	REACH( "unsigned" );
}

template<typename T>
static void iota( T f, T l ) {
	ASSUME( f <= l );
	T want = f;
	for( auto x : daw::iota_range<T>( f, l ) ) {
		CHECK( want < l, "not beyond the last" );
		CHECK( x == want, "one after the other" );
		++want;
	}
	CHECK( want == l, "up to the last" );
}
DRIVER( iota_range_int )( int f, int l ) {
	vs_total( );
	iota( f, l );
	REACH( "int" );
}
DRIVER( iota_range_unsigned )( unsigned f, unsigned l ) {
	vs_total( );
	iota( f, l );
	REACH( "unsigned" );
}
DRIVER( iota_range_size )( std::size_t l ) {
	vs_total( );
	std::size_t want = 0;
	for( auto x : daw::iota_range<std::size_t>( l ) ) {
		CHECK( want < l, "not beyond the last" );
		CHECK( x == want, "one after the other" );
		++want;
	}
	CHECK( want == l, "up to the last" );
	REACH( "size" );
}
template<int Step>
static void iota_step( int f, int l ) {
	ASSUME( f <= l and f >= 0 and l < 1000000 );
	int want = f;
	for( auto x : daw::iota_range<int>( f, l, Step ) ) {
		CHECK( x < l, "not beyond the last" );
		CHECK( x == want, "a step apart" );
		want += Step;
	}
	CHECK( want >= l and want - l < Step, "up to the last" );
}
DRIVER( iota_step_2 )( int f, int l ) {
	vs_total( );
	iota_step<2>( f, l );
	REACH( "step" );
}
DRIVER( iota_step_5 )( int f, int l ) {
	vs_total( );
	iota_step<5>( f, l );
	REACH( "step" );
}
#define STEPPED                                                               \
	vs_total( );                                                                \
	ASSUME( v > -1000000 and v < 1000000 and d > -1000000 and d < 1000000 );    \
	daw::iota_iterator<int> it( v, Step )
template<int Step>
static void iota_advance( int v, int d ) {
	STEPPED;
	auto c = it;
	auto &r = ( c += d );
	CHECK( &r == &c and *c == v + d * Step, "+= moves by so many steps" );
	c -= d;
	CHECK( *c == v, "-= moves back" );
	REACH( "advance" );
}
template<int Step>
static void iota_plus( int v, int d ) {
	STEPPED;
	CHECK( *( it + d ) == v + d * Step, "+ moves by so many steps" );
	CHECK( it[d] == v + d * Step, "[] is the value so many steps on" );
	CHECK( *it == v, "the iterator itself stays" );
	REACH( "plus" );
}
template<int Step>
static void iota_minus( int v, int d ) {
	STEPPED;
	CHECK( *( it - d ) == v - d * Step, "- moves back by so many steps" );
	CHECK( *it == v, "the iterator itself stays" );
	REACH( "minus" );
}
template<int Step>
static void iota_difference( int v, int d ) {
	STEPPED;
	CHECK( ( it + d ) - it == d, "the difference is the number of steps" );
	REACH( "difference" );
}
template<int Step>
static void iota_single( int v, int d ) {
	STEPPED;
	auto c = it;
	auto &q = ++c;
	CHECK( &q == &c and *c == v + Step, "++ is a step" );
	auto o = c--;
	CHECK( *o == v + Step and *c == v, "x-- is a step back" );
	o = c++;
	CHECK( *o == v and *c == v + Step, "x++ is a step" );
	auto &s = --c;
	CHECK( &s == &c and *c == v, "-- is a step back" );
	CHECK( *it.operator->( ).operator->( ) == v, "-> gives the value" );
	REACH( "single" );
}
DRIVER( iota_advance_1 )( int v, int d ) {
	iota_advance<1>( v, d );
}
DRIVER( iota_advance_3 )( int v, int d ) {
	iota_advance<3>( v, d );
}
DRIVER( iota_plus_1 )( int v, int d ) {
	iota_plus<1>( v, d );
}
DRIVER( iota_plus_3 )( int v, int d ) {
	iota_plus<3>( v, d );
}
DRIVER( iota_minus_1 )( int v, int d ) {
	iota_minus<1>( v, d );
}
DRIVER( iota_minus_3 )( int v, int d ) {
	iota_minus<3>( v, d );
}
DRIVER( iota_difference_1 )( int v, int d ) {
	iota_difference<1>( v, d );
}
DRIVER( iota_difference_3 )( int v, int d ) {
	iota_difference<3>( v, d );
}
DRIVER( iota_single_1 )( int v, int d ) {
	iota_single<1>( v, d );
}
DRIVER( iota_single_3 )( int v, int d ) {
	iota_single<3>( v, d );
}
DRIVER( iota_order )( int a, int b ) {
	vs_total( );
	daw::iota_iterator<int> x( a ), y( b );
	CHECK( ( x < y ) == ( a < b ), "less" );
	CHECK( ( x > y ) == ( a > b ), "greater" );
	CHECK( ( x <= y ) == ( a <= b ), "not greater" );
	CHECK( ( x >= y ) == ( a >= b ), "not less" );
	CHECK( ( x != y ) == ( a < b ), "not there before it is reached" );
	CHECK( ( x == y ) == ( a >= b ), "there once it is reached" );
	REACH( "order" );
}
DRIVER( iota_order_unsigned )( unsigned a, unsigned b ) {
	vs_total( );
	daw::iota_iterator<unsigned> x( a ), y( b );
	CHECK( ( x < y ) == ( a < b ), "less" );
	CHECK( ( x > y ) == ( a > b ), "greater" );
	CHECK( ( x <= y ) == ( a <= b ), "not greater" );
	CHECK( ( x >= y ) == ( a >= b ), "not less" );
	CHECK( ( x != y ) == ( a < b ), "not there before it is reached" );
	REACH( "order" );
}
DRIVER( pipeline_iota )( long f, long l, diff d ) {
	vs_total( );
	ASSUME( f <= l and f > -1000000 and l < 1000000 and d > -1000000 and
	        d < 1000000 );
	long want = f;
	for( auto x : daw::pipelines::iota_view<long>( f, l ) ) {
		CHECK( x == want, "one after the other" );
		++want;
	}
	CHECK( want == l, "up to the last" );
	daw::pipelines::iota_iterator<long> const it( f );
	auto c = it;
	c += d;
	CHECK( *c == f + d and c == it + d and c - it == d, "+=" );
	c -= d;
	CHECK( *c == f and it - d + d == c, "-=" );
	CHECK( *( c++ ) == f and *c == f + 1 and *( c-- ) == f + 1 and *c == f,
	       "x++ and x--" );
	CHECK( *( ++c ) == f + 1 and *( --c ) == f, "++ and --" );
	c = it + d;
	CHECK( ( it < c ) == ( d > 0 ) and ( it > c ) == ( d < 0 ) and
	         ( it <= c ) == ( d >= 0 ) and ( it >= c ) == ( d <= 0 ) and
	         ( it == c ) == ( d == 0 ) and ( it != c ) == ( d != 0 ),
	       "ordered like the values" );
	ASSUME( d >= 0 );
	CHECK( it[static_cast<std::size_t>( d )] == f + d, "[]" );
	REACH( "pipeline_iota" );
}

DRIVER( repeat_n )( std::size_t n, char ch ) {
	vs_total( );
	VS_LEN( n );
	std::size_t k = 0;
	for( auto it = daw::repeat_n_char_iterator<char>( n, ch );
	     it != daw::repeat_n_char_end( ); ++it ) {
		CHECK( k < n, "no more than asked for" );
		CHECK( *it == ch and *it.operator->( ) == ch, "every one the same" );
		++k;
	}
	CHECK( k == n, "as many as asked for" );
	REACH( "repeat_n" );
}
DRIVER( repeat_n_moves )( std::size_t n, char ch, diff d ) {
	vs_total( );
	VS_LEN( n );
	ASSUME( d > -diff( n ) and d <= diff( n ) );
	daw::repeat_n_char_iterator<char> it( n, ch );
	daw::repeat_n_char_iterator<char> const last;
	CHECK( last - it == diff( n ), "as many as asked for to the end" );
	CHECK( last - ( it + d ) == diff( n ) - d, "+ goes towards the end" );
	CHECK( last - ( it - d ) == diff( n ) + d, "- goes away from the end" );
	CHECK( ( it + d ) - it == d, "the difference is the number of steps" );
	CHECK( ( it + d == last ) == ( d == diff( n ) ), "+ reaches the end" );
	auto c = it;
	c += d;
	CHECK( c == it + d, "+= is +" );
	c -= d;
	CHECK( c == it, "-= undoes it" );
	++c;
	CHECK( c == it + 1, "++ is + 1" );
	auto o = c--;
	CHECK( o == it + 1 and c == it, "x-- is - 1" );
	o = c++;
	CHECK( o == it and c == it + 1, "x++ is + 1" );
	--c;
	CHECK( c == it, "-- undoes ++" );
	CHECK( it[n] == ch, "[]" );
	REACH( "repeat_n_moves" );
}

DRIVER( arguments )( char const *const *argv, int argc, int i, int j ) {
	vs_total( );
	ASSUME( argv != nullptr and argc > 0 and argc < 1000000 );
	ASSUME( i >= 0 and i <= argc and j >= 0 and j <= argc );
	auto const first = daw::arg_iterator_t( argc, argv );
	CHECK( first.size( ) == static_cast<std::size_t>( argc ), "size" );
	CHECK( first.position( ) == 0, "starts at the first" );
	auto a = first + i;
	auto b = first;
	b += j;
	CHECK( a.position( ) == i and b.position( ) == j, "+ and +=" );
	CHECK( b - a == j - i, "difference" );
	CHECK( ( a == b ) == ( i == j ) and ( a != b ) == ( i != j ), "equality" );
	CHECK( ( a < b ) == ( i < j ) and ( a > b ) == ( i > j ), "order" );
	CHECK( ( a <= b ) == ( i <= j ) and ( a >= b ) == ( i >= j ), "order" );
	CHECK( a.at_end( ) == ( i == argc ), "at the end behind the last" );
	CHECK( static_cast<bool>( a ) == ( i < argc ), "true on an argument" );
	auto const e = first.end( );
	CHECK( ( a == e ) == ( i == argc ) and ( a != e ) == ( i != argc ),
	       "equals the end behind the last" );
	CHECK( ( a < e ) == ( i < argc ) and ( e < a ) == false, "end is behind" );
	CHECK( ( e > a ) == ( i < argc ) and ( a > e ) == false, "end is behind" );
	CHECK( ( a <= e ) and ( e >= a ), "end is not before" );
	CHECK( ( e <= a ) == ( i == argc ) and ( a >= e ) == ( i == argc ),
	       "end is not before" );
	auto c = a;
	auto o = c++;
	CHECK( o == a and c.position( ) == i + 1, "x++" );
	o = c--;
	CHECK( o.position( ) == i + 1 and c == a, "x--" );
	++c;
	CHECK( c.position( ) == i + 1, "++" );
	--c;
	CHECK( c == a, "--" );
	CHECK( ( b - j ).position( ) == 0, "-" );
	b -= j;
	CHECK( b.position( ) == 0, "-=" );
	REACH( "arguments" );
}
DRIVER( arguments_text )( char const *p, int i, diff n ) {
	char const *argv[4] = { p + 1, p + 2, p + 3, p + 4 };
	char const *const *av = argv;
	ASSUME( i >= 0 and i < 4 );
	ASSUME( n > -10 and n < 10 );
	auto it = daw::arg_iterator_t( 4, av ) + i;
	CHECK( ( *it ).data( ) == argv[i], "* is the argument there" );
	bool thrown = false;
	char const *got = nullptr;
	try {
		got = it.at( n ).data( );
	} catch( ... ) {
		thrown = true;
	}
	CHECK( thrown == ( i + n < 0 or i + n >= 4 ), "at fails outside" );
	ASSUME( not thrown );
	CHECK( got == argv[i + n], "at is the argument so many further" );
	CHECK( it[n].data( ) == argv[i + n], "[] is the argument so many further" );
	REACH( "arguments_text" );
}

template<typename F>
static bool throws_out_of_range( F f ) {
	try {
		f( );
	} catch( std::out_of_range const & ) { return true; }
	return false;
}
#define CHECKED( p, n, i )                                              \
	vs_throws( );                                                         \
	VS_LEN( n );                                                          \
	vs_region( p, n, false );                                             \
	ASSUME( i >= 0 and i <= diff( n ) );                                  \
	auto it = daw::make_checked_iterator_proxy( p, p + n, inc, dec, der ); \
	for( diff k = 0; k < i; ++k ) {                                       \
		++it;                                                               \
	}                                                                     \
	CHECK( it == p + i, "as many elements on" )

DRIVER( checked_increment )
( char const *p, std::size_t n, diff i, bool inc, bool dec, bool der ) {
	vs_total( );
	CHECKED( p, n, i );
	auto c = it;
	bool const t = throws_out_of_range( [&] { ++c; } );
	CHECK( t == ( inc and i == diff( n ) ), "++ fails at the end if asked to" );
	CHECK( c == ( t ? p + i : p + i + 1 ), "and stays there" );
	c = it;
	auto o = it;
	bool const u = throws_out_of_range( [&] { o = c++; } );
	CHECK( u == ( inc and i == diff( n ) ), "x++ fails at the end if asked to" );
	CHECK( c == ( u ? p + i : p + i + 1 ), "x++ moves" );
	CHECK( o == p + i, "x++ gives where it was" );
	REACH( "checked_increment" );
}
DRIVER( checked_decrement )
( char const *p, std::size_t n, diff i, bool inc, bool dec, bool der ) {
	vs_total( );
	CHECKED( p, n, i );
	auto c = it;
	bool const t = throws_out_of_range( [&] { --c; } );
	CHECK( t == ( dec and i == 0 ), "-- fails at the start if asked to" );
	CHECK( c == ( t ? p + i : p + i - 1 ), "and stays there" );
	c = it;
	auto o = it;
	bool const u = throws_out_of_range( [&] { o = c--; } );
	CHECK( u == ( dec and i == 0 ), "x-- fails at the start if asked to" );
	CHECK( c == ( u ? p + i : p + i - 1 ), "x-- moves" );
	CHECK( o == p + i, "x-- gives where it was" );
	REACH( "checked_decrement" );
}
DRIVER( checked_dereference )
( char const *p, std::size_t n, diff i, bool inc, bool dec ) {
	vs_total( );
	bool const der = true;
	CHECKED( p, n, i );
	char const *q = nullptr;
	bool const t = throws_out_of_range( [&] { q = &*it; } );
	CHECK( t == ( i == diff( n ) ), "* fails at the end" );
	CHECK( t or q == p + i, "* is the element" );
	auto const ci = it;
	q = nullptr;
	bool const u = throws_out_of_range( [&] { q = &*ci; } );
	CHECK( u == t and ( u or q == p + i ), "const *" );
	q = nullptr;
	bool const v = throws_out_of_range( [&] { q = it.operator->( ); } );
	CHECK( v == t and ( v or q == p + i ), "->" );
	q = nullptr;
	bool const w = throws_out_of_range( [&] { q = ci.operator->( ); } );
	CHECK( w == t and ( w or q == p + i ), "const ->" );
	REACH( "checked_dereference" );
}

#define FILTER( p, n, j, tab )                             \
	VS_LEN( n );                                             \
	vs_region( p, n, false );                                \
	vs_region( tab, 256, false );                            \
	ASSUME( j >= 0 and j < diff( n ) );                      \
	vs_watch( p + j, 1 );                                    \
	auto wanted = [tab]( unsigned char c ) { return tab[c]; }
DRIVER( find_iterator_first )
( unsigned char const *p, std::size_t n, diff j, bool const *tab ) {
	vs_total( );
	FILTER( p, n, j, tab );
	auto it = daw::find_iterator( p, p + n, wanted );
	auto r = it.raw_begin( );
	CHECK( r >= p and r <= p + n, "within the range" );
	CHECK( r != p + j or wanted( p[j] ), "starts on a wanted element" );
	CHECK( r <= p + j or not wanted( p[j] ), "no wanted element before it" );
	CHECK( it.raw_end( ) == p + n, "keeps the end" );
	CHECK( ( it == it.end( ) ) == ( r == p + n ), "at the end behind the last" );
	CHECK( ( it != it.end( ) ) == ( r != p + n ), "at the end behind the last" );
	REACH( "find_iterator_first" );
}
DRIVER( find_iterator_next )
( unsigned char const *p, std::size_t n, diff j, bool const *tab ) {
	vs_total( );
	FILTER( p, n, j, tab );
	auto it = daw::find_iterator( p, p + n, wanted );
	auto r = it.raw_begin( );
	ASSUME( r != p + n );
	CHECK( it.operator->( ) == r, "-> gives the element" );
	auto o = it++;
	auto s = it.raw_begin( );
	CHECK( o.raw_begin( ) == r, "x++ gives where it was" );
	CHECK( s > r and s <= p + n, "moves on" );
	CHECK( s != p + j or wanted( p[j] ), "to a wanted element" );
	CHECK( p + j <= r or p + j >= s or not wanted( p[j] ), "the next one" );
	REACH( "find_iterator_next" );
}
DRIVER( find_iterator_value )
( unsigned char const *p, std::size_t n, diff j, bool const *tab ) {
	vs_total( );
	FILTER( p, n, j, tab );
	auto it = daw::find_iterator( p, p + n, wanted );
	ASSUME( it.raw_begin( ) == p + j );
	CHECK( *it == p[j], "* is the element" );
	auto const c = it;
	CHECK( *c == p[j] and c.operator->( ) == p + j, "const *" );
	REACH( "find_iterator_value" );
}
DRIVER( find_one_iterator )
( unsigned char const *p, std::size_t n, diff j, bool const *tab,
  bool const *tab2 ) {
	vs_total( );
	FILTER( p, n, j, tab );
	vs_region( tab2, 256, false );
	auto wanted2 = [tab2]( unsigned char c ) { return tab2[c]; };
	auto it = daw::find_one_iterator( p, p + n, wanted, wanted2 );
	auto r = it.raw_begin( );
	CHECK( r >= p and r <= p + n, "within the range" );
	CHECK( r <= p + j or not( wanted( p[j] ) or wanted2( p[j] ) ),
	       "no wanted element before it" );
	CHECK( ( it == it.end( ) ) == ( r == p + n ), "at the end behind the last" );
	ASSUME( r == p + j );
	auto e = *it;
	CHECK( e.value == p[j], "the element" );
	CHECK( e.index == 0 ? wanted( p[j] ) : not wanted( p[j] ),
	       "the first filter that wants it" );
	CHECK( e.index <= 1 and ( e.index == 0 or wanted2( p[j] ) ),
	       "the first filter that wants it" );
	REACH( "find_one_iterator" );
}
DRIVER( find_one_iterator_next )
( unsigned char const *p, std::size_t n, diff j, bool const *tab ) {
	vs_total( );
	FILTER( p, n, j, tab );
	auto it = daw::find_one_iterator( p, p + n, wanted );
	auto r = it.raw_begin( );
	// what ++ does depends on where it is and the end only
	ASSUME( r == p and n != 0 );
	++it;
	auto s = it.raw_begin( );
	CHECK( s > r and s <= p + n, "moves on" );
	CHECK( p + j <= r or p + j >= s or not wanted( p[j] ), "the next one" );
	CHECK( s != p + j or wanted( p[j] ), "to a wanted element" );
	REACH( "find_one_iterator_next" );
}
DRIVER( find_one_iterator_post )
( unsigned char const *p, std::size_t n, diff j, bool const *tab ) {
	vs_total( );
	FILTER( p, n, j, tab );
	auto it = daw::find_one_iterator( p, p + n, wanted );
	auto r = it.raw_begin( );
	// what ++ does depends on where it is and the end only
	ASSUME( r == p and n != 0 );
	auto o = it++;
	CHECK( o.raw_begin( ) == r, "x++ gives where it was" );
	CHECK( it.raw_begin( ) > r and it.raw_begin( ) <= p + n, "moves on" );
	ASSUME( it.raw_begin( ) == p + j );
	CHECK( ( *it ).value == p[j] and ( *it ).index == 0, "the element" );
	REACH( "find_one_iterator_post" );
}
static bool even( char c ) {
	return c % 2 == 0;
}
DRIVER( find_iterator_pointer )( char const *p, std::size_t n, diff j ) {
	vs_total( );
	VS_LEN( n );
	vs_region( p, n, false );
	ASSUME( j >= 0 and j < diff( n ) );
	vs_watch( p + j, 1 );
	auto it = daw::find_iterator( p, p + n, &even );
	CHECK( it.raw_begin( ) <= p + j or not even( p[j] ), "the first wanted" );
	REACH( "find_iterator_pointer" );
}

// output iterators: every assignment reaches the target, once, in order
struct sink {
	std::size_t n = 0;
	int last = 0;
	int before = 0;
	bool at_end = true;
	void put( int v ) {
		++n;
		before = last;
		last = v;
	}
	void push_back( int v ) {
		put( v );
	}
	void insert( int v ) {
		put( v );
	}
	int *end( ) {
		return &last;
	}
	void insert( int *pos, int v ) {
		at_end = at_end and pos == &last;
		put( v );
	}
	sink &operator<<( int v ) {
		put( v );
		return *this;
	}
};
template<typename It>
static void outputs( It it, sink &s, int a, int b ) {
	*it = a;
	CHECK( s.n == 1 and s.last == a, "an assignment reaches the target once" );
	++it;
	CHECK( s.n == 1, "++ does nothing" );
	*it++ = b;
	CHECK( s.n == 2 and s.last == b and s.before == a and s.at_end,
	       "and in order" );
	auto c = it;
	*c = a;
	CHECK( s.n == 3 and s.last == a and s.before == b, "a copy does the same" );
}
DRIVER( back_inserter )( int a, int b ) {
	vs_total( );
	sink s;
	outputs( daw::back_inserter<sink>( s ), s, a, b );
	REACH( "back_inserter" );
}
DRIVER( end_inserter )( int a, int b ) {
	vs_total( );
	sink s;
	outputs( daw::end_inserter( s ), s, a, b );
	REACH( "end_inserter" );
}
DRIVER( inserter )( int a, int b ) {
	vs_total( );
	sink s;
	outputs( daw::inserter( s ), s, a, b );
	REACH( "inserter" );
}
DRIVER( function_iterator )( int a, int b ) {
	vs_total( );
	sink s;
	auto f = [&]( int v ) { s.put( v ); };
	outputs( daw::function_iterator( f ), s, a, b );
	sink t;
	auto g = [&]( int v ) { t.put( v ); };
	outputs( daw::make_function_iterator( g ), t, a, b );
	REACH( "function_iterator" );
}
DRIVER( output_stream_iterator )( int a, int b ) {
	vs_total( );
	sink s;
	outputs( daw::make_output_stream_iterator( s ), s, a, b );
	REACH( "output_stream_iterator" );
}
