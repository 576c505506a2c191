// P14: algorithms that look at a range, of any length
// vs: min=67 flags=-fno-sanitize=null
#include "vs.h"
#include <daw/algorithms/daw_algorithm_adjacent_find.h>
#include <daw/algorithms/daw_algorithm_find.h>
#include <daw/algorithms/daw_algorithm_find_transform.h>
#include <daw/daw_algorithm.h>
#include <functional>

namespace al = daw::algorithm;
using uc = unsigned char;
#define IN( p, n )        \
	ASSUME( p != nullptr ); \
	VS_LEN( n );            \
	vs_region( p, n, false )
#define ANY( p, n, j ) \
	ASSUME( j < n );     \
	vs_watch( p + j, 1 )
#define PRED( t )              \
	ASSUME( t != nullptr );      \
	vs_region( t, 256, false );  \
	auto pr = [t]( uc x ) { return t[x] == 1; }
#define WITHIN( r, p, n ) ( ( r ) >= ( p ) and ( r ) <= ( p ) + ( n ) )

// ---- the first position with a property: sound and first
#define FINDER( name, extra, expr, hit )                              \
	DRIVER( name )( uc const *p, std::size_t n, uc const *t, uc c ) {   \
		IN( p, n );                                                       \
		PRED( t );                                                        \
		(void)pr;                                                         \
		(void)c;                                                          \
		vs_total( );                                                      \
		extra;                                                            \
		uc const *r = expr;                                               \
		CHECK( WITHIN( r, p, n ), "inside the range" );                   \
		CHECK( r == p + n or ( hit( *r ) ), "a hit or the end" );         \
		REACH( "end" );                                                   \
	}                                                                   \
	DRIVER( name##_first )                                              \
	( uc const *p, std::size_t n, uc const *t, uc c, std::size_t j ) {  \
		IN( p, n );                                                       \
		PRED( t );                                                        \
		(void)pr;                                                         \
		(void)c;                                                          \
		ANY( p, n, j );                                                   \
		ASSUME( hit( p[j] ) );                                            \
		vs_total( );                                                      \
		extra;                                                            \
		uc const *r = expr;                                               \
		CHECK( r <= p + j, "the first hit" );                             \
		REACH( "end" );                                                   \
	}
#define EQC( x ) ( ( x ) == c )
#define HOLDS( x ) ( pr( x ) )
#define HOLDS_NOT( x ) ( not pr( x ) )
FINDER( find, , al::find( p, p + n, c ), EQC )
FINDER( find_if, , al::find_if( p, p + n, pr ), HOLDS )
FINDER( find_if_not, , al::find_if_not( p, p + n, pr ), HOLDS_NOT )
FINDER( find_first_of_pred, , al::find_first_of( p, p + n, pr ), HOLDS )
FINDER( find_index, , p + al::find_index( p, p + n, c ).value_or( n ), EQC )
FINDER( find_index_if, , p + al::find_index_if( p, p + n, pr ).value_or( n ), HOLDS )
FINDER( find_index_of, , p + al::find_index_of( p, p + n, c ), EQC )
FINDER( find_index_of_if, , p + al::find_index_of_if( p, p + n, pr ), HOLDS )
FINDER( find_some_one, , al::find_some( p, p + n, pr ).position, HOLDS )
FINDER( find_one_of_one, , al::find_one_of( p, p + n, pr ).position, HOLDS )
FINDER( find_transform, , al::find_transform( p, p + n, []( uc x ) { return x; }, pr ).iterator, HOLDS )

// which of several predicates it was
DRIVER( find_some )( uc const *p, std::size_t n, uc a, uc b ) {
	IN( p, n );
	vs_total( );
	auto r = al::find_some( p, p + n, [a]( uc x ) { return x == a; }, [b]( uc x ) { return x == b; } );
	CHECK( WITHIN( r.position, p, n ), "inside the range" );
	if( r.position != p + n ) {
		CHECK( r.results[0] == ( *r.position == a ), "first predicate" );
		CHECK( r.results[1] == ( *r.position == b ), "second predicate" );
		CHECK( r.results[0] or r.results[1], "one of them" );
		REACH( "found" );
	} else {
		CHECK( not r.results[0] and not r.results[1], "none of them" );
	}
}
DRIVER( find_some_first )( uc const *p, std::size_t n, uc a, uc b, std::size_t j ) {
	IN( p, n );
	ANY( p, n, j );
	ASSUME( p[j] == a or p[j] == b );
	vs_total( );
	auto r = al::find_some( p, p + n, [a]( uc x ) { return x == a; }, [b]( uc x ) { return x == b; } );
	CHECK( r.position <= p + j, "the first hit" );
}
DRIVER( find_one_of )( uc const *p, std::size_t n, uc a, uc b ) {
	IN( p, n );
	vs_total( );
	auto r = al::find_one_of( p, p + n, [a]( uc x ) { return x == a; }, [b]( uc x ) { return x == b; } );
	CHECK( WITHIN( r.position, p, n ), "inside the range" );
	if( r.position != p + n ) {
		CHECK( r.index == ( *r.position == a ? 0U : 1U ), "the first that holds" );
		CHECK( *r.position == a or *r.position == b, "one of them" );
		REACH( "found" );
	} else {
		CHECK( r.index == static_cast<std::size_t>( -1 ), "none of them" );
	}
}
DRIVER( find_one_of_first )( uc const *p, std::size_t n, uc a, uc b, std::size_t j ) {
	IN( p, n );
	ANY( p, n, j );
	ASSUME( p[j] == a or p[j] == b );
	vs_total( );
	auto r = al::find_one_of( p, p + n, [a]( uc x ) { return x == a; }, [b]( uc x ) { return x == b; } );
	CHECK( r.position <= p + j, "the first hit" );
}
DRIVER( find_transform_value )( uc const *p, std::size_t n, uc c ) {
	IN( p, n );
	vs_total( );
	auto r = al::find_transform( p, p + n, []( uc x ) { return static_cast<uc>( x / 2 ); }, [c]( uc x ) { return x == c; } );
	CHECK( WITHIN( r.iterator, p, n ), "inside the range" );
	CHECK( static_cast<bool>( r ) == ( r.iterator != p + n ), "found" );
	if( r ) {
		CHECK( *r.value == c and *r.iterator / 2 == c, "what the function made of it" );
		REACH( "found" );
	}
}
DRIVER( find_first_of_set )( uc const *p, std::size_t n, uc const *q, std::size_t m ) {
	IN( p, n );
	IN( q, m );
	vs_total( );
	auto r = al::find_first_of( p, p + n, q, q + m );
	CHECK( WITHIN( r, p, n ), "inside the range" );
	if( m == 0 ) {
		CHECK( r == p + n, "nothing is in the empty set" );
	}
	REACH( "end" );
}
DRIVER( find_first_of_set_first )( uc const *p, std::size_t n, uc const *q, std::size_t m, std::size_t j, std::size_t i ) {
	IN( p, n );
	IN( q, m );
	ANY( p, n, j );
	ANY( q, m, i );
	ASSUME( p[j] == q[i] );
	vs_total( );
	auto r = al::find_first_of( p, p + n, q, q + m );
	CHECK( r <= p + j, "the first hit" );
}
DRIVER( find_first_of_set_hit )( uc const *p, std::size_t n, uc a, uc b ) {
	IN( p, n );
	vs_total( );
	uc const s[2] = { a, b };
	auto r = al::find_first_of( p, p + n, s, s + 2 );
	CHECK( WITHIN( r, p, n ), "inside the range" );
	CHECK( r == p + n or *r == a or *r == b, "a hit or the end" );
}
// ---- questions about all elements
DRIVER( quantifiers )( uc const *p, std::size_t n, uc const *t, std::size_t j ) {
	IN( p, n );
	PRED( t );
	ANY( p, n, j );
	vs_total( );
	switch( vs_int( ) ) {
	case 0:
		CHECK( not al::all_of( p, p + n, pr ) or pr( p[j] ), "all" );
		break;
	case 1:
		CHECK( al::any_of( p, p + n, pr ) or not pr( p[j] ), "any" );
		break;
	case 2:
		CHECK( not al::none_of( p, p + n, pr ) or not pr( p[j] ), "none" );
		break;
	case 3:
		CHECK( al::contains_if( p, p + n, pr ) or not pr( p[j] ), "contains" );
		break;
	case 4:
		CHECK( al::satisfies_one( p, p + n, pr ) or not pr( p[j] ), "one" );
		break;
	case 5:
		CHECK( not al::satisfies_all( p, p + n, pr ) or pr( p[j] ), "all" );
		break;
	}
	REACH( "end" );
}
// every element is as e
DRIVER( quantifiers_converse )( uc const *p, std::size_t n, uc const *t ) {
	IN( p, n );
	PRED( t );
	vs_total( );
	auto yes = [n]( uc ) { return n == n; };
	auto no = [n]( uc ) { return n != n; };
	switch( vs_int( ) ) {
	case 0:
		CHECK( al::all_of( p, p + n, yes ), "all" );
		CHECK( al::all_of( p, p + n, no ) == ( n == 0 ), "all" );
		break;
	case 1:
		CHECK( not al::any_of( p, p + n, no ), "any" );
		CHECK( al::any_of( p, p + n, yes ) == ( n != 0 ), "any" );
		break;
	case 2:
		CHECK( al::none_of( p, p + n, no ), "none" );
		CHECK( al::none_of( p, p + n, yes ) == ( n == 0 ), "none" );
		break;
	case 3:
		CHECK( not al::contains_if( p, p + n, no ), "contains" );
		break;
	case 4:
		CHECK( not al::satisfies_one( p, p + n, no ), "one" );
		CHECK( not al::satisfies_one( p, p + n, no, no ), "one" );
		break;
	case 5:
		CHECK( al::satisfies_all( p, p + n, yes ), "all" );
		CHECK( al::satisfies_all( p, p + n, yes, yes ), "all" );
		break;
	case 6:
		CHECK( al::count_if( p, p + n, yes ) == n, "count" );
		CHECK( al::count_if( p, p + n, no ) == 0, "count" );
		break;
	}
	CHECK( al::count_if( p, p + n, pr ) <= n, "no more than there are" );
	REACH( "end" );
}
DRIVER( contains_value )( uc const *p, std::size_t n, uc c, std::size_t j ) {
	IN( p, n );
	ANY( p, n, j );
	vs_total( );
	CHECK( al::contains( p, p + n, c ) or p[j] != c, "contains" );
	CHECK( not al::contains( p, p, c ), "nothing" );
	uc const a[2] = { 1, c };
	CHECK( al::contains( a, a + 1, c ) == ( c == 1 ), "only what is there" );
	CHECK( al::contains( a, a + 2, c ), "the last one too" );
}
DRIVER( satisfies_value )( uc c, uc const *t, uc const *u ) {
	PRED( t );
	ASSUME( u != nullptr );
	vs_region( u, 256, false );
	auto pu = [u]( uc x ) { return u[x] == 1; };
	vs_total( );
	bool const x = pr( c ), y = pu( c );
	CHECK( al::satisfies_one( c, pr, pu ) == ( x or y ), "one" );
	CHECK( al::satisfies_all( c, pr, pu ) == ( x and y ), "all" );
	CHECK( al::satisfies_one( c, pr ) == x and al::satisfies_all( c, pr ) == x, "only one" );
	uc const e[2] = { c, 7 };
	CHECK( al::satisfies_all( e, e + 2, pr, pu ) == ( x and y and pr( 7 ) and pu( 7 ) ), "all of both" );
	CHECK( al::satisfies_one( e, e + 2, pr, pu ) == ( x or y or pr( 7 ) or pu( 7 ) ), "one of both" );
	CHECK( al::count_if( e, e + 2, pr ) == std::size_t{ x } + pr( 7 ), "count" );
	CHECK( al::count_if( e, e + 1, pr ) == std::size_t{ x }, "count" );
}
// the elements of the leading run
DRIVER( find_last_of )( uc const *p, std::size_t n, uc const *t, std::size_t j ) {
	IN( p, n );
	PRED( t );
	ANY( p, n, j );
	vs_total( );
	auto r = al::find_last_of( p, p + n, pr );
	CHECK( WITHIN( r, p, n ), "inside the range" );
	if( r == p + n ) {
		CHECK( j != 0 or not pr( p[j] ), "the first one does not" );
	} else if( p + j <= r ) {
		CHECK( pr( p[j] ), "everything up to it satisfies it" );
		REACH( "in front" );
	} else if( p + j == r + 1 ) {
		CHECK( not pr( p[j] ), "the last of its run" );
		REACH( "behind" );
	}
}
// ---- partitioned ranges: [0, k) are less, the others not
struct V {};
struct Part {
	uc const *a;
	uc const *b;
	bool operator( )( uc const &x, V ) const {
		return &x < a;
	}
	bool operator( )( V, uc const &x ) const {
		return not( &x < b );
	}
};
DRIVER( lower_bound )( uc const *p, std::size_t n, std::size_t k ) {
	IN( p, n );
	ASSUME( k <= n );
	vs_total( );
	auto r = al::lower_bound( p, p + n, V{ }, Part{ p + k, p + k } );
	CHECK( r == p + k, "the first that is not less" );
	REACH( "end" );
}
DRIVER( upper_bound )( uc const *p, std::size_t n, std::size_t k ) {
	IN( p, n );
	ASSUME( k <= n );
	vs_total( );
	auto r = al::upper_bound( p, p + n, V{ }, Part{ p + k, p + k } );
	CHECK( r == p + k, "the first that is greater" );
	REACH( "end" );
}
DRIVER( binary_search )( uc const *p, std::size_t n, std::size_t i, std::size_t k ) {
	IN( p, n );
	ASSUME( i <= k and k <= n );
	ASSUME( n > 0 );
	vs_total( );
	auto r = al::binary_search( p, p + n, V{ }, Part{ p + i, p + k } );
	CHECK( ( r >= p + i and r < p + k ) or ( i == k and r == p + n ), "one that is equal, or the end" );
	REACH( "end" );
}
// ---- order
DRIVER( is_sorted_until )( uc const *p, std::size_t n ) {
	IN( p, n );
	vs_total( );
	auto r = al::is_sorted_until( p, p + n );
	CHECK( WITHIN( r, p, n ), "inside the range" );
	CHECK( r == p + n or ( r > p and *r < r[-1] ), "less than the one in front, or the end" );
	REACH( "end" );
}
DRIVER( is_sorted_until_first )( uc const *p, std::size_t n, std::size_t j ) {
	IN( p, n );
	ASSUME( n >= 2 and j < n - 1 );
	vs_watch( p + j, 1 );
	vs_watch( p + j + 1, 1 );
	ASSUME( p[j + 1] < p[j] );
	vs_total( );
	auto r = al::is_sorted_until( p, p + n );
	CHECK( r <= p + j + 1, "the first one out of order" );
	CHECK( not al::is_sorted( p, p + n ), "not sorted" );
}
DRIVER( is_sorted )( uc const *p, std::size_t n ) {
	IN( p, n );
	vs_total( );
	CHECK( al::is_sorted( p, p + n, []( uc, uc ) { return false; } ), "sorted" );
	CHECK( al::is_sorted( p, p + n, []( uc, uc ) { return true; } ) == ( n < 2 ), "not sorted" );
}
DRIVER( adjacent_find )( uc const *p, std::size_t n ) {
	IN( p, n );
	vs_total( );
	auto r = al::adjacent_find( p, p + n, std::equal_to<>{ } );
	CHECK( WITHIN( r, p, n ), "inside the range" );
	CHECK( r == p + n or ( r + 1 < p + n and *r == r[1] ), "equal to its neighbour, or the end" );
	REACH( "end" );
}
DRIVER( adjacent_find_first )( uc const *p, std::size_t n, std::size_t j ) {
	IN( p, n );
	ASSUME( n >= 2 and j < n - 1 );
	vs_watch( p + j, 1 );
	vs_watch( p + j + 1, 1 );
	ASSUME( p[j] == p[j + 1] );
	vs_total( );
	auto r = al::adjacent_find( p, p + n, std::equal_to<>{ } );
	CHECK( r <= p + j, "the first pair" );
}
struct Same {
	bool operator( )( uc, uc ) const {
		return true;
	}
};
DRIVER( all_equal )( uc const *p, std::size_t n, std::size_t j, std::size_t i ) {
	IN( p, n );
	ANY( p, n, j );
	vs_total( );
	if( al::all_equal<>{ }( p, p + n ) ) {
		CHECK( p[j] == p[0], "every one is equal" );
		REACH( "yes" );
	}
	CHECK( al::all_equal<Same>{ }( p, p + n ), "equal" );
	CHECK( al::all_equal<>{ }( p, p ), "nothing" );
}
// the only greatest and the only least one, wherever they are
struct Key {
	uc const *least;
	uc const *most;
	bool operator( )( uc const &x, uc const &y ) const {
		return ( &x == least and &y != least ) or ( &y == most and &x != most );
	}
};
DRIVER( max_element )( uc const *p, std::size_t n, std::size_t j ) {
	IN( p, n );
	ANY( p, n, j );
	vs_total( );
	auto r = al::max_element( p, p + n, Key{ nullptr, p + j } );
	CHECK( r == p + j, "the greatest" );
	REACH( "end" );
}
DRIVER( minmax_greatest )( uc const *p, std::size_t n, std::size_t j ) {
	IN( p, n );
	ANY( p, n, j );
	vs_total( );
	auto r = al::minmax_element( p, p + n, Key{ nullptr, p + j } );
	CHECK( r.max_element == p + j, "the greatest" );
	CHECK( WITHIN( r.min_element, p, n ), "inside the range" );
	REACH( "end" );
}
DRIVER( minmax_least )( uc const *p, std::size_t n, std::size_t j ) {
	IN( p, n );
	ANY( p, n, j );
	vs_total( );
	auto r = al::minmax_element( p, p + n, Key{ p + j, nullptr } );
	CHECK( r.min_element == p + j, "the least" );
	CHECK( WITHIN( r.max_element, p, n ), "inside the range" );
	REACH( "end" );
}
template<std::size_t N>
static void element_of( unsigned const ( &e )[N] ) {
	auto hi = al::max_element( e, e + N );
	auto mm = al::minmax_element( e, e + N );
	CHECK( hi >= e and hi < e + N, "inside the range" );
	CHECK( mm.min_element >= e and mm.min_element < e + N, "inside the range" );
	CHECK( mm.max_element >= e and mm.max_element < e + N, "inside the range" );
	for( std::size_t n = 0; n < N; ++n ) {
		CHECK( *hi >= e[n] and *mm.max_element >= e[n], "none is greater" );
		CHECK( *mm.min_element <= e[n], "none is less" );
	}
}
DRIVER( element_of_some )( unsigned a, unsigned b, unsigned c, unsigned d ) {
	vs_total( );
	switch( vs_int( ) ) {
	case 1:
		return element_of( { a } );
	case 2:
		return element_of( { a, b } );
	case 3:
		return element_of( { a, b, c } );
	}
	REACH( "end" );
}
DRIVER( element_of_four )( unsigned a, unsigned b, unsigned c, unsigned d ) {
	vs_total( );
	element_of( { a, b, c, d } );
}
DRIVER( element_of_nothing )( uc const *p ) {
	IN( p, 0 );
	vs_total( );
	auto r = al::minmax_element( p, p );
	CHECK( r.min_element == p and r.max_element == p, "nothing" );
	CHECK( al::max_element( p, p ) == p, "nothing" );
	CHECK( al::is_sorted_until( p, p ) == p and al::is_sorted( p, p ), "nothing" );
	CHECK( al::adjacent_find( p, p, std::equal_to<>{ } ) == p, "nothing" );
	CHECK( al::lower_bound( p, p, 3 ) == p and al::upper_bound( p, p, 3 ) == p, "nothing" );
}
DRIVER( items )( unsigned a, unsigned b, unsigned c ) {
	vs_total( );
	auto &lo = al::min_item( a, b, c );
	auto &hi = al::max_item( a, b, c );
	CHECK( lo <= a and lo <= b and lo <= c and ( lo == a or lo == b or lo == c ), "least" );
	CHECK( hi >= a and hi >= b and hi >= c and ( hi == a or hi == b or hi == c ), "greatest" );
	auto mm = al::minmax_item( a, b );
	CHECK( mm.first <= mm.second and ( ( mm.first == a and mm.second == b ) or ( mm.first == b and mm.second == a ) ), "both" );
	CHECK( al::clamp( a, b ) == ( a > b ? b : a ), "clamp" );
	CHECK( al::are_equal( a, b, c ) == ( a == b and b == c ), "equal" );
	CHECK( al::are_equal( a, b ) == ( a == b ) and al::are_equal( a ), "equal" );
	if( a <= b ) {
		CHECK( al::in_range( a, b )( c ) == ( a <= c and c <= b ), "in range" );
	}
	CHECK( al::equal_to( a )( b ) == ( b == a ), "equal to" );
	CHECK( al::less_than( a )( b ) == ( b < a ), "less" );
	CHECK( al::greater_than( a )( b ) == ( b > a ), "greater" );
	CHECK( al::less_than_or_equal_to( a )( b ) == ( b <= a ), "less or equal" );
	CHECK( al::greater_than_or_equal_to( a )( b ) == ( b >= a ), "greater or equal" );
}
DRIVER( in_range_throws )( unsigned a, unsigned b ) {
	vs_throws( );
	bool thrown = false;
	try {
		(void)al::in_range( a, b );
	} catch( std::out_of_range const & ) { thrown = true; }
	CHECK( thrown == ( a > b ), "an empty interval is refused" );
}
// ---- two ranges
DRIVER( equal4 )( uc const *p, std::size_t n, uc const *q, std::size_t m, std::size_t j ) {
	IN( p, n );
	IN( q, m );
	ASSUME( j < n and j < m );
	vs_watch( p + j, 1 );
	vs_watch( q + j, 1 );
	vs_total( );
	bool const r = al::equal( p, p + n, q, q + m );
	CHECK( not r or ( n == m and p[j] == q[j] ), "the same elements" );
	REACH( "end" );
}
DRIVER( equal4_converse )( uc const *p, std::size_t n, uc const *q, std::size_t m ) {
	IN( p, n );
	IN( q, m );
	vs_total( );
	auto yes = []( uc, uc ) { return true; };
	auto no = []( uc, uc ) { return false; };
	CHECK( al::equal( p, p + n, q, q + m, yes ) == ( n == m ), "the same length" );
	CHECK( al::equal( p, p + n, q, q + m, no ) == ( n == 0 and m == 0 ), "nothing is equal" );
	CHECK( al::equal( p, p + n, p, p + n ), "itself" );
}
DRIVER( equal3 )( uc const *p, uc const *q, std::size_t n, std::size_t j ) {
	IN( p, n );
	IN( q, n );
	ASSUME( j < n );
	vs_watch( p + j, 1 );
	vs_watch( q + j, 1 );
	vs_total( );
	bool const r = al::equal( p, p + n, q );
	CHECK( not r or p[j] == q[j], "the same elements" );
	CHECK( al::equal( p, p + n, p ), "itself" );
	REACH( "end" );
}
DRIVER( not_equal )( uc const *p, uc const *q, std::size_t n, std::size_t m, std::size_t j ) {
	IN( p, n );
	IN( q, m );
	ASSUME( j < n and j < m );
	vs_watch( p + j, 1 );
	vs_watch( q + j, 1 );
	vs_total( );
	if( vs_bool( ) ) {
		CHECK( not al::not_equal( p, p + n, q, q + m ) or ( n == m and p[j] != q[j] ), "no two are equal" );
	} else {
		ASSUME( n <= m );
		CHECK( not al::not_equal( p, p + n, q ) or p[j] != q[j], "no two are equal" );
	}
}
DRIVER( lexicographical )( uc const *p, std::size_t n, uc const *q, std::size_t m, std::size_t j ) {
	IN( p, n );
	IN( q, m );
	ASSUME( j < n and j < m );
	vs_watch( p + j, 1 );
	vs_watch( q + j, 1 );
	vs_total( );
	// the first difference is not behind j
	ASSUME( p[j] != q[j] );
	if( vs_bool( ) ) {
		// no difference in front of it: j is 0
		ASSUME( j == 0 );
		CHECK( al::lexicographical_compare( p, p + n, q, q + m ) == ( p[0] < q[0] ), "first difference" );
		CHECK( al::compare_range( p, p + n, q, q + m ) == ( p[0] < q[0] ? -1 : 1 ), "first difference" );
		REACH( "first" );
	} else {
		int const r = al::compare_range( p, p + n, q, q + m );
		CHECK( r == -1 or r == 1, "not equal" );
	}
}
DRIVER( lexicographical_length )( uc const *p, std::size_t n, uc const *q, std::size_t m ) {
	IN( p, n );
	IN( q, m );
	vs_total( );
	auto eq = []( uc, uc ) { return true; };
	auto no = []( uc, uc ) { return false; };
	CHECK( al::lexicographical_compare( p, p + n, q, q + m, no ) == ( n < m ), "the shorter one is less" );
	CHECK( al::compare_range( p, p + n, q, q + m, no, eq ) == ( n < m ? -1 : n > m ? 1 : 0 ), "the shorter one is less" );
	CHECK( not al::lexicographical_compare( p, p + n, p, p + n ), "not less than itself" );
	CHECK( al::compare_range( p, p + n, p, p + n ) == 0, "equal to itself" );
}
DRIVER( lexicographical_small )( unsigned a, unsigned b, unsigned c, unsigned d, unsigned e, unsigned f, std::size_t n, std::size_t m ) {
	vs_total( );
	ASSUME( n <= 2 and m <= 2 );
	unsigned const p[2] = { a, b };
	unsigned const q[2] = { c, d };
	int w = 0;
	if( n > 0 and m > 0 and a != c ) {
		w = a < c ? -1 : 1;
	} else if( n > 1 and m > 1 and b != d ) {
		w = b < d ? -1 : 1;
	} else {
		w = n < m ? -1 : n > m ? 1 : 0;
	}
	CHECK( al::compare_range( p, p + n, q, q + m ) == w, "first difference, then length" );
	CHECK( al::lexicographical_compare( p, p + n, q, q + m ) == ( w < 0 ), "first difference, then length" );
}
DRIVER( search )( uc const *p, std::size_t n, uc const *q, std::size_t m, std::size_t i ) {
	IN( p, n );
	IN( q, m );
	vs_total( );
	auto r = al::search( p, p + n, q, q + m );
	CHECK( WITHIN( r, p, n ), "inside the range" );
	CHECK( r == p + n or r + m <= p + n, "all of it fits" );
	CHECK( m != 0 or r == p, "nothing is found at once" );
	REACH( "end" );
}
DRIVER( search_hit )( uc const *p, std::size_t n, uc a, uc b ) {
	IN( p, n );
	vs_total( );
	uc const s[2] = { a, b };
	auto r = al::search( p, p + n, s, s + 2 );
	CHECK( WITHIN( r, p, n ), "inside the range" );
	CHECK( r == p + n or ( r[0] == a and r[1] == b ), "a match or the end" );
	REACH( "end" );
}
DRIVER( search_first )( uc const *p, std::size_t n, uc a, uc b, std::size_t j ) {
	IN( p, n );
	ASSUME( n >= 2 and j < n - 1 );
	vs_watch( p + j, 1 );
	vs_watch( p + j + 1, 1 );
	ASSUME( p[j] == a and p[j + 1] == b );
	vs_total( );
	uc const s[2] = { a, b };
	auto r = al::search( p, p + n, s, s + 2 );
	CHECK( r <= p + j, "the first match" );
}
// ---- moving an iterator without leaving the range
DRIVER( safe_next )( uc const *p, std::size_t n, std::size_t i, std::size_t d ) {
	IN( p, n );
	ASSUME( i <= n );
	ASSUME( d <= static_cast<std::size_t>( PTRDIFF_MAX ) );
	vs_total( );
	auto r = daw::safe_next( p + i, p + n, d );
	CHECK( r == ( d < n - i ? p + i + d : p + n ), "d steps, or the end" );
	REACH( "end" );
}
DRIVER( safe_prev )( uc const *p, std::size_t n, std::size_t i, std::size_t d ) {
	IN( p, n );
	ASSUME( i <= n );
	ASSUME( d <= static_cast<std::size_t>( PTRDIFF_MAX ) );
	vs_total( );
	auto r = daw::safe_prev( p + i, p, d );
	CHECK( r == ( d < i ? p + i - d : p ), "d steps, or the start" );
	REACH( "end" );
}
struct R {
	uc const *f;
	std::size_t n;
	using value_type = uc;
	using iterator = uc const *;
	uc const *begin( ) const {
		return f;
	}
	uc const *end( ) const {
		return f + n;
	}
};
DRIVER( safe_advance )( uc const *p, std::size_t n, std::size_t i, std::ptrdiff_t d ) {
	IN( p, n );
	ASSUME( i <= n );
	ASSUME( d != PTRDIFF_MIN );
	vs_total( );
	R r{ p, n };
	auto it = p + i;
	daw::safe_advance( r, it, d );
	auto const at = static_cast<std::ptrdiff_t>( i ) + d;
	if( d >= 0 ) {
		CHECK( it == ( d < static_cast<std::ptrdiff_t>( n - i ) ? p + at : p + n ), "d steps, or the end" );
	} else {
		CHECK( it == ( -d < static_cast<std::ptrdiff_t>( i ) ? p + at : p ), "d steps, or the start" );
	}
	REACH( "end" );
}
DRIVER( begin_at )( uc const *p, std::size_t n, std::size_t d ) {
	IN( p, n );
	vs_total( );
	R r{ p, n };
	R const &c = r;
	CHECK( daw::begin_at( r, d ) == ( d < n ? p + d : p + n ), "d steps, or the end" );
	CHECK( daw::begin_at( c, d ) == ( d < n ? p + d : p + n ), "d steps, or the end" );
	REACH( "end" );
}
DRIVER( advance_many )( uc const *p, std::size_t n, std::size_t i ) {
	ASSUME( p != nullptr );
	VS_LEN( n );
	ASSUME( i <= n );
	vs_total( );
	auto a = p, b = p + n - i;
	daw::advance_many( i, a, b );
	CHECK( a == p + i and b == p + n, "both" );
}
