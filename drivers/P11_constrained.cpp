// P11: a constrained value never holds anything that fails its constraint
// vs: min=30
#include "vs.h"
#include <daw/daw_contract.h>
#include <daw/daw_natural.h>
#include <daw/daw_not_null.h>
#include <daw/daw_validated.h>

#define START  \
	vs_throws( ); \
	vs_total( )
// runs the statement; o: 0 nothing thrown, 1 the right exception, 2 another
#define OUTCOME( o, E, ... )     \
	int o = 0;                     \
	try {                          \
		__VA_ARGS__;                 \
	} catch( E const & ) { o = 1; } catch( ... ) { \
		o = 2;                       \
	}
#define EXACTLY( o, cond )                              \
	CHECK( o != 2, "throws the right exception" );        \
	if( cond ) {                                          \
		CHECK( o == 1, "a value that fails is refused" );   \
		REACH( "refused" );                                 \
	} else {                                              \
		CHECK( o == 0, "a value that passes is accepted" ); \
		REACH( "accepted" );                                \
	}

// --- natural numbers ------------------------------------------------------
using N = daw::natural_t<int>;
using U8 = daw::natural_t<unsigned char>;
using BAD = daw::invalid_natural_number;
DRIVER( natural_default )( ) {
	START;
	CHECK( N{ }.value( ) == 1, "one" );
}
DRIVER( natural_construct )( int v ) {
	START;
	int r = 0;
	OUTCOME( o, BAD, r = N( v ).value( ) );
	EXACTLY( o, v < 1 );
	if( o == 0 ) {
		CHECK( r == v, "the value it was given" );
	}
}
DRIVER( natural_assign )( int v ) {
	START;
	N n{ };
	OUTCOME( o, BAD, n = v );
	EXACTLY( o, v < 1 );
	CHECK( n.value( ) == ( o == 0 ? v : 1 ), "the new value, or the old one" );
}
DRIVER( natural_narrow_construct )( int v ) {
	START;
	int r = -1;
	OUTCOME( o, BAD, r = U8( v ).value( ) );
	if( o == 0 ) {
		CHECK( r >= 1, "what it holds is a natural number" );
		REACH( "accepted" );
	}
}
DRIVER( natural_narrow_assign )( int v ) {
	START;
	U8 n{ };
	OUTCOME( o, BAD, n = v );
	CHECK( n.value( ) >= 1, "what it holds is a natural number" );
	if( o == 0 ) {
		REACH( "accepted" );
	}
}
#define NAT2( a, b )          \
	START;                      \
	ASSUME( a >= 1 and b >= 1 ); \
	N x( a );                   \
	N y( b )
DRIVER( natural_add )( int a, int b ) {
	NAT2( a, b );
	ASSUME( a < 1000000 and b < 1000000 );
	CHECK( ( x + y ).value( ) == a + b, "the sum" );
	x += y;
	CHECK( x.value( ) == a + b, "the sum" );
}
DRIVER( natural_sub )( int a, int b ) {
	NAT2( a, b );
	int r = 0;
	OUTCOME( o, BAD, r = ( x - y ).value( ) );
	EXACTLY( o, a - b < 1 );
	if( o == 0 ) {
		CHECK( r == a - b, "the difference" );
	}
}
DRIVER( natural_sub_assign )( int a, int b ) {
	NAT2( a, b );
	OUTCOME( o, BAD, x -= y );
	EXACTLY( o, a - b < 1 );
	CHECK( x.value( ) == ( o == 0 ? a - b : a ), "the difference, or the old value" );
}
DRIVER( natural_mul )( int a ) {
	START;
	ASSUME( a >= 1 and a < 1000000 );
	N x( a );
	N y( 3 );
	CHECK( ( x * y ).value( ) == a * 3, "the product" );
	x *= y;
	CHECK( x.value( ) == a * 3, "the product" );
}
DRIVER( natural_div )( int a, int b ) {
	NAT2( a, b );
	int r = 0;
	OUTCOME( o, BAD, r = ( x / y ).value( ) );
	EXACTLY( o, a / b < 1 );
	if( o == 0 ) {
		CHECK( r == a / b, "the quotient" );
	}
}
DRIVER( natural_div_assign )( int a, int b ) {
	NAT2( a, b );
	OUTCOME( o, BAD, x /= y );
	EXACTLY( o, a / b < 1 );
	CHECK( x.value( ) == ( o == 0 ? a / b : a ), "the quotient, or the old value" );
}
DRIVER( natural_mod )( int a, int b ) {
	NAT2( a, b );
	int r = 0;
	OUTCOME( o, BAD, r = ( x % y ).value( ) );
	EXACTLY( o, a % b < 1 );
	if( o == 0 ) {
		CHECK( r == a % b, "the remainder" );
	}
}
DRIVER( natural_mod_assign )( int a, int b ) {
	NAT2( a, b );
	OUTCOME( o, BAD, x %= y );
	EXACTLY( o, a % b < 1 );
	CHECK( x.value( ) == ( o == 0 ? a % b : a ), "the remainder, or the old value" );
}
DRIVER( natural_inc )( int a ) {
	START;
	ASSUME( a >= 1 and a < 1000000 );
	N x( a );
	N &r = ++x;
	CHECK( &r == &x and x.value( ) == a + 1, "one more" );
	CHECK( ( x++ ).value( ) == a + 1, "the old value" );
	CHECK( x.value( ) == a + 2, "one more" );
}
DRIVER( natural_dec )( int a ) {
	START;
	ASSUME( a >= 1 );
	N x( a );
	OUTCOME( o, BAD, --x );
	EXACTLY( o, a == 1 );
	CHECK( x.value( ) == ( o == 0 ? a - 1 : a ), "one less, or the old value" );
}
DRIVER( natural_post_dec )( int a ) {
	START;
	ASSUME( a >= 1 );
	N x( a );
	int r = 0;
	OUTCOME( o, BAD, r = ( x-- ).value( ) );
	EXACTLY( o, a == 1 );
	CHECK( x.value( ) == ( o == 0 ? a - 1 : a ), "one less, or the old value" );
	if( o == 0 ) {
		CHECK( r == a, "the old value" );
	}
}
DRIVER( natural_compare )( int a, int b ) {
	NAT2( a, b );
	if( a == b ) {
		CHECK( x == y and x <= y and x >= y, "equal" );
		CHECK( not( x != y ) and not( x < y ) and not( x > y ), "equal" );
	} else if( a < b ) {
		CHECK( x < y and x <= y and x != y, "less" );
		CHECK( not( x == y ) and not( x > y ) and not( x >= y ), "less" );
	} else {
		CHECK( x > y and x >= y and x != y, "greater" );
		CHECK( not( x == y ) and not( x < y ) and not( x <= y ), "greater" );
	}
}
// --- validated --------------------------------------------------------------
struct Even {
	constexpr bool operator( )( int v ) const {
		return v == 0 or v > 100;
	}
};
using V = daw::validated<int, Even>;
#define VALID( v ) ( ( v ) == 0 or ( v ) > 100 )
DRIVER( validated_construct )( int v ) {
	START;
	int r = 0;
	OUTCOME( o, std::out_of_range, r = V( v ).get( ) );
	EXACTLY( o, not( VALID( v ) ) );
	if( o == 0 ) {
		CHECK( r == v, "the value it was given" );
	}
}
DRIVER( validated_in_place )( int v ) {
	START;
	int r = 0;
	OUTCOME( o, std::out_of_range, r = V( std::in_place, v ).get( ) );
	EXACTLY( o, not( VALID( v ) ) );
	if( o == 0 ) {
		CHECK( r == v, "the value it was given" );
	}
}
DRIVER( validated_assign_const )( int const v, int w ) {
	START;
	ASSUME( VALID( w ) );
	V x( w );
	OUTCOME( o, std::out_of_range, x = v );
	EXACTLY( o, not( VALID( v ) ) );
	CHECK( x.get( ) == ( o == 0 ? v : w ), "the new value, or the old one" );
}
DRIVER( validated_assign_move )( int v, int w ) {
	START;
	ASSUME( VALID( w ) );
	V x( w );
	OUTCOME( o, std::out_of_range, x = std::move( v ) );
	EXACTLY( o, not( VALID( v ) ) );
	CHECK( x.get( ) == ( o == 0 ? v : w ), "the new value, or the old one" );
}
DRIVER( validated_access )( int v ) {
	START;
	ASSUME( VALID( v ) );
	V x( v );
	CHECK( *x == v and static_cast<int const &>( x ) == v and *x.operator->( ) == v, "every access is to the value" );
	CHECK( V( v ).get( ) == v, "every access is to the value" );
	V y = x;
	CHECK( y.get( ) == v, "a copy holds the same value" );
}
enum class Color : int { red = 0, green = 101 };
using VC = daw::validated<Color, Even>;
DRIVER( validated_enum )( int v ) {
	START;
	int r = 0;
	OUTCOME( o, std::out_of_range, r = static_cast<int>( VC( v ).get( ) ) );
	EXACTLY( o, not( VALID( v ) ) );
	if( o == 0 ) {
		CHECK( r == v, "the value it was given" );
	}
}
// --- not_null ---------------------------------------------------------------
using NN = daw::not_null<int *>;
static_assert( not std::is_constructible_v<NN, std::nullptr_t> and not std::is_assignable_v<NN &, std::nullptr_t>, "not_null from nullptr" );
static_assert( not std::is_default_constructible_v<NN>, "not_null from nothing" );
DRIVER( not_null_construct )( int *p ) {
	vs_throws( );
	NN n( p );
	CHECK( p != nullptr, "goes on with a null pointer" );
	CHECK( n.get( ) == p, "the pointer it was given" );
	REACH( "goes on otherwise" );
}
DRIVER( not_null_construct_total )( int *p ) {
	START;
	ASSUME( p != nullptr );
	NN n( p );
	CHECK( n.get( ) == p, "the pointer it was given" );
}
DRIVER( not_null_assign )( int *p ) {
	vs_throws( );
	int i = 0;
	NN n( &i );
	NN &r = n = p;
	CHECK( p != nullptr, "goes on with a null pointer" );
	CHECK( &r == &n and n.get( ) == p, "the pointer it was given" );
	REACH( "goes on otherwise" );
}
DRIVER( not_null_assign_total )( int *p ) {
	START;
	ASSUME( p != nullptr );
	int i = 0;
	NN n( &i );
	n = p;
	CHECK( n.get( ) == p, "the pointer it was given" );
}
DRIVER( not_null_convert )( int *p ) {
	vs_throws( );
	auto f = []( NN n ) { return n.get( ); };
	int *q = f( p );
	CHECK( p != nullptr, "goes on with a null pointer" );
	CHECK( q == p, "the pointer it was given" );
	REACH( "goes on otherwise" );
}
DRIVER( not_null_access )( int *p, int v ) {
	START;
	ASSUME( p != nullptr );
	vs_region( p, 8 * sizeof( int ), true );
	NN n( p );
	*n = v;
	CHECK( *p == v, "refers to the object" );
	CHECK( &*n == p and n.operator->( ) == p and static_cast<int *>( n ) == p, "every access is to the object" );
	CHECK( &n[3] == p + 3, "every access is to the object" );
	NN const c = n;
	CHECK( &*c == p and c.operator->( ) == p and c.get( ) == p and static_cast<int *>( c ) == p, "every access is to the object" );
}
DRIVER( not_null_arith )( int *p, std::ptrdiff_t k ) {
	START;
	ASSUME( p != nullptr and k >= 0 and k < 1000 );
	NN n( p );
	CHECK( ( n + k ).get( ) == p + k and ( k + n ).get( ) == p + k, "moved by k" );
	NN m = n;
	m += k;
	CHECK( m.get( ) == p + k, "moved by k" );
	CHECK( m - n == k, "the distance" );
	m -= k;
	CHECK( m.get( ) == p, "moved back by k" );
	CHECK( ( ( n + k ) - k ).get( ) == p, "moved back by k" );
}
DRIVER( not_null_step )( int *p ) {
	START;
	ASSUME( p != nullptr );
	NN n( p );
	CHECK( ( n++ ).get( ) == p and n.get( ) == p + 1, "one on" );
	NN &r = ++n;
	CHECK( &r == &n and n.get( ) == p + 2, "one on" );
	CHECK( ( n-- ).get( ) == p + 2 and n.get( ) == p + 1, "one back" );
	NN &q = --n;
	CHECK( &q == &n and n.get( ) == p, "one back" );
}
DRIVER( not_null_compare )( int *p, int *q ) {
	START;
	ASSUME( p != nullptr and q != nullptr );
	NN a( p );
	NN b( q );
	if( p == q ) {
		CHECK( a == b and a <= b and a >= b and a == q and p == b and a <= q and p <= b and a >= q and p >= b, "equal" );
		CHECK( not( a != b or a < b or a > b or a != q or p != b or a < q or p < b or a > q or p > b ), "equal" );
	} else if( p < q ) {
		CHECK( a != b and a <= b and a < b and a != q and p != b and a <= q and p <= b and a < q and p < b, "less" );
		CHECK( not( a == b or a > b or a >= b or a == q or p == b or a > q or p > b or a >= q or p >= b ), "less" );
	} else {
		CHECK( a != b and a >= b and a > b and a != q and p != b and a >= q and p >= b and a > q and p > b, "greater" );
		CHECK( not( a == b or a < b or a <= b or a == q or p == b or a < q or p < b or a <= q or p <= b ), "greater" );
	}
}
// --- contract ---------------------------------------------------------------
static void refuse( ) {
	throw 5;
}
DRIVER( contract_construct )( int v ) {
	vs_throws( );
	bool refused = false;
	daw::contract_failure_handler = refuse;
	try {
		daw::contract<int, Even> c( v );
		CHECK( VALID( v ), "goes on with a value that fails" );
		CHECK( c.get( ) == v and *c == v and static_cast<int const &>( c ) == v and c.extract( ) == v, "the value it was given" );
		REACH( "accepted" );
	} catch( ... ) { refused = true; }
	if( refused ) {
		CHECK( not( VALID( v ) ), "only a value that fails is refused" );
	}
}
