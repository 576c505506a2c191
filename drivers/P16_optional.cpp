// P16: optional and optional<T&>: the state is that of a nullable value after every
// pair of operations, value() throws exactly when there is none, the six relations
// order "nothing" before every value, and an owned object dies exactly once
// vs: min=17
#include "vs.h"
#include <daw/daw_optional.h>
#include <optional>
#include <memory>

using opt = daw::optional<unsigned>;
struct model {
	bool has;
	unsigned v;
};
static bool same( opt const &o, model const &m ) {
	return o.has_value( ) == m.has and static_cast<bool>( o ) == m.has and
	       ( not m.has or ( *o == m.v and *o.operator->( ) == m.v ) );
}
static void step( opt &o, model &m, unsigned k, unsigned x ) {
	if( k == 0 ) {
		o.reset( );
		m = { false, 0 };
	} else if( k == 1 ) {
		o = daw::nullopt;
		m = { false, 0 };
	} else if( k == 2 ) {
		o = x;
		m = { true, x };
	} else if( k == 3 ) {
		CHECK( o.emplace( x ) == x, "emplace gives the new value" );
		m = { true, x };
	} else if( k == 4 ) {
		o = opt( x );
		m = { true, x };
	} else if( k == 5 ) {
		opt const e;
		o = e;
		m = { false, 0 };
	} else if( k == 6 ) {
		opt p( x );
		p.swap( o );
		CHECK( same( p, m ), "swap hands the old state over" );
		m = { true, x };
	} else {
		opt p;
		o.swap( p );
		CHECK( same( p, m ), "swap hands the old state over" );
		m = { false, 0 };
	}
}
template<unsigned K>
static void two( unsigned k1, unsigned x, unsigned y, bool h, unsigned i ) {
	vs_total( );
	model m{ h, i };
	opt o = h ? opt( i ) : opt( );
	CHECK( same( o, m ), "constructed" );
	ASSUME( k1 < 8 );
	step( o, m, K, x );
	CHECK( same( o, m ), "after one operation" );
	step( o, m, k1, y );
	CHECK( same( o, m ), "after two operations" );
}
#define TWO( k ) \
	DRIVER( two##k )( unsigned k1, unsigned x, unsigned y, bool h, unsigned i ) { two<k>( k1, x, y, h, i ); }
TWO( 0 ) TWO( 1 ) TWO( 2 ) TWO( 3 ) TWO( 4 ) TWO( 5 ) TWO( 6 ) TWO( 7 )

DRIVER( value_throws )( bool h, unsigned i, bool c ) {
	vs_throws( );
	vs_total( );
	opt o;
	if( h ) {
		o = i;
	}
	bool threw = false;
	unsigned r = 0;
	try {
		r = c ? std::as_const( o ).value( ) : o.value( );
	} catch( std::bad_optional_access const & ) { threw = true; }
	CHECK( threw == not h, "value() throws iff there is none" );
	CHECK( threw or r == i, "value() is the value" );
	try {
		r = c ? std::move( std::as_const( o ) ).value( ) : std::move( o ).value( );
		CHECK( h and r == i, "rvalue value()" );
	} catch( std::bad_optional_access const & ) { CHECK( not h, "throws iff none" ); }
}
DRIVER( relations )( bool h, unsigned x, bool g, unsigned y ) {
	vs_total( );
	opt a, b;
	if( h ) {
		a = x;
	}
	if( g ) {
		b = y;
	}
	bool const eq = h == g and ( not h or x == y );
	bool const lt = g and ( not h or x < y );
	bool const gt = h and ( not g or y < x );
	CHECK( ( a == b ) == eq, "==" );
	CHECK( ( a != b ) == not eq, "!=" );
	CHECK( ( a < b ) == lt, "<" );
	CHECK( ( a > b ) == gt, ">" );
	CHECK( ( a <= b ) == not gt, "<=" );
	CHECK( ( a >= b ) == not lt, ">=" );
}
DRIVER( relations_nothing )( bool h, unsigned x ) {
	vs_total( );
	opt a;
	if( h ) {
		a = x;
	}
	CHECK( ( a == daw::nullopt ) == not h and ( daw::nullopt == a ) == not h, "==" );
	CHECK( ( a != daw::nullopt ) == h and ( daw::nullopt != a ) == h, "!=" );
	CHECK( not( a < daw::nullopt ) and ( daw::nullopt < a ) == h, "<" );
	CHECK( ( a > daw::nullopt ) == h and not( daw::nullopt > a ), ">" );
	CHECK( ( a <= daw::nullopt ) == not h and daw::nullopt <= a, "<=" );
	CHECK( a >= daw::nullopt and ( daw::nullopt >= a ) == not h, ">=" );
}
DRIVER( relations_value )( bool h, unsigned x, unsigned y ) {
	vs_total( );
	opt a;
	if( h ) {
		a = x;
	}
	bool const eq = h and x == y;
	bool const lt = not h or x < y;
	bool const gt = h and y < x;
	CHECK( ( a == y ) == eq and ( y == a ) == eq, "==" );
	CHECK( ( a != y ) == not eq and ( y != a ) == not eq, "!=" );
	CHECK( ( a < y ) == lt and ( y > a ) == lt, "<" );
	CHECK( ( a > y ) == gt and ( y < a ) == gt, ">" );
	CHECK( ( a <= y ) == not gt and ( y >= a ) == not gt, "<=" );
	CHECK( ( a >= y ) == not lt and ( y <= a ) == not lt, ">=" );
}

struct owner {
	unsigned *p;
	owner( unsigned v )
	  : p( new unsigned( v ) ) {}
	owner( owner const &o )
	  : p( o.p ? new unsigned( *o.p ) : nullptr ) {}
	owner( owner &&o ) noexcept
	  : p( std::exchange( o.p, nullptr ) ) {}
	owner &operator=( owner const &o ) {
		if( this != &o ) {
			owner t( o );
			std::swap( p, t.p );
		}
		return *this;
	}
	owner &operator=( owner &&o ) noexcept {
		owner t( std::move( o ) );
		std::swap( p, t.p );
		return *this;
	}
	~owner( ) {
		delete p;
	}
};
using oopt = daw::optional<owner>;
#define START     \
	vs_total( );    \
	vs_heap( );     \
	vs_no_leak( );  \
	vs_alloc_ok( )
DRIVER( owner_copy )( unsigned x, unsigned y, bool h, bool g ) {
	START;
	oopt a, b;
	if( h ) {
		a.emplace( x );
	}
	if( g ) {
		b.emplace( y );
	}
	a = b;
	CHECK( a.has_value( ) == g and b.has_value( ) == g, "copied state" );
	if( g ) {
		CHECK( *a->p == y and *b->p == y, "copied value" );
		*b->p = x;
		CHECK( *a->p == y, "a copy of its own" );
		oopt c = a;
		CHECK( *c->p == y and *( *a ).p == y, "copied value" );
	}
}
DRIVER( owner_move )( unsigned x, unsigned y, bool h, bool g ) {
	START;
	oopt a, b;
	if( h ) {
		a.emplace( x );
	}
	if( g ) {
		b.emplace( y );
	}
	a = std::move( b );
	CHECK( a.has_value( ) == g, "moved state" );
	if( g ) {
		CHECK( *a->p == y, "moved value" );
		oopt c = std::move( a );
		CHECK( *c->p == y, "moved value" );
		owner d = *std::move( c );
		CHECK( *d.p == y, "moved out" );
		CHECK( c->p == nullptr, "moved, not copied" );
	}
	a.reset( );
	CHECK( not a, "empty" );
}
DRIVER( owner_value )( unsigned x, unsigned y, bool h ) {
	START;
	oopt a;
	if( h ) {
		a = owner( x );
	}
	owner const o( y );
	a = o;
	CHECK( *a->p == y and *o.p == y, "assigned from a value" );
	CHECK( *a.emplace( x ).p == x, "emplaced" );
	owner d = std::move( a ).value( );
	CHECK( *d.p == x, "moved out" );
	a = daw::nullopt;
	CHECK( not a.has_value( ), "empty" );
}

using ropt = daw::optional<unsigned &>;
DRIVER( reference )( bool h, unsigned x, unsigned y ) {
	vs_throws( );
	vs_total( );
	unsigned u = x, w = y;
	ropt a;
	CHECK( not a and a == daw::nullopt, "no object" );
	if( h ) {
		a = ropt( u );
	}
	CHECK( a.has_value( ) == h and static_cast<bool>( a ) == h, "state" );
	bool threw = false;
	try {
		CHECK( &a.value( ) == &u, "value() is the object" );
	} catch( std::bad_optional_access const & ) { threw = true; }
	CHECK( threw == not h, "throws iff there is no object" );
	threw = false;
	try {
		CHECK( &std::as_const( a ).value( ) == &u, "value() is the object" );
	} catch( std::bad_optional_access const & ) { threw = true; }
	CHECK( threw == not h, "throws iff there is no object" );
	if( h ) {
		*a = y;
		CHECK( u == y, "writes the object" );
		CHECK( a.operator->( ) == &u, "points to it" );
	}
	ropt b( w );
	b.swap( a );
	CHECK( &*a == &w and b.has_value( ) == h, "swapped" );
	if( h ) {
		CHECK( &*b == &u, "swapped" );
	}
	a = b;
	CHECK( a.has_value( ) == h, "rebound, not written through" );
	CHECK( w == y, "rebound, not written through" );
	b.reset( );
	CHECK( not b, "reset" );
	a = daw::nullopt;
	CHECK( not a, "reset" );
}
DRIVER( reference_const )( unsigned x ) {
	vs_total( );
	unsigned const c = x;
	daw::optional<unsigned const &> a( c );
	CHECK( &*a == &c and a.operator->( ) == &c and &a.value( ) == &c, "refers to it" );
	CHECK( a == x and x == a, "compares the object" );
}
// a reference to a temporary would dangle
static_assert( std::is_constructible_v<ropt, unsigned &> );
static_assert( not std::is_constructible_v<ropt, unsigned> );
static_assert( not std::is_constructible_v<daw::optional<unsigned const &>, unsigned> );
static_assert( not std::is_copy_constructible_v<daw::optional<std::unique_ptr<int>>> );
static_assert( std::is_move_constructible_v<daw::optional<std::unique_ptr<int>>> );
