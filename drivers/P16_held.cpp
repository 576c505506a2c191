// P16: union_pair holds nothing or one of its two, owned once, through every pair of
// operations and when a copy throws; poly_value copies are independent; poly_var
// refers to what it holds; value_ptr owns its object and copies the value
// vs: min=28
#include "vs.h"
#include <daw/daw_poly_value.h>
#include <daw/daw_poly_var.h>
#include <daw/daw_union_pair.h>
#include <daw/daw_value_ptr.h>
#include <daw/daw_value_ptr.h>
#include <daw/daw_variant_cast.h>
#include <utility>
#include <variant>

template<int Tag, bool Throws>
struct owner_t {
	unsigned *p;
	owner_t( unsigned v )
	  : p( new unsigned( v ) ) {}
	owner_t( owner_t const &o )
	  : p( nullptr ) {
		if constexpr( Throws ) {
			vs_may_throw( );
		}
		p = o.p ? new unsigned( *o.p ) : nullptr;
	}
	owner_t( owner_t &&o ) noexcept
	  : p( std::exchange( o.p, nullptr ) ) {}
	owner_t &operator=( owner_t const &o ) {
		if( this != &o ) {
			owner_t t( o );
			std::swap( p, t.p );
		}
		return *this;
	}
	owner_t &operator=( owner_t &&o ) noexcept {
		owner_t t( std::move( o ) );
		std::swap( p, t.p );
		return *this;
	}
	~owner_t( ) {
		delete p;
	}
	bool operator==( owner_t const &o ) const {
		return *p == *o.p;
	}
	bool operator!=( owner_t const &o ) const {
		return *p != *o.p;
	}
	bool operator<( owner_t const &o ) const {
		return *p < *o.p;
	}
	bool operator<=( owner_t const &o ) const {
		return *p <= *o.p;
	}
	bool operator>( owner_t const &o ) const {
		return *p > *o.p;
	}
	bool operator>=( owner_t const &o ) const {
		return *p >= *o.p;
	}
};
#define START     \
	vs_throws( );   \
	vs_total( );    \
	vs_heap( );     \
	vs_no_leak( );  \
	vs_alloc_ok( )

using A = owner_t<0, false>;
using B = owner_t<1, false>;
using pair_t = daw::union_pair_t<A, B>;
enum { First, Second, Nothing };
static pair_t state( int s, unsigned v ) {
	if( s == First ) {
		return pair_t( A( v ) );
	}
	if( s == Second ) {
		return pair_t( B( v ) );
	}
	return pair_t( );
}
struct look {
	unsigned *calls;
	int *which;
	unsigned operator( )( A const &a ) const {
		++*calls;
		*which = First;
		return *a.p;
	}
	unsigned operator( )( B const &b ) const {
		++*calls;
		*which = Second;
		return *b.p;
	}
};
static void same( pair_t &o, int s, unsigned v ) {
	CHECK( o.which( ) == s, "which" );
	unsigned calls = 0;
	int which = Nothing;
	bool threw = false;
	try {
		unsigned r = o.visit( look{ &calls, &which } );
		CHECK( r == v, "the value held" );
	} catch( daw::visit_null_union_pair_exception const & ) { threw = true; }
	CHECK( threw == ( s == Nothing ), "visiting nothing is reported" );
	CHECK( which == s and calls == ( threw ? 0U : 1U ), "the one held" );
	threw = false;
	try {
		unsigned r = std::as_const( o ).visit( look{ &calls, &which } );
		CHECK( r == v and which == s, "the value held" );
	} catch( daw::visit_null_union_pair_exception const & ) { threw = true; }
	CHECK( threw == ( s == Nothing ), "visiting nothing is reported" );
}
template<int From, int To>
static void pairs( unsigned x, unsigned y, int how ) {
	START;
	ASSUME( how >= 0 and how < 2 );
	pair_t a = state( From, x ), b = state( To, y );
	same( a, From, x );
	if( how == 0 ) {
		a = b;
		same( b, To, y );
	} else {
		a = std::move( b );
	}
	same( a, To, y );
	pair_t c = a;
	same( c, To, y );
	same( a, To, y );
	pair_t d = std::move( a );
	same( d, To, y );
}
#define PAIRS( f, t )                                                 \
	DRIVER( pair_##f##_##t )( unsigned x, unsigned y, int how ) {       \
		pairs<f, t>( x, y, how );                                         \
	}
PAIRS( 0, 0 ) PAIRS( 0, 1 ) PAIRS( 0, 2 ) PAIRS( 1, 0 ) PAIRS( 1, 1 ) PAIRS( 1, 2 )
PAIRS( 2, 0 ) PAIRS( 2, 1 ) PAIRS( 2, 2 )
template<int From>
static void assigned( unsigned x, unsigned y, bool second, bool copy ) {
	START;
	pair_t a = state( From, x );
	if( second ) {
		B b( y );
		if( copy ) {
			a = b;
			CHECK( *b.p == y, "kept" );
		} else {
			a = std::move( b );
		}
	} else {
		A b( y );
		if( copy ) {
			a = b;
			CHECK( *b.p == y, "kept" );
		} else {
			a = std::move( b );
		}
	}
	same( a, second ? Second : First, y );
	auto &self = a;
	a = self;
	same( a, second ? Second : First, y );
}
#define ASSIGNED( f )                                                            \
	DRIVER( assigned_##f )( unsigned x, unsigned y, bool second, bool copy ) {     \
		assigned<f>( x, y, second, copy );                                           \
	}
ASSIGNED( 0 ) ASSIGNED( 1 ) ASSIGNED( 2 )

// a copy that throws leaves an object that can still be used and destroyed
using TA = owner_t<0, true>;
using TB = owner_t<1, true>;
using tpair_t = daw::union_pair_t<TA, TB>;
template<int From>
static void throwing( unsigned x, unsigned y, bool second ) {
	START;
	TA const fa( y );
	TB const fb( y );
	tpair_t a;
	if constexpr( From == First ) {
		a = TA( x );
	} else if constexpr( From == Second ) {
		a = TB( x );
	}
	bool threw = false;
	try {
		if( second ) {
			a = fb;
		} else {
			a = fa;
		}
	} catch( ... ) { threw = true; }
	if( threw ) {
		CHECK( a.which( ) == ( ( second ? Second : First ) == From ? From : Nothing ),
		       "as before where the old object was assigned to, or nothing" );
		a = TB( y );
	}
	CHECK( a.which( ) == ( threw or second ? Second : First ), "usable" );
}
#define THROWING( f )                                                  \
	DRIVER( throwing_##f )( unsigned x, unsigned y, bool second ) {      \
		throwing<f>( x, y, second );                                       \
	}
THROWING( 0 ) THROWING( 1 ) THROWING( 2 )

// poly_value
struct base {
	unsigned tag;
	base( unsigned t = 0 )
	  : tag( t ) {}
	virtual ~base( ) = default;
	virtual unsigned get( ) const {
		return tag;
	}
	virtual void set( unsigned v ) {
		tag = v;
	}
};
struct child : base {
	A own;
	child( unsigned v )
	  : base( 1 )
	  , own( v ) {}
	unsigned get( ) const override {
		return *own.p;
	}
	void set( unsigned v ) override {
		*own.p = v;
	}
};
using poly = daw::poly_value<base>;
DRIVER( poly_value )( unsigned x, unsigned y ) {
	START;
	poly a = child( x );
	CHECK( a->get( ) == x and ( *a ).get( ) == x and a.get( )->get( ) == x, "the object" );
	CHECK( std::as_const( a )->get( ) == x and ( *std::as_const( a ) ).get( ) == x, "the object" );
	poly b = a;
	CHECK( b->get( ) == x, "the same value" );
	b->set( y );
	CHECK( b->get( ) == y and a->get( ) == x, "an object of its own" );
}
DRIVER( poly_value_move )( unsigned x ) {
	START;
	poly a = child( x );
	poly b = std::move( a );
	CHECK( b->get( ) == x, "the value" );
}
DRIVER( poly_value_assign )( unsigned x, unsigned y, bool move ) {
	START;
	poly a = child( x );
	poly b = base( y );
	CHECK( b->get( ) == y, "the value" );
	if( move ) {
		b = std::move( a );
	} else {
		b = a;
		CHECK( a->get( ) == x and a.get( ) != b.get( ), "an object of its own" );
	}
	CHECK( b->get( ) == x, "the value" );
	auto &self = b;
	b = self;
	CHECK( b->get( ) == x, "itself" );
}
DRIVER( poly_value_emplace )( unsigned x ) {
	START;
	poly a( daw::construct_emplace<child>, x );
	CHECK( a->get( ) == x, "made in place" );
	base &r = a;
	CHECK( &r == a.get( ), "the object" );
	poly d;
	CHECK( d->get( ) == 0, "a base" );
}

// poly_var
struct other : base {
	unsigned pad, v;
	other( unsigned x )
	  : base( 2 )
	  , pad( 0 )
	  , v( x ) {}
	unsigned get( ) const override {
		return v;
	}
	void set( unsigned x ) override {
		v = x;
	}
};
using pvar = daw::poly_var<base, child, other>;
DRIVER( poly_var )( unsigned x, unsigned y, bool first ) {
	START;
	pvar a = first ? pvar( child( x ) ) : pvar( other( x ) );
	CHECK( a->get( ) == x and ( *a ).get( ) == x, "the object" );
	CHECK( std::as_const( a )->get( ) == x and ( *std::as_const( a ) ).get( ) == x, "the object" );
	a->set( y );
	CHECK( a->get( ) == y, "written through" );
	( *a ).set( x );
	CHECK( a->get( ) == x, "written through" );
	base const *p = a.operator->( );
	CHECK( p == &*a, "the object held" );
	a = other( y );
	CHECK( a->get( ) == y and a->tag == 2, "the new object" );
}

// value_ptr
using vp = daw::value_ptr<A>;
DRIVER( value_ptr_copy )( unsigned x, unsigned y ) {
	START;
	vp a( x ), b( y );
	CHECK( *a->p == x and *( *a ).p == x and *a.get( )->p == x, "the value" );
	vp c = a;
	CHECK( *c->p == x and c.get( ) != a.get( ), "a copy of its own" );
	*c->p = y;
	CHECK( *a->p == x, "a copy of its own" );
	a = b;
	CHECK( *a->p == y and *b->p == y and a.get( ) != b.get( ), "assigned" );
	auto &self = a;
	a = self;
	CHECK( *a->p == y, "itself" );
}
DRIVER( value_ptr_move )( unsigned x, unsigned y, bool swap_them ) {
	START;
	vp a( x ), b( y );
	if( swap_them ) {
		a.swap( b );
		CHECK( *a->p == y and *b->p == x, "swapped" );
	} else {
		a = std::move( b );
		CHECK( *a->p == y, "moved" );
		vp c = std::move( a );
		CHECK( *c->p == y, "moved" );
	}
}
DRIVER( value_ptr_compare )( unsigned x, unsigned y ) {
	START;
	vp const a( x ), b( y );
	CHECK( ( a == b ) == ( x == y ) and ( a != b ) == ( x != y ), "by value" );
	CHECK( ( a < b ) == ( x < y ) and ( a > b ) == ( x > y ), "by value" );
	CHECK( ( a <= b ) == ( x <= y ) and ( a >= b ) == ( x >= y ), "by value" );
}
static vp maybe( bool h, unsigned x ) {
	if( h ) {
		return vp( x );
	}
	return vp( std::nullopt );
}
DRIVER( value_ptr_empty )( bool h, bool g, unsigned x, unsigned y, bool move ) {
	START;
	vp a = maybe( h, x ), b = maybe( g, y );
	CHECK( static_cast<bool>( a ) == h, "state" );
	if( move ) {
		a = std::move( b );
	} else {
		a = b;
		CHECK( static_cast<bool>( b ) == g, "kept" );
		CHECK( not g or *b->p == y, "kept" );
	}
	CHECK( static_cast<bool>( a ) == g, "state" );
	CHECK( not g or *a->p == y, "value" );
	vp c = a;
	CHECK( static_cast<bool>( c ) == g and ( not g or *c->p == y ), "copied" );
	a.reset( );
	CHECK( not a, "reset" );
	A v( x );
	a = v;
	CHECK( *a->p == x and *v.p == x, "assigned a value" );
	c = std::move( v );
	CHECK( *c->p == x, "assigned a value" );
}
DRIVER( value_ptr_empty_compare )( bool h, bool g, unsigned x, unsigned y ) {
	START;
	vp const a = maybe( h, x ), b = maybe( g, y );
	bool const lt = g and ( not h or x < y );
	bool const gt = h and ( not g or y < x );
	CHECK( ( a < b ) == lt and ( a > b ) == gt, "nothing before every value" );
	CHECK( ( a <= b ) == not gt and ( a >= b ) == not lt, "nothing before every value" );
	CHECK( ( a == b ) == ( not lt and not gt ) and ( a != b ) == ( lt or gt ), "equal" );
}
DRIVER( value_ptr_release )( unsigned x ) {
	START;
	vp a( x );
	A *p = a.release( );
	CHECK( not a and *p->p == x, "handed over" );
	delete p;
}

// variant_cast and can_extract
using var = std::variant<unsigned char, int, char const *>;
DRIVER( variant_cast )( int which, unsigned char c, int i, bool rvalue ) {
	START;
	ASSUME( which >= 0 and which < 3 );
	var v;
	if( which == 0 ) {
		v = c;
	} else if( which == 1 ) {
		v = i;
	} else {
		v = static_cast<char const *>( nullptr );
	}
	bool threw = false;
	int r = 0;
	try {
		r = rvalue ? daw::variant_cast<int>( std::move( v ) ) : daw::variant_cast<int>( v );
	} catch( std::bad_variant_access const & ) { threw = true; }
	CHECK( threw == ( which == 2 ), "what does not convert is reported" );
	CHECK( which != 0 or r == c, "converted" );
	CHECK( which != 1 or r == i, "as it is" );
}
DRIVER( can_extract )( int which, unsigned char c, int i ) {
	START;
	ASSUME( which >= 0 and which < 3 );
	var v;
	if( which == 0 ) {
		v = c;
	} else if( which == 1 ) {
		v = i;
	} else {
		v = static_cast<char const *>( nullptr );
	}
	CHECK( daw::can_extract<int>( v ) == ( which == 1 ), "exactly that type" );
	CHECK( daw::can_extract<unsigned char>( v ) == ( which == 0 ), "exactly that type" );
	CHECK( daw::can_extract<char const *>( std::move( v ) ) == ( which == 2 ), "exactly that type" );
}
