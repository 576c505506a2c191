// P05: an owning pointer destroys what it owns exactly once
// vs: min=60
#include "vs.h"
#include <daw/daw_maybe_unique_ptr.h>
#include <daw/daw_ref_counted_pointer.h>
#include <daw/daw_unique_ptr.h>
#include <daw/daw_value_ptr.h>

// runs to completion, releases what it allocates once, leaves nothing behind
#define OWNS      \
	vs_total( );    \
	vs_alloc_ok( ); \
	vs_no_leak( );

struct Obj {
	int deleted = 0;
	virtual ~Obj( ) = default;
};
struct Kid : Obj {
	int more = 3;
};
struct Del {
	using pointer = Obj *;
	void operator( )( Obj *p ) const noexcept {
		CHECK( p != nullptr, "the deleter is given an object" );
		CHECK( p->deleted == 0, "an object is destroyed once" );
		++p->deleted;
	}
};
struct KidDel {
	using pointer = Kid *;
	operator Del( ) const {
		return { };
	}
	void operator( )( Kid *p ) const noexcept {
		CHECK( p != nullptr, "the deleter is given an object" );
		CHECK( p->deleted == 0, "an object is destroyed once" );
		++p->deleted;
	}
};
#define GONE( o ) CHECK( ( o ).deleted == 1, "the owned object is destroyed" )
#define LEFT( o ) CHECK( ( o ).deleted == 0, "the object is not destroyed" )
// every state: empty or owning
#define ANY( o ) ( vs_bool( ) ? &( o ) : nullptr )
#define WENT( p, o ) CHECK( ( o ).deleted == ( ( p ) ? 1 : 0 ), "destroyed exactly if it was owned" )

#include "P05_unique.inc"
using U = daw::unique_ptr<Obj, Del>;
using UA = daw::unique_ptr<Obj[], Del>;
UNIQUE_COMMON( u, U )
UNIQUE_COMMON( ua, UA )
using M = daw::maybe_unique_ptr<Obj, Del>;
DRIVER( u_reset_p )( ) {
	OWNS
	Obj a, b;
	Obj *pa = ANY( a );
	Obj *pb = ANY( b );
	{
		U x( pa );
		x.reset( pb );
		WENT( pa, a );
		LEFT( b );
		CHECK( x.get( ) == pb, "reset( p ) holds p" );
	}
	WENT( pa, a );
	WENT( pb, b );
	REACH( "end" );
}
DRIVER( u_get_out )( ) {
	OWNS
	Obj a;
	{
		U x;
		*x.get_out( ) = &a;
		CHECK( x.get( ) == &a, "get_out fills the pointer" );
	}
	GONE( a );
	REACH( "end" );
}
DRIVER( u_converting )( ) {
	OWNS
	Kid k;
	Kid *pk = ANY( k );
	{
		daw::unique_ptr<Kid, KidDel> y( pk );
		U x( std::move( y ) );
		CHECK( y.get( ) == nullptr, "the source is empty" );
		CHECK( x.get( ) == pk, "the pointer arrives" );
		LEFT( k );
	}
	WENT( pk, k );
	REACH( "end" );
}
struct AnyDel {
	void operator( )( Obj *p ) const noexcept {
		CHECK( p != nullptr, "the deleter is given an object" );
		CHECK( p->deleted == 0, "an object is destroyed once" );
		++p->deleted;
	}
};
DRIVER( u_converting_assign )( ) {
	OWNS
	Kid k;
	Obj a;
	Kid *pk = ANY( k );
	Obj *pa = ANY( a );
	{
		daw::unique_ptr<Kid, AnyDel> y( pk );
		daw::unique_ptr<Obj, AnyDel> x( pa );
		x = std::move( y );
		CHECK( y.get( ) == nullptr, "the source is empty" );
		CHECK( x.get( ) == pk, "the pointer arrives" );
		LEFT( k );
		WENT( pa, a );
	}
	WENT( pk, k );
	WENT( pa, a );
	REACH( "end" );
}
// the validity checking deleter sees null too
struct NullDel {
	using pointer = Obj *;
	using does_validity_check = void;
	void operator( )( Obj *p ) const noexcept {
		if( p ) {
			CHECK( p->deleted == 0, "an object is destroyed once" );
			++p->deleted;
		}
	}
};
using UN = daw::unique_ptr<Obj, NullDel>;
using UNA = daw::unique_ptr<Obj[], NullDel>;
UNIQUE_COMMON( un, UN )
UNIQUE_COMMON( una, UNA )
// the default deleters on the heap
struct Val {
	int *n;
	explicit Val( int *p )
	  : n( p ) {
		++*n;
	}
	Val( Val const &o )
	  : n( o.n ) {
		++*n;
	}
	Val &operator=( Val const & ) = default;
	~Val( ) {
		--*n;
	}
};
struct Counted {
	int *n;
	explicit Counted( int *p )
	  : n( p ) {
		++*n;
	}
	Counted( Counted const &o )
	  : n( o.n ) {
		++*n;
	}
	Counted &operator=( Counted const & ) = default;
	virtual ~Counted( ) {
		--*n;
	}
};
struct CountedKid : Counted {
	int *k;
	CountedKid( int *p, int *q )
	  : Counted( p )
	  , k( q ) {
		++*k;
	}
	~CountedKid( ) override {
		--*k;
	}
};
DRIVER( u_heap )( ) {
	OWNS
	int n = 0;
	{
		auto x = daw::make_unique<Val>( &n );
		CHECK( n == 1 and x, "made one" );
		auto y = std::move( x );
		CHECK( n == 1 and y and not x, "moved" );
		x = std::move( y );
		CHECK( n == 1 and x and not y, "moved back" );
		y = daw::make_unique<Val>( &n );
		CHECK( n == 2, "made another" );
		y = std::move( x );
		CHECK( n == 1, "the old one is destroyed" );
	}
	CHECK( n == 0, "all are destroyed" );
	REACH( "end" );
}
DRIVER( u_heap_derived )( ) {
	OWNS
	int n = 0;
	int k = 0;
	{
		daw::unique_ptr<Counted> x = daw::unique_ptr<CountedKid>( new CountedKid( &n, &k ) );
		CHECK( n == 1 and k == 1, "made one" );
	}
	CHECK( n == 0 and k == 0, "the most derived object is destroyed" );
	REACH( "end" );
}
// owned, borrowed or empty
#define OWNED( p, own, o ) CHECK( ( o ).deleted == ( ( ( p ) and ( own ) ) ? 1 : 0 ), "destroyed exactly if it was owned" )
#define TWO_M                     \
	OWNS                            \
	Obj a, b, c;                    \
	Obj *pa = ANY( a );             \
	Obj *pb = ANY( b );             \
	bool oa = vs_bool( );           \
	bool ob = vs_bool( );
DRIVER( m_dtor )( ) {
	TWO_M
	{
		M x( pa, oa );
		CHECK( x.get( ) == pa, "holds the pointer" );
		CHECK( static_cast<bool>( x ) == ( pa != nullptr ), "true exactly if it holds one" );
	}
	OWNED( pa, oa, a );
	(void)pb;
	(void)ob;
	LEFT( b );
	REACH( "end" );
}
DRIVER( m_owns_by_default )( ) {
	OWNS
	Obj a;
	Obj *pa = ANY( a );
	{
		M x( pa );
		CHECK( x.get( ) == pa, "holds the pointer" );
	}
	WENT( pa, a );
	REACH( "end" );
}
DRIVER( m_move )( ) {
	TWO_M
	(void)pb;
	(void)ob;
	{
		M x( pa, oa );
		{
			M y( std::move( x ) );
			CHECK( y.get( ) == pa, "the pointer arrives" );
			CHECK( x.get( ) == nullptr, "the source is empty" );
			LEFT( a );
		}
		OWNED( pa, oa, a );
		*x.get_out( ) = &b; // an empty one owns what is put into it
	}
	OWNED( pa, oa, a );
	GONE( b );
	REACH( "end" );
}
DRIVER( m_move_assign )( ) {
	TWO_M
	{
		M x( pa, oa );
		M y( pb, ob );
		y = std::move( x );
		CHECK( y.get( ) == pa, "the pointer arrives" );
		CHECK( x.get( ) == nullptr, "the source is empty" );
		OWNED( pb, ob, b );
		LEFT( a );
		*x.get_out( ) = &c; // an empty one owns what is put into it
	}
	OWNED( pa, oa, a );
	OWNED( pb, ob, b );
	GONE( c );
	REACH( "end" );
}
DRIVER( m_self_move )( ) {
	TWO_M
	(void)pb;
	(void)ob;
	{
		M x( pa, oa );
		M &r = x;
		x = std::move( r );
		CHECK( x.get( ) == pa, "self move keeps the pointer" );
		LEFT( a );
	}
	OWNED( pa, oa, a );
	REACH( "end" );
}
DRIVER( m_release )( ) {
	TWO_M
	(void)ob;
	{
		M x( pa, oa );
		Obj *r = x.release( );
		CHECK( r == pa, "release returns the pointer" );
		CHECK( x.get( ) == nullptr, "and forgets it" );
		*x.get_out( ) = pb; // an empty one owns what is put into it
	}
	LEFT( a );
	WENT( pb, b );
	REACH( "end" );
}
DRIVER( m_reset )( ) {
	TWO_M
	(void)ob;
	{
		M x( pa, oa );
		x.reset( );
		OWNED( pa, oa, a );
		CHECK( x.get( ) == nullptr, "empty afterwards" );
		x.reset( );
		*x.get_out( ) = pb; // an empty one owns what is put into it
		LEFT( b );
	}
	OWNED( pa, oa, a );
	WENT( pb, b );
	REACH( "end" );
}
DRIVER( m_reset_p )( ) {
	TWO_M
	{
		M x( pa, oa );
		x.reset( pb, ob );
		OWNED( pa, oa, a );
		LEFT( b );
		CHECK( x.get( ) == pb, "reset( p ) holds p" );
	}
	OWNED( pa, oa, a );
	OWNED( pb, ob, b );
	REACH( "end" );
}
DRIVER( m_swap )( ) {
	TWO_M
	{
		M y( pb, ob );
		{
			M x( pa, oa );
			x.swap( y );
			CHECK( x.get( ) == pb and y.get( ) == pa, "swap exchanges the pointers" );
			LEFT( a );
			LEFT( b );
		}
		OWNED( pb, ob, b );
		LEFT( a );
	}
	OWNED( pa, oa, a );
	OWNED( pb, ob, b );
	REACH( "end" );
}
DRIVER( m_converting_assign )( ) {
	TWO_M
	Kid k;
	Kid *pk = ANY( k );
	(void)pb;
	{
		daw::maybe_unique_ptr<Kid, AnyDel> y( pk, ob );
		daw::maybe_unique_ptr<Obj, AnyDel> x( pa, oa );
		x = std::move( y );
		CHECK( y.get( ) == nullptr, "the source is empty" );
		CHECK( x.get( ) == pk, "the pointer arrives" );
		LEFT( k );
		OWNED( pa, oa, a );
	}
	OWNED( pk, ob, k );
	OWNED( pa, oa, a );
	REACH( "end" );
}
DRIVER( m_from_unique_assign )( ) {
	TWO_M
	Kid k;
	Kid *pk = ANY( k );
	(void)pb;
	(void)ob;
	{
		daw::unique_ptr<Kid, AnyDel> y( pk );
		daw::maybe_unique_ptr<Obj, AnyDel> x( pa, oa );
		x = std::move( y );
		CHECK( y.get( ) == nullptr, "the source is empty" );
		CHECK( x.get( ) == pk, "the pointer arrives" );
		LEFT( k );
		OWNED( pa, oa, a );
	}
	WENT( pk, k );
	OWNED( pa, oa, a );
	REACH( "end" );
}
// shared ownership
using R = daw::rc_ptr<Obj, Del>;
using RA = daw::rc_ptr<Obj[], Del>;
RC_COMMON( r, R )
RC_COMMON( ra, RA )
DRIVER( r_heap )( ) {
	OWNS
	int n = 0;
	{
		daw::rc_ptr<Val> x( new Val( &n ) );
		{
			auto y = x;
			CHECK( n == 1 and y.get( ) == x.get( ), "shared" );
		}
		CHECK( n == 1, "still held" );
		x.reset( );
		CHECK( n == 0, "the last owner destroys" );
	}
	CHECK( n == 0, "all are destroyed" );
	REACH( "end" );
}
// deep copies
using V = daw::value_ptr<Val>;
#define ANY_V( name )                     \
	V name( std::nullopt );                 \
	bool has_##name = vs_bool( );           \
	if( has_##name ) {                      \
		name = V( &n_##name );                \
	}
DRIVER( v_copy )( ) {
	OWNS
	int n_x = 0;
	{
		ANY_V( x )
		CHECK( n_x == has_x, "holds what it was given" );
		V y( x );
		CHECK( n_x == 2 * has_x, "a copy owns its own object" );
		CHECK( static_cast<bool>( y ) == has_x, "a copy is empty exactly if its source is" );
		CHECK( static_cast<bool>( x ) == has_x, "the source is unchanged" );
		CHECK( not has_x or x.get( ) != y.get( ), "two objects" );
	}
	CHECK( n_x == 0, "all are destroyed" );
	REACH( "end" );
}
DRIVER( v_copy_assign )( ) {
	OWNS
	int n_x = 0, n_y = 0;
	{
		ANY_V( x )
		ANY_V( y )
		y = x;
		CHECK( static_cast<bool>( y ) == has_x, "a copy is empty exactly if its source is" );
		CHECK( static_cast<bool>( x ) == has_x, "the source is unchanged" );
		CHECK( not has_x or x.get( ) != y.get( ), "two objects" );
	}
	REACH( "end" );
}
DRIVER( v_copy_assign_self )( ) {
	OWNS
	int n_x = 0;
	{
		ANY_V( x )
		V &r = x;
		x = r;
		CHECK( static_cast<bool>( x ) == has_x, "self assignment keeps the value" );
		CHECK( n_x == has_x, "nothing is destroyed" );
	}
	CHECK( n_x == 0, "all are destroyed" );
	REACH( "end" );
}
DRIVER( v_move )( ) {
	OWNS
	int n_x = 0;
	{
		ANY_V( x )
		auto *p = x.get( );
		V y( std::move( x ) );
		CHECK( n_x == has_x, "nothing is copied or destroyed" );
		CHECK( y.get( ) == p and not x, "the object changes hands" );
	}
	CHECK( n_x == 0, "all are destroyed" );
	REACH( "end" );
}
DRIVER( v_move_assign )( ) {
	OWNS
	int n_x = 0, n_y = 0;
	{
		ANY_V( x )
		ANY_V( y )
		auto *p = x.get( );
		y = std::move( x );
		CHECK( n_x == has_x and n_y == 0, "the old value is destroyed" );
		CHECK( y.get( ) == p and not x, "the object changes hands" );
	}
	CHECK( n_x == 0 and n_y == 0, "all are destroyed" );
	REACH( "end" );
}
DRIVER( v_self_move )( ) {
	OWNS
	int n_x = 0;
	{
		ANY_V( x )
		V &r = x;
		x = std::move( r );
		CHECK( static_cast<bool>( x ) == has_x, "self move keeps the value" );
		CHECK( n_x == has_x, "nothing is destroyed" );
	}
	CHECK( n_x == 0, "all are destroyed" );
	REACH( "end" );
}
DRIVER( v_assign_value )( ) {
	OWNS
	int n_x = 0, n_v = 0;
	{
		ANY_V( x )
		Val v( &n_v );
		x = v;
		CHECK( static_cast<bool>( x ), "holds a value" );
		CHECK( x.get( ) != &v and ( *x ).n == &n_v, "it is a copy of the value" );
	}
	REACH( "end" );
}
DRIVER( v_assign_rvalue )( ) {
	OWNS
	int n_x = 0, n_v = 0;
	{
		ANY_V( x )
		Val v( &n_v );
		x = std::move( v );
		CHECK( static_cast<bool>( x ), "holds a value" );
		CHECK( x.get( ) != &v and x->n == &n_v, "it is the value" );
	}
	REACH( "end" );
}
DRIVER( v_reset )( ) {
	OWNS
	int n_x = 0;
	{
		ANY_V( x )
		x.reset( );
		CHECK( n_x == 0 and not x, "reset destroys the object" );
	}
	CHECK( n_x == 0, "all are destroyed" );
	REACH( "end" );
}
DRIVER( v_release )( ) {
	OWNS
	int n_x = 0;
	{
		Val *p = nullptr;
		{
			ANY_V( x )
			p = x.get( );
			Val *q = x.release( );
			CHECK( p == q and not x, "release gives the object away" );
		}
		CHECK( n_x == ( p ? 1 : 0 ), "it is not destroyed" );
		delete p;
	}
	CHECK( n_x == 0, "and is the caller's" );
	REACH( "end" );
}
DRIVER( v_swap )( ) {
	OWNS
	int n_x = 0, n_y = 0;
	{
		ANY_V( x )
		{
			ANY_V( y )
			auto *p = x.get( );
			auto *q = y.get( );
			x.swap( y );
			CHECK( x.get( ) == q and y.get( ) == p, "swap exchanges the objects" );
		}
		CHECK( n_x == 0, "what y holds is destroyed with it" );
	}
	CHECK( n_x == 0 and n_y == 0, "all are destroyed" );
	REACH( "end" );
}
DRIVER( v_compare )( int i, int j ) {
	OWNS
	daw::value_ptr<int> x( std::nullopt ), y( std::nullopt );
	bool hx = vs_bool( ), hy = vs_bool( );
	if( hx ) {
		x = i;
	}
	if( hy ) {
		y = j;
	}
	int c = x.compare( y );
	CHECK( ( c == 0 ) == ( hx == hy and ( not hx or i == j ) ), "equal exactly when both are empty or the values are equal" );
	CHECK( ( c < 0 ) == ( hx ? ( hy and i < j ) : hy ), "an empty one is first, then the values decide" );
	CHECK( ( x == y ) == ( c == 0 ) and ( x != y ) == ( c != 0 ), "==" );
	CHECK( ( x < y ) == ( c < 0 ) and ( x <= y ) == ( c <= 0 ), "<" );
	CHECK( ( x > y ) == ( c > 0 ) and ( x >= y ) == ( c >= 0 ), ">" );
	REACH( "end" );
}
