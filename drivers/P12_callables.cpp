// P12: a stored or bound callable is called with the given arguments, once per call
// vs: min=40
#include "vs.h"
#include <daw/daw_any_if.h>
#include <daw/daw_apply.h>
#include <daw/daw_allow_once.h>
#include <daw/daw_bind_args_at.h>
#include <daw/daw_bind_front.h>
#include <daw/daw_do_n.h>
#include <daw/daw_function.h>
#include <daw/daw_function_ref.h>
#include <daw/daw_function_table.h>
#include <daw/daw_function_view.h>
#include <daw/daw_fwd_pack_apply.h>
#include <daw/daw_identity_function.h>
#include <daw/daw_lift.h>
#include <daw/daw_overload.h>
#include <daw/daw_stack_function.h>

struct rec {
	int n = 0, a = 0, b = 0;
};
// result tells the callables apart, the record tells what they were given
struct obj {
	rec *r;
	int tag;
	int operator( )( int a, int b ) const {
		++r->n;
		r->a = a;
		r->b = b;
		return tag;
	}
};
struct vobj {
	rec *r;
	void operator( )( int a, int b ) const {
		++r->n;
		r->a = a;
		r->b = b;
	}
};
static rec g;
static int fn1( int a, int b ) {
	++g.n;
	g.a = a;
	g.b = b;
	return 11;
}
static int fn2( int a, int b ) {
	++g.n;
	g.a = a;
	g.b = b;
	return 22;
}
static void vfn( int a, int b ) {
	++g.n;
	g.a = a;
	g.b = b;
}
#define GIVEN( r, x, y )                              \
	do {                                                \
		CHECK( ( r ).n == 1, "called exactly once" );     \
		CHECK( ( r ).a == x, "given the first argument" ); \
		CHECK( ( r ).b == y, "given the second argument" ); \
	} while( false )

//--- function_ref -----------------------------------------------------------
using ref_t = daw::function_ref<int( int, int )>;
using vref_t = daw::function_ref<void( int, int )>;
DRIVER( ref_object )( int x, int y, int t ) {
	vs_total( );
	rec r;
	obj o{ &r, t };
	ref_t f = o;
	CHECK( r.n == 0, "not called before" );
	int v = f( x, y );
	CHECK( v == t, "result of the callable" );
	GIVEN( r, x, y );
}
DRIVER( ref_pointer )( int x, int y ) {
	vs_total( );
	g = rec{ };
	ref_t f = &fn1;
	CHECK( f( x, y ) == 11, "result of the function" );
	GIVEN( g, x, y );
}
DRIVER( ref_sees_the_object )( int x, int y, int t, int u ) {
	vs_total( );
	rec r;
	obj o{ &r, t };
	ref_t f = o;
	o.tag = u;
	CHECK( f( x, y ) == u, "refers to the object, no copy" );
}
DRIVER( ref_copy )( int x, int y, int t ) {
	vs_total( );
	rec r;
	obj o{ &r, t };
	ref_t f = o;
	ref_t h = f;
	CHECK( h( x, y ) == t, "copy calls the same" );
	GIVEN( r, x, y );
}
DRIVER( ref_assign )( int x, int y, int t, bool toptr ) {
	vs_total( );
	rec r;
	g = rec{ };
	obj o{ &r, t };
	ref_t f = o;
	ref_t h = &fn2;
	if( toptr ) {
		f = h;
		CHECK( f( x, y ) == 22, "assigned from one that has a function" );
		GIVEN( g, x, y );
		CHECK( r.n == 0, "the old one is not called" );
	} else {
		h = f;
		CHECK( h( x, y ) == t, "assigned from one that has an object" );
		GIVEN( r, x, y );
		CHECK( g.n == 0, "the old one is not called" );
	}
}
DRIVER( ref_assign_pointer )( int x, int y, int t ) {
	vs_total( );
	rec r;
	g = rec{ };
	obj o{ &r, t };
	ref_t f = o;
	f = &fn2;
	CHECK( f( x, y ) == 22, "result of the function" );
	GIVEN( g, x, y );
	CHECK( r.n == 0, "the old one is not called" );
}
DRIVER( ref_assign_object )( int x, int y, int t ) {
	vs_total( );
	rec r;
	g = rec{ };
	obj o{ &r, t };
	ref_t f = &fn1;
	f = o;
	CHECK( f( x, y ) == t, "result of the object" );
	GIVEN( r, x, y );
	CHECK( g.n == 0, "the old one is not called" );
}
DRIVER( vref_object )( int x, int y ) {
	vs_total( );
	rec r;
	vobj o{ &r };
	vref_t f = o;
	f( x, y );
	GIVEN( r, x, y );
}
DRIVER( vref_pointer )( int x, int y ) {
	vs_total( );
	g = rec{ };
	vref_t f = &vfn;
	f( x, y );
	GIVEN( g, x, y );
}
DRIVER( vref_drops_result )( int x, int y, int t ) {
	vs_total( );
	rec r;
	obj o{ &r, t };
	vref_t f = o;
	f( x, y );
	GIVEN( r, x, y );
}
DRIVER( vref_assign_pointer )( int x, int y ) {
	vs_total( );
	rec r;
	g = rec{ };
	vobj o{ &r };
	vref_t f = o;
	f = &vfn;
	f( x, y );
	GIVEN( g, x, y );
	CHECK( r.n == 0, "the old one is not called" );
}
DRIVER( vref_assign_object )( int x, int y ) {
	vs_total( );
	rec r;
	g = rec{ };
	vobj o{ &r };
	vref_t f = &vfn;
	f = o;
	f( x, y );
	GIVEN( r, x, y );
	CHECK( g.n == 0, "the old one is not called" );
}
DRIVER( ref_reference_argument )( int x, int y ) {
	vs_total( );
	auto l = []( int &a, int b ) { a = b; };
	daw::function_ref<void( int &, int )> f = l;
	int z = x;
	f( z, y );
	CHECK( z == y, "a reference argument refers to what the caller passed" );
}
//--- function_view ----------------------------------------------------------
DRIVER( view_object )( int x, int y, int t ) {
	vs_total( );
	rec r;
	obj o{ &r, t };
	daw::function_view<int( int, int )> f = o;
	CHECK( f( x, y ) == t, "result of the callable" );
	GIVEN( r, x, y );
}
DRIVER( view_pointer )( int x, int y ) {
	vs_total( );
	g = rec{ };
	daw::function_view<int( int, int )> f = &fn1;
	CHECK( f( x, y ) == 11, "result of the function" );
	GIVEN( g, x, y );
}
DRIVER( view_void )( int x, int y, bool ptr ) {
	vs_total( );
	rec r;
	vobj o{ &r };
	if( ptr ) {
		g = rec{ };
		daw::function_view<void( int, int )> f = &vfn;
		f( x, y );
		GIVEN( g, x, y );
	} else {
		daw::function_view<void( int, int )> f = o;
		f( x, y );
		GIVEN( r, x, y );
	}
}
DRIVER( view_copy )( int x, int y, int t ) {
	vs_total( );
	rec r;
	obj o{ &r, t };
	daw::function_view<int( int, int )> f = o;
	daw::function_view<int( int, int )> const h = std::as_const( f );
	CHECK( f( x, y ) == t, "result of the callable" );
	GIVEN( r, x, y );
}
//--- function (storage inside the object) -----------------------------------
using sf_t = daw::function<64, int( int, int )>;
DRIVER( sf_object )( int x, int y, int t ) {
	vs_throws( );
	vs_total( );
	rec r;
	sf_t f = obj{ &r, t };
	CHECK( not f.empty( ) and static_cast<bool>( f ), "not empty" );
	CHECK( f( x, y ) == t, "result of the callable" );
	GIVEN( r, x, y );
}
DRIVER( sf_const )( int x, int y, int t ) {
	vs_throws( );
	vs_total( );
	rec r;
	sf_t const f = obj{ &r, t };
	CHECK( f( x, y ) == t, "result of the callable" );
	GIVEN( r, x, y );
}
DRIVER( sf_owns )( int x, int y, int t, int u ) {
	vs_throws( );
	vs_total( );
	rec r;
	obj o{ &r, t };
	sf_t f = o;
	o.tag = u;
	CHECK( f( x, y ) == t, "holds the callable it was given, not a reference to it" );
}
DRIVER( sf_pointer )( int x, int y ) {
	vs_throws( );
	vs_total( );
	g = rec{ };
	sf_t f = &fn1;
	CHECK( f( x, y ) == 11, "result of the function" );
	GIVEN( g, x, y );
}
DRIVER( sf_empty )( int x, int y, bool null ) {
	vs_throws( );
	vs_total( );
	int ( *p )( int, int ) = nullptr;
	sf_t f{ };
	if( null ) {
		f = p;
	}
	CHECK( f.empty( ) and not static_cast<bool>( f ), "empty" );
	int how = 0;
	try {
		(void)f( x, y );
	} catch( std::bad_function_call const & ) {
		how = 1;
	} catch( ... ) {
		how = 2;
	}
	CHECK( how == 1, "calling it throws bad_function_call" );
}
DRIVER( sf_copy )( int x, int y, int t ) {
	vs_throws( );
	vs_total( );
	rec r;
	sf_t f = obj{ &r, t };
	sf_t h = f;
	CHECK( h( x, y ) == t, "copy calls the same" );
	GIVEN( r, x, y );
}
DRIVER( sf_assign_copy )( int x, int y, int t, int u ) {
	vs_throws( );
	vs_total( );
	rec r, r2;
	sf_t f = obj{ &r, t };
	sf_t h = obj{ &r2, u };
	h = f;
	CHECK( h( x, y ) == t, "calls the assigned one" );
	GIVEN( r, x, y );
	CHECK( r2.n == 0, "the old one is not called" );
}
DRIVER( sf_assign_callable )( int x, int y, int t, int u ) {
	vs_throws( );
	vs_total( );
	rec r, r2;
	sf_t h = obj{ &r2, u };
	h = obj{ &r, t };
	CHECK( h( x, y ) == t, "calls the assigned one" );
	GIVEN( r, x, y );
	CHECK( r2.n == 0, "the old one is not called" );
}
DRIVER( sf_assign_other_type )( int x, int y, int t ) {
	vs_throws( );
	vs_total( );
	rec r;
	g = rec{ };
	sf_t h = obj{ &r, t };
	h = &fn2;
	CHECK( h( x, y ) == 22, "calls the assigned one" );
	GIVEN( g, x, y );
	CHECK( r.n == 0, "the old one is not called" );
}
DRIVER( sf_self_assign )( int x, int y, int t ) {
	vs_throws( );
	vs_total( );
	rec r;
	sf_t h = obj{ &r, t };
	sf_t &same = h;
	h = same;
	CHECK( h( x, y ) == t, "still calls its own" );
	GIVEN( r, x, y );
}
DRIVER( sf_assign_empty )( int t ) {
	vs_throws( );
	vs_total( );
	rec r;
	sf_t h = obj{ &r, t };
	h = sf_t{ };
	CHECK( h.empty( ), "empty after assigning an empty one" );
}
// counts the live objects; every one must be destroyed once and in its own place
struct life {
	int live = 0, bad = 0;
};
struct counted {
	life *l;
	counted const *self;
	explicit counted( life *p )
	  : l( p )
	  , self( this ) {
		++l->live;
	}
	counted( counted const &o )
	  : l( o.l )
	  , self( this ) {
		if( o.self != &o ) {
			++l->bad;
		}
		++l->live;
	}
	counted( counted &&o ) noexcept
	  : counted( static_cast<counted const &>( o ) ) {}
	counted &operator=( counted const & ) = delete;
	~counted( ) {
		if( self != this ) {
			++l->bad;
		}
		--l->live;
	}
	int operator( )( int a, int ) const {
		if( self != this ) {
			++l->bad;
		}
		return a;
	}
};
#define LIFE( l )                                                        \
	CHECK( ( l ).live == 0, "every copy of the callable is destroyed once" ); \
	CHECK( ( l ).bad == 0, "no bytewise copy of a callable is used" )
DRIVER( sf_life_construct )( ) {
	vs_throws( );
	vs_total( );
	life l;
	{
		sf_t f = counted{ &l };
		CHECK( l.live == 1, "one callable held" );
	}
	LIFE( l );
}
DRIVER( sf_life_copy )( int x, int y ) {
	vs_throws( );
	vs_total( );
	life l;
	{
		sf_t f = counted{ &l };
		sf_t h = f;
		CHECK( l.live == 2, "one callable each" );
		CHECK( h( x, y ) == x and f( x, y ) == x, "both call" );
	}
	LIFE( l );
}
DRIVER( sf_life_move )( int x, int y ) {
	vs_throws( );
	vs_total( );
	life l;
	{
		sf_t f = counted{ &l };
		sf_t h = std::move( f );
		CHECK( h( x, y ) == x, "the new one calls" );
	}
	LIFE( l );
}
DRIVER( sf_life_assign )( int x, int y ) {
	vs_throws( );
	vs_total( );
	life l, m;
	{
		sf_t f = counted{ &l };
		sf_t h = counted{ &m };
		h = f;
		CHECK( m.live == 0, "the old callable is destroyed" );
		CHECK( h( x, y ) == x, "calls" );
	}
	LIFE( l );
	LIFE( m );
}
DRIVER( sf_life_assign_move )( int x, int y ) {
	vs_throws( );
	vs_total( );
	life l, m;
	{
		sf_t f = counted{ &l };
		sf_t h = counted{ &m };
		h = std::move( f );
		CHECK( m.live == 0, "the old callable is destroyed" );
		CHECK( h( x, y ) == x, "calls" );
	}
	LIFE( l );
	LIFE( m );
}
DRIVER( sf_life_assign_callable )( int x, int y ) {
	vs_throws( );
	vs_total( );
	life l, m;
	{
		sf_t h = counted{ &m };
		h = counted{ &l };
		CHECK( m.live == 0, "the old callable is destroyed" );
		CHECK( l.live == 1, "one callable held" );
		CHECK( h( x, y ) == x, "calls" );
	}
	LIFE( l );
	LIFE( m );
}
DRIVER( sf_life_assign_empty )( ) {
	vs_throws( );
	vs_total( );
	life l;
	sf_t h = counted{ &l };
	h = sf_t{ };
	CHECK( h.empty( ), "empty" );
	LIFE( l );
}
//--- function_table ---------------------------------------------------------
// each entry in turn
DRIVER( table_array )( bool first, int x, int y ) {
	vs_total( );
	g = rec{ };
	auto t = daw::make_function_table<int>( &fn1, &fn2 );
	CHECK( t.size( ) == 2, "size is the number of functions" );
	if( first ) {
		CHECK( t( 0, x, y ) == 11, "entry 0" );
	} else {
		CHECK( t( 1, x, y ) == 22, "entry 1" );
	}
	GIVEN( g, x, y );
}
DRIVER( table_array_set )( bool first, int x, int y ) {
	vs_total( );
	auto t = daw::make_function_table<int>( &fn1, &fn1 );
	if( first ) {
		t.set( 0, &fn2 );
		CHECK( t( 0, x, y ) == 22, "the entry that was set" );
		CHECK( t( 1, x, y ) == 11, "the other entry" );
	} else {
		t.set( 1, &fn2 );
		CHECK( t( 0, x, y ) == 11, "the other entry" );
		CHECK( t( 1, x, y ) == 22, "the entry that was set" );
	}
}
DRIVER( table_tuple )( unsigned i, int x, int y, int t0, int t1 ) {
	vs_total( );
	ASSUME( i < 3 );
	rec r;
	g = rec{ };
	struct other : obj {};
	auto t = daw::make_function_table<int>( obj{ &r, t0 }, other{ { &r, t1 } }, &fn2 );
	CHECK( t.size( ) == 3, "size is the number of functions" );
	int v = t.call( i, x, y );
	if( i == 0 ) {
		CHECK( v == t0, "entry 0" );
		GIVEN( r, x, y );
	} else if( i == 1 ) {
		CHECK( v == t1, "entry 1" );
		GIVEN( r, x, y );
	} else {
		CHECK( v == 22, "entry 2" );
		GIVEN( g, x, y );
		CHECK( r.n == 0, "no other entry is called" );
	}
}
DRIVER( table_tuple_out )( unsigned i, int x, int y, int t0 ) {
	ASSUME( i >= 2 );
	rec r;
	auto t = daw::make_function_table<int>( obj{ &r, t0 }, &fn2 );
	(void)t.call( i, x, y );
	NEVER( "an index that names no entry does not come back" );
}
DRIVER( table_tuple_set )( unsigned i, int x, int y, int t0, int t1 ) {
	vs_total( );
	ASSUME( i < 2 );
	rec r;
	g = rec{ };
	auto t = daw::make_function_table<int>( obj{ &r, t0 }, &fn1 );
	t.set( 1, &fn2 );
	t.set( 0, obj{ &r, t1 } );
	int v = t.call( i, x, y );
	if( i == 0 ) {
		CHECK( v == t1, "entry 0" );
	} else {
		CHECK( v == 22, "entry 1" );
	}
}
DRIVER( table_allow_empty )( unsigned i, int x, int y, int t0 ) {
	vs_total( );
	ASSUME( i < 2 );
	rec r;
	int none = 0;
	auto l = [&none] {
		++none;
		return 5;
	};
	auto t = daw::make_function_table<int>( obj{ &r, t0 }, l );
	int v = t.call<true>( i, x, y );
	if( i == 0 ) {
		CHECK( v == t0 and none == 0, "entry 0" );
		GIVEN( r, x, y );
	} else {
		CHECK( v == 5 and none == 1 and r.n == 0, "entry 1, called without arguments" );
	}
}
//--- make_callable, overload, lift ------------------------------------------
DRIVER( callable_pointer )( int x, int y ) {
	vs_total( );
	g = rec{ };
	auto c = daw::make_callable( fn1 );
	CHECK( c( x, y ) == 11, "result of the function" );
	GIVEN( g, x, y );
}
DRIVER( callable_pointer_void )( int x, int y ) {
	vs_total( );
	g = rec{ };
	auto c = daw::make_callable( vfn );
	c( x, y );
	GIVEN( g, x, y );
}
DRIVER( callable_object )( int x, int y, int t ) {
	vs_total( );
	rec r;
	obj o{ &r, t };
	CHECK( &daw::make_callable( o ) == &o, "an object is passed on" );
}
static int by_long( long ) {
	return 3;
}
DRIVER( overload_picks )( int x, char const *p, long l ) {
	vs_total( );
	auto o = daw::overload( [x]( int a ) { return a == x ? 1 : 0; }, [p]( char const *q ) { return p == q ? 2 : 0; }, by_long );
	CHECK( o( x ) == 1, "the one for int" );
	CHECK( o( p ) == 2, "the one for char const *" );
	CHECK( o( l ) == 3, "the one for long" );
}
DRIVER( lift_function )( int x, int y ) {
	vs_total( );
	g = rec{ };
	CHECK( daw::lift<fn1>( x, y ) == 11, "result of the function" );
	GIVEN( g, x, y );
}
DRIVER( lift_macro )( int x, int y ) {
	vs_total( );
	g = rec{ };
	auto l = DAW_LIFT( fn2 );
	CHECK( l( x, y ) == 22, "result of the function" );
	GIVEN( g, x, y );
}
//--- bind -------------------------------------------------------------------
DRIVER( bind_front_one )( int x, int y, int t ) {
	vs_total( );
	rec r;
	auto b = daw::bind_front( obj{ &r, t }, x );
	CHECK( b( y ) == t, "result of the callable" );
	GIVEN( r, x, y );
}
DRIVER( bind_front_two )( int x, int y, int t ) {
	vs_total( );
	rec r;
	auto const b = daw::bind_front( obj{ &r, t }, x, y );
	CHECK( b( ) == t, "result of the callable" );
	GIVEN( r, x, y );
}
DRIVER( bind_front_again )( int x, int y, int z, int t ) {
	vs_total( );
	rec r;
	auto b = daw::bind_front( obj{ &r, t }, x );
	(void)b( z );
	r.n = 0;
	CHECK( b( y ) == t, "result of the callable" );
	GIVEN( r, x, y );
}
DRIVER( bind_front_reference )( int x, int y ) {
	vs_total( );
	auto b = daw::bind_front( []( int a, int &o ) { o = a; }, x );
	int z = y;
	b( z );
	CHECK( z == x, "a reference argument refers to what the caller passed" );
}
struct three {
	int *o;
	int operator( )( int a, int b, int c ) const {
		o[0] = a;
		o[1] = b;
		o[2] = c;
		return 4;
	}
};
DRIVER( bind_at_0 )( int x, int y, int z ) {
	vs_total( );
	int o[3]{ };
	auto b = daw::bind_args_at<0>( three{ o }, x );
	CHECK( b( y, z ) == 4, "result" );
	CHECK( o[0] == x and o[1] == y and o[2] == z, "bound argument first" );
}
DRIVER( bind_at_1 )( int x, int y, int z ) {
	vs_total( );
	int o[3]{ };
	auto b = daw::bind_args_at<1>( three{ o }, x );
	CHECK( b( y, z ) == 4, "result" );
	CHECK( o[0] == y and o[1] == x and o[2] == z, "bound argument second" );
}
DRIVER( bind_at_2 )( int x, int y, int z ) {
	vs_total( );
	int o[3]{ };
	auto const b = daw::bind_args_at<2>( three{ o }, x );
	CHECK( b( y, z ) == 4, "result" );
	CHECK( o[0] == y and o[1] == z and o[2] == x, "bound argument last" );
}
DRIVER( bind_at_two )( int x, int y, int z ) {
	vs_total( );
	int o[3]{ };
	auto const b = daw::bind_args_at<1>( three{ o }, x, z );
	CHECK( b( y ) == 4, "result" );
	CHECK( o[0] == y and o[1] == x and o[2] == z, "both bound arguments in order" );
}
//--- apply, invoke ----------------------------------------------------------
DRIVER( apply_tuple )( int x, int y, int t ) {
	vs_total( );
	rec r;
	CHECK( daw::apply( obj{ &r, t }, std::tuple<int, int>{ x, y } ) == t, "result" );
	GIVEN( r, x, y );
}
DRIVER( apply_no_invoke )( int x, int y, int t ) {
	vs_total( );
	rec r;
	CHECK( daw::apply<false>( obj{ &r, t }, std::tuple<int, int>{ x, y } ) == t, "result" );
	GIVEN( r, x, y );
}
DRIVER( apply_fwd_pack )( int x, int y, int t ) {
	vs_total( );
	rec r;
	CHECK( daw::apply( obj{ &r, t }, daw::fwd_pack( x, y ) ) == t, "result" );
	GIVEN( r, x, y );
}
struct with_member {
	int v;
	int add( int a ) {
		int o = v;
		v = a;
		return o;
	}
};
DRIVER( invoke_member )( int x, int y ) {
	vs_total( );
	with_member m{ x };
	CHECK( daw::invoke( &with_member::add, &m, y ) == x, "through a pointer" );
	CHECK( m.v == y, "argument" );
	CHECK( daw::invoke( &with_member::add, m, x ) == y, "on an object" );
	CHECK( m.v == x, "argument" );
	CHECK( daw::invoke( &with_member::v, m ) == x, "member of an object" );
	CHECK( daw::invoke( &with_member::v, &m ) == x, "member through a pointer" );
	CHECK( daw::invoke( &with_member::v, std::ref( m ) ) == x, "member through a reference_wrapper" );
}
DRIVER( identity )( int x ) {
	vs_total( );
	CHECK( &daw::identity_function( x ) == &x, "the very argument" );
}
//--- counting ---------------------------------------------------------------
DRIVER( do_n_runtime )( std::size_t n ) {
	vs_total( );
	std::size_t c = 0;
	daw::algorithm::do_n( n, [&] { ++c; } );
	CHECK( c == n, "called n times" );
}
DRIVER( do_n_constant )( int x ) {
	vs_total( );
	int c = 0, bad = 0;
	daw::algorithm::do_n<5>(
	  [&]( int a ) {
		  ++c;
		  bad += a == x ? 0 : 1;
	  },
	  x );
	CHECK( c == 5 and bad == 0, "called five times with the argument" );
}
DRIVER( do_n_arg_runtime )( std::size_t n ) {
	vs_total( );
	std::size_t c = 0;
	bool bad = false;
	daw::algorithm::do_n_arg( n, [&]( std::size_t i ) {
		if( i != c ) {
			bad = true;
		}
		++c;
	} );
	CHECK( c == n, "called n times" );
	CHECK( not bad, "given 0, 1, 2 ..." );
}
DRIVER( do_n_arg_constant )( ) {
	vs_total( );
	std::size_t c = 0;
	bool bad = false;
	daw::algorithm::do_n_arg<6, 2>( [&]( std::size_t i ) {
		if( i != 2 * c ) {
			bad = true;
		}
		++c;
	} );
	CHECK( c == 3 and not bad, "given every second number below the count" );
}
DRIVER( allow_once )( bool again ) {
	vs_total( );
	daw::allow_once_t o{ };
	CHECK( not o.check( ), "not called before" );
	CHECK( o.check( ), "called before" );
	CHECK( static_cast<bool>( o ), "called before" );
	if( again ) {
		o.reset( );
		CHECK( not static_cast<bool>( o ), "not called since the reset" );
		CHECK( o.check( ), "called since the reset" );
	}
}
DRIVER( any_if )( bool a, bool b ) {
	vs_total( );
	int first = 0, second = 0;
	bool v = daw::any_if(
	  [&] {
		  ++first;
		  return a;
	  },
	  [&] {
		  ++second;
		  return b;
	  } );
	CHECK( first == 1, "the first is asked" );
	CHECK( second == ( a ? 1 : 0 ), "asking stops at the first false" );
	CHECK( v == ( a and b ), "true when all are" );
}
