// P06: scope guards and unique resources run their clean-up exactly once
// vs: min=20
#include "vs.h"
#include <exception>
static int vs_in_flight;
namespace std {
	int uncaught_exceptions( ) noexcept {
		return vs_in_flight;
	}
}
#include <daw/daw_countable_resource.h>
#include <daw/daw_scope_guard.h>
#include <daw/daw_unique_resource.h>

#define ONCE( n ) CHECK( ( n ) == 1, "runs exactly once" )
#define NOT_YET( n ) CHECK( ( n ) == 0, "has not run" )

struct Run {
	int *n;
	void operator( )( ) const noexcept {
		++*n;
	}
	bool operator==( Run const &r ) const {
		return n == r.n;
	}
};
DRIVER( guard )( ) {
	vs_total( );
	int n = 0;
	{
		auto g = daw::on_scope_exit( Run{ &n } );
		NOT_YET( n );
	}
	ONCE( n );
	REACH( "end" );
}
DRIVER( guard_const_ref )( ) {
	vs_total( );
	int n = 0;
	Run const r{ &n };
	{
		daw::ScopeGuard<Run> g( r );
		NOT_YET( n );
	}
	ONCE( n );
	REACH( "end" );
}
DRIVER( guard_lambda )( ) {
	vs_total( );
	int n = 0;
	{
		auto g = daw::on_scope_exit( [&]( ) noexcept { ++n; } );
		NOT_YET( n );
	}
	ONCE( n );
	REACH( "end" );
}
DRIVER( guard_cancel )( ) {
	vs_total( );
	int n = 0;
	{
		auto g = daw::on_scope_exit( Run{ &n } );
		g.cancel( );
		if( vs_bool( ) ) {
			g.cancel( );
		}
	}
	NOT_YET( n );
	REACH( "end" );
}
DRIVER( guard_dismiss )( ) {
	vs_total( );
	int n = 0;
	{
		auto g = daw::on_scope_exit( Run{ &n } );
		g.dismiss( );
	}
	NOT_YET( n );
	REACH( "end" );
}
DRIVER( guard_run_now )( ) {
	vs_total( );
	int n = 0;
	{
		auto g = daw::on_scope_exit( Run{ &n } );
		g.run_now( );
		ONCE( n );
	}
	ONCE( n );
	REACH( "end" );
}
struct RunThrow {
	int *n;
	void operator( )( ) const {
		++*n;
		vs_may_throw( );
	}
};
DRIVER( guard_run_now_throws )( ) {
	int n = 0;
	try {
		auto g = daw::on_scope_exit( RunThrow{ &n } );
		g.run_now( );
		ONCE( n );
	} catch( ... ) {
		REACH( "thrown" );
	}
	ONCE( n );
	REACH( "end" );
}
DRIVER( guard_exception_leaves )( ) {
	int n = 0;
	try {
		auto g = daw::on_scope_exit( Run{ &n } );
		vs_may_throw( );
		NOT_YET( n );
	} catch( ... ) {
		ONCE( n );
		REACH( "thrown" );
	}
	ONCE( n );
	REACH( "end" );
}
DRIVER( guard_move )( ) {
	vs_total( );
	int n = 0;
	bool cancelled = vs_bool( );
	{
		auto g = daw::on_scope_exit( Run{ &n } );
		if( cancelled ) {
			g.cancel( );
		}
		{
			auto h = std::move( g );
			NOT_YET( n );
		}
		CHECK( n == ( cancelled ? 0 : 1 ), "the guard moved to runs it" );
	}
	CHECK( n == ( cancelled ? 0 : 1 ), "the one moved from does not" );
	REACH( "end" );
}
DRIVER( guard_move_assign )( ) {
	vs_total( );
	int n = 0, m = 0;
	bool cn = vs_bool( ), cm = vs_bool( );
	{
		auto g = daw::on_scope_exit( Run{ &n } );
		auto h = daw::on_scope_exit( Run{ &m } );
		if( cn ) {
			g.cancel( );
		}
		if( cm ) {
			h.cancel( );
		}
		h = std::move( g );
		CHECK( n == 0, "has not run" );
		CHECK( m <= 1, "at most once" );
	}
	CHECK( n == ( cn ? 0 : 1 ), "the guard moved to runs it" );
	CHECK( m <= ( cm ? 0 : 1 ), "the replaced one at most once" );
	REACH( "end" );
}
DRIVER( guard_self_move )( ) {
	vs_total( );
	int n = 0;
	{
		auto g = daw::on_scope_exit( Run{ &n } );
		auto &r = g;
		g = std::move( r );
		NOT_YET( n );
	}
	ONCE( n );
	REACH( "end" );
}
DRIVER( on_success )( int in_flight ) {
	vs_total( );
	vs_in_flight = 0;
	int n = 0;
	{
		daw::on_exit_success g( Run{ &n } );
		NOT_YET( n );
		vs_in_flight = in_flight;
	}
	CHECK( n == ( in_flight == 0 ? 1 : 0 ), "runs exactly when no exception is in flight" );
	REACH( "end" );
}
// resources
struct Close {
	void operator( )( int *&p ) const noexcept {
		CHECK( p != nullptr and *p == 0, "released once" );
		++*p;
	}
};
using Res = daw::unique_resource<int *, Close>;
#define RES_STATE                           \
	vs_total( );                              \
	int a = 0, b = 0;                         \
	bool ha = vs_bool( ), hb = vs_bool( );
#define HELD( h, v ) CHECK( ( v ) == ( ( h ) ? 1 : 0 ), "released exactly once if it was held" )
#define MAKE( name, h, v ) \
	Res name;                \
	if( h ) {                \
		name.reset( &( v ) );  \
	}
DRIVER( res_dtor )( ) {
	RES_STATE( void ) hb;
	{
		MAKE( x, ha, a )
		NOT_YET( a );
		CHECK( not ha or ( x.get( ) == &a and *x == &a and *x.operator->( ) == &a ), "holds it" );
	}
	HELD( ha, a );
	NOT_YET( b );
	REACH( "end" );
}
DRIVER( res_ctor )( ) {
	vs_total( );
	int a = 0;
	{
		Res x( &a );
		CHECK( x.get( ) == &a, "holds it" );
		NOT_YET( a );
	}
	ONCE( a );
	REACH( "end" );
}
DRIVER( res_reset )( ) {
	RES_STATE( void ) hb;
	{
		MAKE( x, ha, a )
		x.reset( );
		HELD( ha, a );
		x.reset( );
	}
	HELD( ha, a );
	NOT_YET( b );
	REACH( "end" );
}
DRIVER( res_reset_v )( ) {
	RES_STATE( void ) hb;
	{
		MAKE( x, ha, a )
		x.reset( &b );
		HELD( ha, a );
		NOT_YET( b );
		CHECK( x.get( ) == &b, "holds the new one" );
	}
	HELD( ha, a );
	ONCE( b );
	REACH( "end" );
}
DRIVER( res_emplace )( ) {
	RES_STATE( void ) hb;
	{
		MAKE( x, ha, a )
		auto &r = x.emplace( &b );
		HELD( ha, a );
		NOT_YET( b );
		CHECK( x.get( ) == &b and &r == &x.get( ), "holds the new one" );
	}
	HELD( ha, a );
	ONCE( b );
	REACH( "end" );
}
DRIVER( res_release )( ) {
	vs_total( );
	int a = 0, b = 0;
	{
		Res x( &a );
		int *r = x.release( );
		CHECK( r == &a, "release returns it" );
		if( vs_bool( ) ) {
			x.reset( &b );
		}
	}
	NOT_YET( a );
	CHECK( b <= 1, "released at most once" );
	REACH( "end" );
}
DRIVER( res_move )( ) {
	RES_STATE( void ) hb;
	{
		MAKE( x, ha, a )
		{
			Res y( std::move( x ) );
			NOT_YET( a );
			CHECK( not ha or y.get( ) == &a, "it changes hands" );
		}
		HELD( ha, a );
		x.reset( &b );
	}
	HELD( ha, a );
	ONCE( b );
	REACH( "end" );
}
DRIVER( res_move_assign )( ) {
	RES_STATE
	int c = 0;
	{
		MAKE( x, ha, a )
		MAKE( y, hb, b )
		y = std::move( x );
		NOT_YET( a );
		HELD( hb, b );
		CHECK( not ha or y.get( ) == &a, "it changes hands" );
		x.reset( &c );
	}
	HELD( ha, a );
	HELD( hb, b );
	ONCE( c );
	REACH( "end" );
}
DRIVER( res_self_move )( ) {
	RES_STATE( void ) hb;
	{
		MAKE( x, ha, a )
		auto &r = x;
		x = std::move( r );
		NOT_YET( a );
		CHECK( not ha or x.get( ) == &a, "still held" );
	}
	HELD( ha, a );
	NOT_YET( b );
	REACH( "end" );
}
DRIVER( res_exception )( ) {
	int a = 0;
	try {
		Res x( &a );
		vs_may_throw( );
	} catch( ... ) {
		REACH( "thrown" );
		ONCE( a );
	}
	ONCE( a );
	REACH( "end" );
}
// the number of live objects
struct Tag {};
using Cnt = daw::countable_resource_t<int>;
DRIVER( count_live )( ) {
	vs_total( );
	int const before = Cnt::value( );
	ASSUME( before >= 0 and before < 1000000 );
	{
		Cnt a;
		CHECK( Cnt::value( ) == before + 1, "one more" );
		Cnt b( a );
		CHECK( Cnt::value( ) == before + 2, "one more" );
		Cnt c( std::move( b ) );
		CHECK( Cnt::value( ) == before + 3, "one more" );
		c = a;
		b = std::move( a );
		CHECK( Cnt::value( ) == before + 3, "assignment makes no object" );
	}
	CHECK( Cnt::value( ) == before, "all are gone" );
	REACH( "end" );
}
