// P12: shared functions: all owners call the same callable, which is destroyed
// with the last of them; the count block goes with the last reference of any kind
// vs: min=8
#include "vs.h"
#include <daw/daw_shared_function.h>

struct life {
	int live = 0;
};
struct counted {
	life *l;
	int tag;
	counted( life *p, int t )
	  : l( p )
	  , tag( t ) {
		++l->live;
	}
	counted( counted const &o )
	  : l( o.l )
	  , tag( o.tag ) {
		++l->live;
	}
	~counted( ) {
		--l->live;
	}
	int operator( )( int a ) {
		return a > 0 ? tag : a;
	}
};
using sf = daw::shared_function<int( int )>;
#define START     \
	vs_total( );    \
	vs_heap( );     \
	vs_no_leak( );  \
	vs_alloc_ok( )
DRIVER( one )( int t, int x ) {
	START;
	life l;
	{
		sf f( counted( &l, t ) );
		CHECK( static_cast<bool>( f ), "holds a callable" );
		CHECK( l.live == 1, "one callable" );
		CHECK( f( x ) == ( x > 0 ? t : x ), "result of the callable" );
	}
	CHECK( l.live == 0, "destroyed with the last owner" );
}
DRIVER( copied )( int t, int x, bool first ) {
	START;
	life l;
	{
		sf f( counted( &l, t ) );
		sf h = f;
		CHECK( l.live == 1, "shared, not copied" );
		if( first ) {
			f = sf{ };
			CHECK( l.live == 1, "still owned" );
			CHECK( h( x ) == ( x > 0 ? t : x ), "result of the callable" );
		} else {
			h = sf{ };
			CHECK( l.live == 1, "still owned" );
			CHECK( f( x ) == ( x > 0 ? t : x ), "result of the callable" );
		}
	}
	CHECK( l.live == 0, "destroyed with the last owner" );
}
DRIVER( moved )( int t, int x ) {
	START;
	life l;
	{
		sf f( counted( &l, t ) );
		sf h = std::move( f );
		CHECK( not static_cast<bool>( f ), "the old one is empty" );
		CHECK( h( x ) == ( x > 0 ? t : x ), "result of the callable" );
	}
	CHECK( l.live == 0, "destroyed with the last owner" );
}
DRIVER( assigned )( int t, int u, int x, bool move ) {
	START;
	life l, m;
	{
		sf f( counted( &l, t ) );
		sf h( counted( &m, u ) );
		if( move ) {
			h = std::move( f );
			CHECK( not static_cast<bool>( f ), "the old one is empty" );
		} else {
			h = f;
		}
		CHECK( m.live == 0, "the callable nobody owns any more is destroyed" );
		CHECK( l.live == 1, "the other is alive" );
		CHECK( h( x ) == ( x > 0 ? t : x ), "result of the callable" );
	}
	CHECK( l.live == 0, "destroyed with the last owner" );
}
DRIVER( self_assigned )( int t, int x, bool move ) {
	START;
	life l;
	{
		sf f( counted( &l, t ) );
		sf &same = f;
		if( move ) {
			f = std::move( same );
		} else {
			f = same;
		}
		CHECK( l.live == 1, "still owned" );
		CHECK( f( x ) == ( x > 0 ? t : x ), "result of the callable" );
	}
	CHECK( l.live == 0, "destroyed with the last owner" );
}
DRIVER( weak_lock )( int t, int x ) {
	START;
	life l;
	{
		sf f( counted( &l, t ) );
		auto w = f.get_weak( );
		{
			sf h = w.lock( );
			CHECK( static_cast<bool>( h ), "locks while it is owned" );
			f = sf{ };
			CHECK( l.live == 1, "owned by the locked one" );
			CHECK( h( x ) == ( x > 0 ? t : x ), "result of the callable" );
		}
		CHECK( l.live == 0, "destroyed with the last owner, not the last weak reference" );
		sf g = w.lock( );
		CHECK( not static_cast<bool>( g ), "does not lock after the last owner" );
	}
	CHECK( l.live == 0, "destroyed once" );
}
DRIVER( weak_copies )( int t, bool move ) {
	START;
	life l;
	{
		sf f( counted( &l, t ) );
		auto w = f.get_weak( );
		auto v = w;
		if( move ) {
			auto u = std::move( w );
			f = sf{ };
			sf h = u.lock( );
			CHECK( not static_cast<bool>( h ), "expired" );
		} else {
			w = v;
			v = std::move( w );
			sf h = v.lock( );
			CHECK( static_cast<bool>( h ), "locks while it is owned" );
		}
	}
	CHECK( l.live == 0, "destroyed with the last owner" );
}
DRIVER( weak_outlives )( int t ) {
	START;
	life l;
	{
		sf f( counted( &l, t ) );
		auto w = f.get_weak( );
		{
			sf h = std::move( f );
		}
		CHECK( l.live == 0, "destroyed with the last owner" );
		auto v = w;
		CHECK( not static_cast<bool>( v.lock( ) ), "expired" );
	}
}
static int fn1( int a ) {
	return a > 0 ? 1 : a;
}
DRIVER( pointer )( int x, bool null ) {
	START;
	int ( *p )( int ) = null ? nullptr : &fn1;
	sf f( p );
	CHECK( static_cast<bool>( f ) == not null, "holds a function unless it is null" );
	if( not null ) {
		CHECK( f( x ) == ( x > 0 ? 1 : x ), "result of the function" );
	}
}
DRIVER( const_signature )( int t, int x ) {
	START;
	struct cobj {
		int t;
		int operator( )( int a ) const {
			return a > 0 ? t : a;
		}
	};
	daw::shared_function<int( int ) const> const f( cobj{ t } );
	CHECK( f( x ) == ( x > 0 ? t : x ), "result of the callable" );
}
