// Controls of the analyser, no library code: every ok_ driver has to be
// discharged, every bad_ driver has to be reported, on every run.
// vs: min=12
#include "vs.h"
#include <cstring>
DRIVER( ok_loop_bounds )( unsigned char const *p, size_t n ) {
	VS_LEN( n );
	ASSUME( p != nullptr );
	vs_region( p, n, false );
	vs_total( );
	size_t r = 0;
	while( r < n and p[r] != 7 ) {
		++r;
	}
	CHECK( r <= n, "stays inside" );
	CHECK( r == n or p[r] == 7, "stops at a hit" );
}
DRIVER( bad_loop_bounds )( unsigned char const *p, size_t n ) {
	VS_LEN( n );
	ASSUME( p != nullptr );
	vs_region( p, n, false );
	size_t r = 0;
	while( p[r] != 7 and r < n ) {
		++r;
	}
	CHECK( r <= n, "stays inside" );
}
DRIVER( bad_loop_stop )( unsigned char const *p, size_t n ) {
	VS_LEN( n );
	ASSUME( p != nullptr );
	vs_region( p, n, false );
	size_t r = 0;
	while( r < n and p[r] != 8 ) {
		++r;
	}
	CHECK( r == n or p[r] == 7, "stops at a hit" );
}
DRIVER( ok_watch )( unsigned char const *p, size_t n, size_t j ) {
	VS_LEN( n );
	ASSUME( p != nullptr );
	vs_region( p, n, false );
	ASSUME( j < n );
	vs_watch( p + j, 1 );
	ASSUME( p[j] == 7 );
	size_t r = 0;
	while( r < n and p[r] != 7 ) {
		++r;
	}
	CHECK( r <= j, "first match" );
}
DRIVER( bad_watch )( unsigned char const *p, size_t n, size_t j ) {
	VS_LEN( n );
	ASSUME( p != nullptr );
	vs_region( p, n, false );
	ASSUME( j < n );
	vs_watch( p + j, 1 );
	ASSUME( p[j] == 7 );
	size_t r = n;
	while( r > 0 and p[r - 1] != 7 ) {
		--r;
	}
	CHECK( r <= j + 1, "last match is not the first" );
}
DRIVER( ok_memchr )( unsigned char const *p, size_t n ) {
	VS_LEN( n );
	ASSUME( p != nullptr );
	vs_region( p, n, false );
	auto q = static_cast<unsigned char const *>( std::memchr( p, 3, n ) );
	CHECK( q == nullptr or ( q >= p and q < p + n and *q == 3 ), "memchr" );
}
DRIVER( bad_memchr )( unsigned char const *p, size_t n ) {
	VS_LEN( n );
	ASSUME( p != nullptr );
	vs_region( p, n, false );
	auto q = static_cast<unsigned char const *>( std::memchr( p, 3, n + 1 ) );
	CHECK( q == nullptr or ( q >= p and q < p + n ), "memchr" );
}
DRIVER( ok_eh )( int a ) {
	int st = 0;
	try {
		vs_may_throw( );
		st = 1;
	} catch( int ) { st = 2; } catch( ... ) {
		st = 3;
	}
	CHECK( st != 0, "one of the ways out was taken" );
	REACH( "done" );
}
DRIVER( bad_eh )( int a ) {
	int st = 0;
	try {
		vs_may_throw( );
		st = 1;
	} catch( ... ) {}
	CHECK( st == 1, "an exception skips the rest" );
}
DRIVER( bad_total )( int a ) {
	vs_total( );
	if( a == 3 ) {
		throw a;
	}
}
DRIVER( bad_ub )( int a, int b ) {
	vs_total( );
	CHECK( ( a << b ) >= ( a << b ), "shift out of range" );
}
DRIVER( bad_reach )( int a ) {
	if( a > 3 and a < 3 ) {
		REACH( "impossible" );
	}
}
struct cell {
	int *alive;
	explicit cell( int *p )
	  : alive( p ) {
		++*alive;
	}
	cell( cell const & ) = delete;
	~cell( ) {
		CHECK( *alive == 1, "destroyed once" );
		--*alive;
	}
};
DRIVER( ok_heap )( bool b ) {
	int alive = 0;
	cell *p = b ? new cell( &alive ) : nullptr;
	if( b ) {
		delete p;
	}
	CHECK( alive == 0, "nothing left" );
}
DRIVER( bad_heap )( bool b, bool c ) {
	int alive = 0;
	cell *p = b ? new cell( &alive ) : nullptr;
	if( b and c ) {
		delete p;
	}
	CHECK( alive == 0, "nothing left" );
}
DRIVER( ok_alloca_escape )( int a ) {
	int x = 5;
	vs_opaque( );
	CHECK( x == 5, "a private local survives an unknown call" );
}
DRIVER( ok_arith )( unsigned a, unsigned b ) {
	ASSUME( a < 1000 and b < 1000 );
	CHECK( a + b < 2000, "no wrap" );
	CHECK( ( a ^ b ^ b ) == a, "xor" );
}
DRIVER( bad_arith )( unsigned a, unsigned b ) {
	CHECK( a + b >= a, "wraps" );
}
// the allocation ledger
DRIVER( ok_ledger )( bool b ) {
	vs_total( );
	vs_alloc_ok( );
	vs_no_leak( );
	int *p = new int( 3 );
	int *q = b ? p : nullptr;
	int *r = new int( 4 );
	CHECK( p != r, "two objects" );
	delete r;
	delete q;
	if( not b ) {
		delete p;
	}
	delete[] new char[7];
}
DRIVER( bad_heap_leak )( bool b ) {
	vs_no_leak( );
	int *p = new int( 3 );
	if( b ) {
		delete p;
	}
}
DRIVER( bad_heap_twice )( bool b ) {
	vs_heap( );
	int *p = new int( 3 );
	int *q = b ? p : nullptr;
	delete p;
	delete q;
}
DRIVER( bad_heap_kind )( ) {
	vs_heap( );
	char *p = new char[8];
	delete p;
}
DRIVER( bad_heap_after )( int *q ) {
	vs_heap( );
	int *p = new int( 3 );
	ASSUME( q != nullptr );
	vs_noalias( q );
	vs_allow_ub( );
	delete p;
	*q = *const_cast<int volatile *>( p );
}
// handlers are told apart by the type of the exception
namespace {
	struct base_error {};
	struct derived_error : base_error {};
	struct other_error {};
	[[noreturn]] __attribute__( ( noinline ) ) void throw_derived( ) {
		throw derived_error{ };
	}
} // namespace
DRIVER( ok_exception_type )( ) {
	vs_throws( );
	try {
		if( vs_bool( ) ) {
			throw_derived( );
		}
		throw other_error{ };
	} catch( base_error const & ) {
		REACH( "derived" );
	} catch( other_error const & ) {
		REACH( "other" );
	} catch( ... ) {
		NEVER( "another type" );
	}
}
DRIVER( bad_exception_type )( ) {
	vs_throws( );
	try {
		throw_derived( );
	} catch( other_error const & ) {
	} catch( ... ) {
		NEVER( "another type" );
	}
}
DRIVER( bad_exception_unknown )( ) {
	vs_throws( );
	try {
		vs_may_throw( );
	} catch( base_error const & ) {
	} catch( ... ) {
		NEVER( "another type" );
	}
}
// what a loop stores
DRIVER( ok_copy )( unsigned char *p, unsigned char const *q, size_t n, size_t j ) {
	VS_LEN( n );
	ASSUME( p != nullptr and q != nullptr and j < n );
	vs_region( p, n, true );
	vs_region( q, n, false );
	vs_watch( q + j, 1 );
	vs_name( p + j );
	for( size_t i = 0; i < n; ++i ) {
		p[i] = q[i];
	}
	CHECK( p[j] == q[j], "copied" );
}
DRIVER( bad_copy_twice )( unsigned char *p, unsigned char const *q, size_t n, size_t j ) {
	VS_LEN( n );
	ASSUME( p != nullptr and q != nullptr and j < n );
	vs_region( p, n, true );
	vs_region( q, n, false );
	vs_watch( q + j, 1 );
	vs_name( p + j );
	for( size_t i = 0; i < n; ++i ) {
		p[i] = q[i];
		p[vs_size( ) < 4 ? i : 0] = 3;
	}
	CHECK( p[j] == q[j], "copied" );
}
DRIVER( bad_copy_short )( unsigned char *p, unsigned char const *q, size_t n, size_t j ) {
	VS_LEN( n );
	ASSUME( p != nullptr and q != nullptr and j < n );
	vs_region( p, n, true );
	vs_region( q, n, false );
	vs_watch( q + j, 1 );
	vs_name( p + j );
	for( size_t i = 0; i + 1 < n; ++i ) {
		p[i] = q[i];
	}
	CHECK( p[j] == q[j], "copied" );
}

// what a caught exception holds
struct vs_carrier {
	int v;
};
DRIVER( ok_exception_contents )( int x ) {
	vs_throws( );
	try {
		throw vs_carrier{ x };
	} catch( vs_carrier const &c ) {
		CHECK( c.v == x, "the value thrown" );
	}
}
DRIVER( bad_exception_contents )( int x ) {
	vs_throws( );
	try {
		throw vs_carrier{ x };
	} catch( vs_carrier const &c ) {
		CHECK( c.v == 7, "another value" );
	}
}
// calls through a pointer that depends on the path
struct vs_base {
	virtual int f( int ) = 0;
	virtual ~vs_base( ) = default;
};
struct vs_d1 final : vs_base {
	int f( int x ) override {
		return x;
	}
};
struct vs_d2 final : vs_base {
	int f( int ) override {
		return 7;
	}
};
DRIVER( ok_virtual )( int x, bool c ) {
	vs_total( );
	vs_d1 a;
	vs_d2 b;
	vs_base *p = c ? static_cast<vs_base *>( &a ) : &b;
	CHECK( p->f( x ) == ( c ? x : 7 ), "the function of the object's type" );
}
DRIVER( bad_virtual )( int x, bool c ) {
	vs_d1 a;
	vs_d2 b;
	vs_base *p = c ? static_cast<vs_base *>( &a ) : &b;
	CHECK( p->f( x ) == x, "the wrong one on one path" );
}
DRIVER( bad_virtual_unknown )( vs_base *p, int x ) {
	CHECK( p->f( x ) == x or p->f( x ) == 7, "may be of a type nobody knows" );
}
DRIVER( ok_virtual_delete )( bool c ) {
	vs_heap( );
	vs_no_leak( );
	vs_alloc_ok( );
	vs_base *p = c ? static_cast<vs_base *>( new vs_d1 ) : new vs_d2;
	delete p;
}
DRIVER( bad_virtual_delete )( bool c ) {
	vs_heap( );
	vs_no_leak( );
	vs_alloc_ok( );
	vs_base *p = c ? static_cast<vs_base *>( new vs_d1 ) : new vs_d2;
	if( c ) {
		delete p;
	}
}
static int vs_fp1( int x ) {
	return x;
}
static int vs_fp2( int ) {
	return 7;
}
DRIVER( ok_pointer_call )( int x, bool c ) {
	int ( *p )( int ) = c ? &vs_fp1 : &vs_fp2;
	CHECK( p( x ) == ( c ? x : 7 ), "the function pointed to" );
}
DRIVER( bad_pointer_call )( int x, bool c ) {
	int ( *p )( int ) = c ? &vs_fp1 : &vs_fp2;
	CHECK( p( x ) == 7, "the other function" );
}
DRIVER( bad_pointer_unknown )( int x, int ( *p )( int ) ) {
	CHECK( p( x ) == x or p( x ) == 7, "any function" );
}
// loops whose rounds are decided on entry are followed round by round
DRIVER( ok_counted_loop )( int a, int b, int c, bool three ) {
	int e[4] = { a, b, c, 0 };
	int r[4] = { 0, 0, 0, 0 };
	vs_total( );
	size_t n = three ? 3 : 1;
	for( size_t k = 0; k < n; ++k ) {
		r[n - 1 - k] = e[k];
	}
	CHECK( r[0] == ( three ? c : a ), "reversed" );
	CHECK( r[2] == ( three ? a : 0 ), "reversed" );
}
DRIVER( bad_counted_loop )( int a, int b, int c, bool three ) {
	int e[4] = { a, b, c, 0 };
	int r[4] = { 0, 0, 0, 0 };
	size_t n = three ? 3 : 1;
	for( size_t k = 0; k < n; ++k ) {
		r[n - 1 - k] = e[k];
	}
	CHECK( r[0] == ( three ? c : b ), "reversed" );
}
// a watched element of writable storage
DRIVER( ok_watched_writes )( unsigned char *p, size_t n, size_t j, unsigned char c ) {
	VS_LEN( n );
	ASSUME( p != nullptr and j < n );
	vs_region( p, n, true );
	vs_watch( p + j, 1 );
	for( size_t i = 0; i < n; ++i ) {
		p[i] = c;
	}
	CHECK( p[j] == c, "filled" );
}
DRIVER( bad_watched_writes )( unsigned char *p, size_t n, size_t j, unsigned char c ) {
	VS_LEN( n );
	ASSUME( p != nullptr and j < n );
	vs_region( p, n, true );
	vs_watch( p + j, 1 );
	for( size_t i = 0; i < n; ++i ) {
		p[i] = c;
		if( i > 0 and p[i - 1] == 3 ) {
			p[i - 1] = 4;
		}
	}
	CHECK( p[j] == c, "filled" );
}
DRIVER( bad_watched_write_after )( unsigned char *p, size_t n, size_t j, size_t k ) {
	VS_LEN( n );
	ASSUME( p != nullptr and j < n and k < n );
	vs_region( p, n, true );
	vs_watch( p + j, 1 );
	p[j] = 1;
	p[k] = 2;
	CHECK( p[j] == 1, "only the other one" );
}
// the loop starts in front of the watched element or behind it
DRIVER( ok_watched_behind )( unsigned char const *p, size_t n, size_t j, size_t k ) {
	VS_LEN( n );
	ASSUME( p != nullptr and j < n and k < n );
	vs_region( p, n, false );
	vs_watch( p + j, 1 );
	unsigned char const *seen = nullptr;
	for( unsigned char const *i = p + k; i != p + n; ++i ) {
		if( i == p + j ) {
			seen = i;
		}
	}
	CHECK( ( seen == p + j ) == ( j >= k ), "passed" );
}
DRIVER( bad_watched_behind )( unsigned char const *p, size_t n, size_t j, size_t k ) {
	VS_LEN( n );
	ASSUME( p != nullptr and j < n and k < n );
	vs_region( p, n, false );
	vs_watch( p + j, 1 );
	unsigned char const *seen = nullptr;
	for( unsigned char const *i = p + k; i != p + n; ++i ) {
		if( i == p + j ) {
			seen = i;
		}
	}
	CHECK( seen == p + j, "passed" );
}
// two positions, each round moves one of them
template<typename F>
static size_t vs_merge( int const *a, int const *b, F f ) {
	int const *i = a, *j = b;
	size_t n = 0;
	while( i != a + 2 and j != b + 2 ) {
		if( f( *i, *j ) ) {
			++i;
		} else {
			++j;
		}
		++n;
	}
	return n;
}
DRIVER( ok_followed_two )( int a, int b, int c, int d ) {
	int x[2] = { a, b }, y[2] = { c, d };
	size_t r = vs_merge( x, y, []( int p, int q ) { return p < q; } );
	CHECK( r == 2 or r == 3, "rounds" );
}
DRIVER( bad_followed_two )( int a, int b, int c, int d ) {
	int x[2] = { a, b }, y[2] = { c, d };
	size_t r = vs_merge( x, y, []( int p, int q ) { return p < q; } );
	CHECK( r == 2, "rounds" );
}
struct vs_obj {
	int first[2];
	int last[2];
};
// objects have an extent, also without vs_region
DRIVER( ok_object_bounds )( size_t n, int x ) {
	vs_obj o{ };
	ASSUME( n < 4 );
	*( reinterpret_cast<int *>( &o ) + n ) = x;
	vs_name( &o );
}
DRIVER( bad_object_bounds )( size_t n, int x ) {
	vs_obj o{ };
	ASSUME( n < 5 );
	*( reinterpret_cast<int *>( &o ) + n ) = x;
	vs_name( &o );
}
DRIVER( bad_trailing_array )( int x ) {
	vs_obj o{ };
	vs_total( );
	size_t n = vs_size( );
	ASSUME( n < 3 );
	o.last[n] = x;
	vs_name( &o );
}
