// P16: expected_t and expected_t<void>: nothing, a value or an exception; the last
// thing stored is what is there, get() gives the value or throws the stored exception,
// from_code keeps what the function returned or threw, no exception is leaked
// vs: min=32
#include "vs.h"
#include <daw/daw_expected.h>

// the exception in flight is one of these; the runtime's reference count of an
// exception object is counted here
struct token {
	int refs = 0;
};
static token *g_tok;
struct rethrown {
	token *t;
};
namespace std {
	namespace __exception_ptr {
		exception_ptr::exception_ptr( void *p ) noexcept
		  : _M_exception_object( p ) {
			if( p ) {
				_M_addref( );
			}
		}
		void exception_ptr::_M_addref( ) noexcept {
			++static_cast<token *>( _M_exception_object )->refs;
		}
		void exception_ptr::_M_release( ) noexcept {
			if( _M_exception_object ) {
				--static_cast<token *>( _M_exception_object )->refs;
				_M_exception_object = nullptr;
			}
		}
		void *exception_ptr::_M_get( ) const noexcept {
			return _M_exception_object;
		}
	} // namespace __exception_ptr
	__exception_ptr::exception_ptr current_exception( ) noexcept {
		return __exception_ptr::exception_ptr( static_cast<void *>( g_tok ) );
	}
	void rethrow_exception( __exception_ptr::exception_ptr p ) {
		struct peek {
			void *o;
		};
		peek q;
		__builtin_memcpy( &q, &p, sizeof( q ) );
		throw rethrown{ static_cast<token *>( q.o ) };
	}
} // namespace std
static std::exception_ptr make( token *t ) {
	g_tok = t;
	return std::current_exception( );
}

using exp_t = daw::expected_t<unsigned>;
using vexp_t = daw::expected_t<void>;
enum { Empty, Value, Error };
struct model {
	int state;
	unsigned v;
	token *t;
};
static void same( exp_t &o, model const &m ) {
	CHECK( o.empty( ) == ( m.state == Empty ), "empty" );
	CHECK( static_cast<bool>( o ) == ( m.state != Empty ), "bool" );
	CHECK( o.has_value( ) == ( m.state == Value ), "has_value" );
	CHECK( o.has_exception( ) == ( m.state == Error ), "has_exception" );
	if( m.state == Empty ) {
		return;
	}
	token *got = nullptr;
	unsigned r = 0;
	try {
		r = o.get( );
	} catch( rethrown const &e ) { got = e.t; }
	CHECK( m.state == Value ? got == nullptr and r == m.v : got == m.t, "get" );
	got = nullptr;
	try {
		r = *std::as_const( o );
		CHECK( *o.operator->( ) == r, "->" );
	} catch( rethrown const &e ) { got = e.t; }
	CHECK( m.state == Value ? got == nullptr and r == m.v : got == m.t, "*" );
}
static exp_t initial( int s, unsigned v, token *t ) {
	if( s == Value ) {
		return exp_t( v );
	}
	if( s == Error ) {
		return exp_t( make( t ) );
	}
	return exp_t( );
}
#define START   \
	vs_throws( ); \
	vs_total( )
template<unsigned K>
static void step( int s, unsigned v, unsigned x ) {
	START;
	ASSUME( s >= 0 and s <= 2 );
	token a, b;
	{
		exp_t o = initial( s, v, &a );
		CHECK( a.refs == ( s == Error ? 1 : 0 ), "one reference to the exception" );
		if constexpr( K == 0 ) {
			o.clear( );
			same( o, { Empty, 0, nullptr } );
		} else if constexpr( K == 1 ) {
			o = x;
			same( o, { Value, x, nullptr } );
		} else if constexpr( K == 2 ) {
			o.set_value( std::as_const( x ) );
			same( o, { Value, x, nullptr } );
		} else if constexpr( K == 3 ) {
			o = make( &b );
			CHECK( b.refs == 1, "kept" );
			same( o, { Error, 0, &b } );
		} else if constexpr( K == 4 ) {
			g_tok = &b;
			o.set_exception( );
			CHECK( b.refs == 1, "kept" );
			same( o, { Error, 0, &b } );
		} else if constexpr( K == 6 ) {
			exp_t p( x );
			p = std::move( o );
			same( p, { s, v, &a } );
		} else {
			same( o, { s, v, &a } );
			CHECK( s != Error or o.get_exception_ptr( ) == make( &a ), "the exception" );
		}
	}
	CHECK( a.refs == 0 and b.refs == 0, "every exception is released" );
}
#define STEP( k )                                    \
	DRIVER( step##k )( int s, unsigned v, unsigned x ) { \
		step<k>( s, v, x );                              \
	}
STEP( 0 ) STEP( 1 ) STEP( 2 ) STEP( 3 ) STEP( 4 ) STEP( 6 ) STEP( 7 )

template<int S>
static void copied( unsigned v ) {
	START;
	token a;
	{
		exp_t o = initial( S, v, &a );
		exp_t p = o;
		CHECK( a.refs == ( S == Error ? 2 : 0 ), "shared by the copy" );
		same( p, { S, v, &a } );
		same( o, { S, v, &a } );
	}
	CHECK( a.refs == 0, "released" );
}
#define COPIED( s )                  \
	DRIVER( copied##s )( unsigned v ) { \
		copied<s>( v );                \
	}
COPIED( 0 ) COPIED( 1 ) COPIED( 2 )
template<int S, int T>
static void copy_assigned( unsigned v, unsigned x ) {
	START;
	token a, b;
	{
		exp_t o = initial( S, v, &a );
		exp_t p = initial( T, x, &b );
		p = o;
		CHECK( a.refs == ( S == Error ? 2 : 0 ), "shared by the copy" );
		CHECK( b.refs == 0, "the one replaced is released" );
		same( p, { S, v, &a } );
		same( o, { S, v, &a } );
	}
	CHECK( a.refs == 0, "released" );
}
#define ASSIGNED( s, t )                           \
	DRIVER( assigned##s##t )( unsigned v, unsigned x ) { \
		copy_assigned<s, t>( v, x );                   \
	}
ASSIGNED( 0, 1 ) ASSIGNED( 0, 2 ) ASSIGNED( 1, 0 ) ASSIGNED( 1, 1 ) ASSIGNED( 1, 2 )
ASSIGNED( 2, 0 ) ASSIGNED( 2, 1 ) ASSIGNED( 2, 2 )
DRIVER( equality )( unsigned v, unsigned w ) {
	START;
	token a, b;
	{
		exp_t const e, x( v ), y( w ), p( make( &a ) ), q( make( &b ) );
		exp_t const p2 = p;
		CHECK( e == exp_t( ) and not( e != exp_t( ) ), "nothing equals nothing" );
		CHECK( ( x == y ) == ( v == w ) and ( x != y ) == ( v != w ), "by value" );
		CHECK( e != x and x != e and not( e == x ), "nothing is not a value" );
		CHECK( p != x and x != p and p != e, "an exception is neither" );
		CHECK( p != q and p == p2, "the same exception" );
	}
	CHECK( a.refs == 0 and b.refs == 0, "every exception is released" );
}
DRIVER( from_code )( unsigned v, bool thr ) {
	START;
	token a;
	g_tok = &a;
	{
		int calls = 0;
		auto f = [&]( unsigned x ) {
			++calls;
			if( thr ) {
				throw 5;
			}
			return x;
		};
		exp_t o = exp_t::from_code( f, v );
		CHECK( calls == 1, "called once" );
		same( o, { thr ? Error : Value, v, &a } );
	}
	CHECK( a.refs == 0, "released" );
}
DRIVER( expected_from_code )( unsigned v, bool thr ) {
	START;
	token a;
	g_tok = &a;
	{
		int calls = 0;
		auto f = [&]( unsigned x ) {
			++calls;
			if( thr ) {
				throw 5;
			}
			return x;
		};
		exp_t o = daw::expected_from_code( f, v );
		CHECK( calls == 1, "called once" );
		same( o, { thr ? Error : Value, v, &a } );
	}
	CHECK( a.refs == 0, "released" );
}
DRIVER( expected_from_code_result )( unsigned v, bool thr ) {
	START;
	token a;
	g_tok = &a;
	{
		int calls = 0;
		auto f = [&]( unsigned short x ) {
			++calls;
			if( thr ) {
				throw 5;
			}
			return x;
		};
		exp_t o = daw::expected_from_code<unsigned>( f, v );
		CHECK( calls == 1, "called once" );
		same( o, { thr ? Error : Value, v & 0xffffU, &a } );
	}
	CHECK( a.refs == 0, "released" );
}
DRIVER( construct_from_code )( unsigned v, bool thr ) {
	START;
	token a;
	g_tok = &a;
	{
		auto f = [&]( unsigned x ) {
			if( thr ) {
				throw 5;
			}
			return x;
		};
		exp_t o( f, v );
		same( o, { thr ? Error : Value, v, &a } );
	}
	CHECK( a.refs == 0, "released" );
}
DRIVER( from_exception )( ) {
	START;
	token a;
	g_tok = &a;
	{
		exp_t o = daw::expected_from_exception<unsigned>( );
		same( o, { Error, 0, &a } );
		exp_t p = daw::expected_from_exception<unsigned>( make( &a ) );
		same( p, { Error, 0, &a } );
		exp_t q( exp_t::exception_tag{ } );
		same( q, { Error, 0, &a } );
	}
	CHECK( a.refs == 0, "released" );
}

static void same( vexp_t &o, model const &m ) {
	CHECK( o.empty( ) == ( m.state == Empty ), "empty" );
	CHECK( static_cast<bool>( o ) == ( m.state != Empty ), "bool" );
	CHECK( o.has_value( ) == ( m.state == Value ), "has_value" );
	CHECK( o.has_exception( ) == ( m.state == Error ), "has_exception" );
	if( m.state == Empty ) {
		return;
	}
	token *got = nullptr;
	try {
		o.get( );
	} catch( rethrown const &e ) { got = e.t; }
	CHECK( m.state == Value ? got == nullptr : got == m.t, "get" );
}
static vexp_t vinitial( int s, token *t ) {
	vexp_t r;
	if( s == Value ) {
		r.set_value( );
	}
	if( s == Error ) {
		r = make( t );
	}
	return r;
}
template<unsigned K>
static void vstep( int s ) {
	START;
	ASSUME( s >= 0 and s <= 2 );
	token a, b;
	{
		vexp_t o = vinitial( s, &a );
		if constexpr( K == 0 ) {
			o.clear( );
			same( o, { Empty, 0, nullptr } );
		} else if constexpr( K == 1 ) {
			o = true;
			same( o, { Value, 0, nullptr } );
		} else if constexpr( K == 2 ) {
			o.set_value( 4 );
			same( o, { Value, 0, nullptr } );
		} else if constexpr( K == 3 ) {
			o = make( &b );
			CHECK( b.refs == 1, "kept" );
			same( o, { Error, 0, &b } );
		} else if constexpr( K == 4 ) {
			g_tok = &b;
			o.set_exception( );
			CHECK( b.refs == 1, "kept" );
			same( o, { Error, 0, &b } );
		} else {
			vexp_t p = o;
			same( p, { s, 0, &a } );
			same( o, { s, 0, &a } );
			CHECK( s != Error or o.get_exception_ptr( ) == make( &a ), "the exception" );
		}
	}
	CHECK( a.refs == 0 and b.refs == 0, "every exception is released" );
}
#define VSTEP( k )          \
	DRIVER( vstep##k )( int s ) { \
		vstep<k>( s );          \
	}
VSTEP( 0 ) VSTEP( 1 ) VSTEP( 2 ) VSTEP( 3 ) VSTEP( 4 ) VSTEP( 5 )
DRIVER( void_from_code )( bool thr, bool how ) {
	START;
	token a;
	g_tok = &a;
	{
		int calls = 0;
		auto f = [&] {
			++calls;
			if( thr ) {
				throw 5;
			}
		};
		vexp_t o = how ? vexp_t::from_code( f ) : daw::expected_from_code( f );
		CHECK( calls == 1, "called once" );
		same( o, { thr ? Error : Value, 0, &a } );
		vexp_t p( f );
		same( p, { thr ? Error : Value, 0, &a } );
	}
	CHECK( a.refs == 0, "released" );
}
DRIVER( void_equality )( ) {
	START;
	token a, b;
	{
		vexp_t e, x, p( make( &a ) ), q( make( &b ) );
		x = true;
		CHECK( e == vexp_t( ) and not( e != vexp_t( ) ), "nothing equals nothing" );
		CHECK( x == x and e != x and p != x and p != e, "kinds differ" );
		CHECK( p != q and p == p, "the same exception" );
	}
	CHECK( a.refs == 0 and b.refs == 0, "released" );
}
