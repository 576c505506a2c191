// P10: the throwing helpers throw what they were told to, exactly when they were told to
// vs: min=30
#include "vs.h"
#include <daw/daw_exception.h>
#include <stdexcept>
#include <string>

namespace ex = daw::exception;
struct Mine {
	int code;
	Mine( ) : code( -7 ) {}
	explicit Mine( int c ) : code( c ) {}
	Mine( int a, int b ) : code( a + b ) {}
};
// 0: nothing thrown, 1: E thrown, 2: something else
template<typename E, typename F>
static int outcome( F f ) {
	try {
		f( );
	} catch( E const & ) {
		return 1;
	} catch( ... ) {
		return 2;
	}
	return 0;
}
template<typename F>
static int code_of( F f ) {
	try {
		f( );
	} catch( Mine const &m ) {
		return m.code;
	} catch( ... ) {}
	return -1;
}
#define EXACTLY( E, cond, ... )                                                      \
	do {                                                                               \
		int const o = outcome<E>( [&] { __VA_ARGS__; } );                                \
		if( cond ) {                                                                     \
			REACH( "throws" );                                                             \
			CHECK( o != 0, "throws when it has to" );                                      \
			CHECK( o != 2, "throws what it was told to" );                                 \
		} else {                                                                         \
			REACH( "does not throw" );                                                     \
			CHECK( o == 0, "does not throw otherwise" );                                   \
		}                                                                                \
	} while( false )
#define START  \
	vs_throws( ); \
	vs_total( )

DRIVER( throw_default )( ) {
	START;
	CHECK( code_of( [] { ex::daw_throw<Mine>( ); } ) == -7, "a default constructed exception" );
}
DRIVER( throw_one )( int a ) {
	START;
	ASSUME( a > 0 );
	CHECK( code_of( [&] { ex::daw_throw<Mine>( a ); } ) == a, "constructed from the argument" );
}
DRIVER( throw_two )( int a, int b ) {
	START;
	ASSUME( a > 0 and b > 0 and a < 1000 and b < 1000 );
	CHECK( code_of( [&] { ex::daw_throw<Mine>( a, b ); } ) == a + b, "constructed from the arguments" );
}
DRIVER( throw_default_type )( ) {
	START;
	EXACTLY( std::runtime_error, true, ex::daw_throw( "x" ) );
}
DRIVER( throw_no_default_ctor )( ) {
	START;
	EXACTLY( std::out_of_range, true, ex::daw_throw<std::out_of_range>( ) );
}
DRIVER( debug_throw )( ) {
	START;
	EXACTLY( std::out_of_range, true, ex::debug_throw<std::out_of_range>( "x" ) );
}
DRIVER( dbg_throw_on_null )( int const *p ) {
	START;
	EXACTLY( std::out_of_range, p == nullptr, ex::dbg_throw_on_null<std::out_of_range>( p, "x" ) );
}
DRIVER( dbg_throw_on_null_or_return )( int *p ) {
	START;
	int *r = nullptr;
	EXACTLY( std::out_of_range, p == nullptr, r = ex::dbg_throw_on_null_or_return<std::out_of_range>( p, "x" ) );
	CHECK( r == p, "gives the value back" );
}
DRIVER( dbg_throw_on_false_or_return )( bool b, int v ) {
	START;
	ASSUME( v > 0 );
	int r = -1;
	EXACTLY( std::out_of_range, not b, r = ex::dbg_throw_on_false_or_return<std::out_of_range>( v, b, "x" ) );
	if( b ) {
		CHECK( r == v, "gives the value back" );
	}
}
DRIVER( dbg_throw_on_false_or_return_bool )( bool b ) {
	START;
	bool r = false;
	EXACTLY( std::out_of_range, not b, r = ex::dbg_throw_on_false_or_return<std::out_of_range>( b ) );
	if( b ) {
		CHECK( r, "gives the condition back" );
	}
}
DRIVER( dbg_throw_on_false )( bool b ) {
	START;
	EXACTLY( std::out_of_range, not b, ex::dbg_throw_on_false<std::out_of_range>( b, "x" ) );
}
DRIVER( DebugAssert )( bool b ) {
	START;
	EXACTLY( std::out_of_range, not b, ex::DebugAssert<std::out_of_range>( b, "x" ) );
}
DRIVER( dbg_throw_on_true_or_return )( bool b, int v ) {
	START;
	int *r = nullptr;
	EXACTLY( std::out_of_range, b, r = &ex::dbg_throw_on_true_or_return<std::out_of_range>( v, b, "x" ) );
	if( not b ) {
		CHECK( r == &v, "gives the value back" );
	}
}
DRIVER( dbg_throw_on_true_or_return_bool )( bool b ) {
	START;
	bool r = true;
	EXACTLY( std::out_of_range, b, r = ex::dbg_throw_on_true_or_return<std::out_of_range>( b ) );
	if( not b ) {
		CHECK( not r, "gives the condition back" );
	}
}
DRIVER( dbg_throw_on_true )( bool b ) {
	START;
	EXACTLY( std::out_of_range, b, ex::dbg_throw_on_true<std::out_of_range>( b, "x" ) );
}
DRIVER( throw_on_null_const )( int const *p ) {
	START;
	EXACTLY( std::out_of_range, p == nullptr, ex::daw_throw_on_null<std::out_of_range>( p, "x" ) );
}
DRIVER( throw_on_null )( int *p ) {
	START;
	EXACTLY( std::out_of_range, p == nullptr, ex::daw_throw_on_null<std::out_of_range>( p, "x" ) );
}
DRIVER( throw_on_null_or_return )( int *p ) {
	START;
	int *r = nullptr;
	EXACTLY( std::out_of_range, p == nullptr, r = ex::daw_throw_on_null_or_return<std::out_of_range>( p, "x" ) );
	CHECK( r == p, "gives the value back" );
}
DRIVER( throw_on_false_or_return_bool )( bool b ) {
	START;
	bool r = false;
	EXACTLY( std::out_of_range, not b, r = ex::daw_throw_on_false_or_return<std::out_of_range>( b ) );
	if( b ) {
		CHECK( r, "gives the condition back" );
	}
}
DRIVER( throw_on_false_or_return )( bool b, int v ) {
	START;
	ASSUME( v > 0 );
	int *r = nullptr;
	EXACTLY( Mine, not b, r = &ex::daw_throw_on_false_or_return<Mine>( v, b ) );
	if( b ) {
		CHECK( r == &v, "gives the value back" );
	}
}
DRIVER( precondition )( bool b, int v ) {
	START;
	EXACTLY( std::out_of_range, not b, ex::precondition_check<std::out_of_range>( b, "x" ) );
	ASSUME( v > 0 );
	CHECK( code_of( [&] { ex::precondition_check<Mine>( false, v ); } ) == v, "constructed from the argument" );
}
DRIVER( postcondition )( bool b ) {
	START;
	EXACTLY( std::out_of_range, not b, ex::postcondition_check<std::out_of_range>( b, "x" ) );
}
DRIVER( precondition_terminates )( bool b ) {
	vs_throws( );
	ex::precondition_check( b );
	CHECK( b, "does not go on when the condition does not hold" );
	REACH( "goes on when it does" );
}
DRIVER( postcondition_terminates )( bool b ) {
	vs_throws( );
	ex::postcondition_check( b );
	CHECK( b, "does not go on when the condition does not hold" );
	REACH( "goes on when it does" );
}
DRIVER( dbg_precondition_terminates )( bool b ) {
	vs_throws( );
	ex::dbg_precondition_check( b );
	CHECK( b, "does not go on when the condition does not hold" );
	REACH( "goes on when it does" );
}
DRIVER( dbg_postcondition_terminates )( bool b ) {
	vs_throws( );
	ex::dbg_postcondition_check( b );
	CHECK( b, "does not go on when the condition does not hold" );
	REACH( "goes on when it does" );
}
DRIVER( conditions_that_hold )( ) {
	START;
	ex::precondition_check( true );
	ex::postcondition_check( true );
	ex::dbg_precondition_check( true );
	ex::dbg_postcondition_check( true );
}
DRIVER( throw_on_false )( bool b ) {
	START;
	EXACTLY( Mine, not b, ex::daw_throw_on_false<Mine>( b ) );
}
DRIVER( throw_on_false_msg )( bool b ) {
	START;
	EXACTLY( std::out_of_range, not b, ex::daw_throw_on_false<std::out_of_range>( b, "x" ) );
}
DRIVER( Assert )( bool b ) {
	START;
	EXACTLY( std::out_of_range, not b, ex::Assert<std::out_of_range>( b, "x" ) );
}
DRIVER( throw_on_true )( bool b ) {
	START;
	EXACTLY( Mine, b, ex::daw_throw_on_true<Mine>( b ) );
}
DRIVER( throw_on_true_const )( bool const b ) {
	START;
	EXACTLY( Mine, b, ex::daw_throw_on_true<Mine>( std::as_const( b ) ) );
}
DRIVER( throw_on_true_prvalue )( bool b ) {
	START;
	EXACTLY( Mine, b, ex::daw_throw_on_true<Mine>( static_cast<bool>( b ) ) );
}
DRIVER( throw_on_true_msg )( bool b ) {
	START;
	EXACTLY( std::out_of_range, b, ex::daw_throw_on_true<std::out_of_range>( b, "x" ) );
}
struct Err {
	int v;
	explicit operator bool( ) const {
		return v != 0;
	}
};
DRIVER( throw_value_on_true )( int v ) {
	START;
	EXACTLY( Err, v != 0, ex::daw_throw_value_on_true( Err{ v } ) );
}
DRIVER( throw_value_on_false )( int v ) {
	START;
	EXACTLY( Err, v == 0, ex::daw_throw_value_on_false( Err{ v } ) );
}
DRIVER( throw_not_implemented )( ) {
	START;
	EXACTLY( std::runtime_error, true, ex::daw_throw_not_implemented( ) );
}
DRIVER( throw_unexpected_enum )( ) {
	START;
	EXACTLY( std::runtime_error, true, ex::daw_throw_unexpected_enum( ) );
}
DRIVER( throw_on_true_or_return_bool )( bool b ) {
	START;
	bool r = true;
	EXACTLY( Mine, b, r = ex::daw_throw_on_true_or_return<Mine>( b ) );
	if( not b ) {
		CHECK( not r, "gives the condition back" );
	}
}
#if 1
DRIVER( throw_on_true_or_return )( bool b, int v ) {
	START;
	ASSUME( v > 0 );
	int r = -1;
	EXACTLY( Mine, b, r = ex::daw_throw_on_true_or_return<Mine>( v, b ) );
	if( not b ) {
		CHECK( r == v, "gives the value back" );
	}
}
#endif
struct Range {
	int const *f;
	int const *l;
	int const *begin( ) const {
		return f;
	}
	int const *end( ) const {
		return l;
	}
};
DRIVER( assert_all_true )( unsigned char const *p, std::size_t n, std::size_t k ) {
	START;
	struct R {
		unsigned char const *f, *l;
		unsigned char const *begin( ) const {
			return f;
		}
		unsigned char const *end( ) const {
			return l;
		}
	};
	VS_LEN( n );
	ASSUME( p != nullptr );
	vs_region( p, n, false );
	bool const in = k < n;
	if( in ) {
		vs_watch( p + k, 1 );
	}
	R r{ p, p + n };
	int const o = outcome<std::out_of_range>( [&] { ex::assert_all_true<std::out_of_range>( r, "x", []( unsigned char c ) { return c != 7; } ); } );
	CHECK( o != 2, "throws what it was told to" );
	if( o == 0 and in ) {
		CHECK( p[k] != 7, "no element fails the test when it returns" );
		REACH( "returns" );
	}
	if( o == 1 ) {
		CHECK( n != 0, "an empty range passes" );
		REACH( "throws" );
	}
}
DRIVER( assert_all_false )( unsigned char const *p, std::size_t n, std::size_t k ) {
	START;
	struct R {
		unsigned char const *f, *l;
		unsigned char const *begin( ) const {
			return f;
		}
		unsigned char const *end( ) const {
			return l;
		}
	};
	VS_LEN( n );
	ASSUME( p != nullptr );
	vs_region( p, n, false );
	bool const in = k < n;
	if( in ) {
		vs_watch( p + k, 1 );
	}
	R r{ p, p + n };
	int const o = outcome<std::out_of_range>( [&] { ex::assert_all_false<std::out_of_range>( r, "x", []( unsigned char c ) { return c == 7; } ); } );
	CHECK( o != 2, "throws what it was told to" );
	if( o == 0 and in ) {
		CHECK( p[k] != 7, "no element passes the test when it returns" );
		REACH( "returns" );
	}
	if( o == 1 ) {
		CHECK( n != 0, "an empty range passes" );
		REACH( "throws" );
	}
}
DRIVER( no_exception_swallows )( ) {
	START;
	int n = 0;
	ex::no_exception( [&]( int a ) { n += a; vs_may_throw( ); n += a; }, 1 );
	CHECK( n == 1 or n == 2, "the function runs once" );
	if( n == 1 ) {
		REACH( "an exception" );
	}
}
DRIVER( length_error )( ) {
	START;
	EXACTLY( std::length_error, true, ex::throw_length_error( "x" ) );
}
DRIVER( out_of_range )( ) {
	START;
	EXACTLY( std::out_of_range, true, ex::throw_out_of_range( "x" ) );
}

DRIVER( precondition_no_arguments )( bool b ) {
	START;
	EXACTLY( Mine, not b, ex::precondition_check<Mine>( b ) );
	CHECK( code_of( [&] { ex::precondition_check<Mine>( false ); } ) == -7, "default constructed" );
}
DRIVER( postcondition_no_arguments )( bool b ) {
	START;
	EXACTLY( Mine, not b, ex::postcondition_check<Mine>( b ) );
	CHECK( code_of( [&] { ex::postcondition_check<Mine>( false ); } ) == -7, "default constructed" );
}
DRIVER( postcondition_arguments )( int v ) {
	START;
	ASSUME( v > 0 );
	CHECK( code_of( [&] { ex::postcondition_check<Mine>( false, v ); } ) == v, "constructed from the argument" );
}
