// P03: a view that calls itself zero terminated is followed by a zero
// vs: min=30
#include "sv_in.h"
#include <string>
#include <string_view>
// p[0..n) followed by a zero; nothing is known to be zero elsewhere
#define ZT_IN( p, n )                          \
	ASSUME( p != nullptr );                      \
	VS_LEN( n );                                 \
	vs_region( p, ( n + 1 ) * sizeof( C ), false ); \
	ASSUME( p[n] == C{ } );                      \
	sv v( p, n, daw::zero_terminated );          \
	CHECK( static_cast<bool>( v.is_zero_terminated( ) ), "constructed terminated" );
#define FLAG( x ) static_cast<bool>( ( x ).is_zero_terminated( ) )
// the only zero anybody knows of is at p[n]
#define TRUTH( x ) CHECK( not FLAG( x ) or ( x ).data_end( ) == p + n, "claims a terminator only where there is one" )
#define OP1( name, ... )                                             \
	DRIVER( zt_##name )( C const *p, size_t n, size_t k, size_t c, C ch ) { \
		ZT_IN( p, n )                                                    \
		__VA_ARGS__;                                                     \
		TRUTH( v );                                                      \
	}                                                                  \
	DRIVER( nz_##name )( C const *p, size_t n, size_t k, size_t c, C ch ) { \
		SV_IN( p, n );                                                   \
		sv v( p, n );                                                    \
		__VA_ARGS__;                                                     \
		CHECK( not FLAG( v ), "never invents a terminator" );            \
	}
#define OP2( name, ... )                                             \
	DRIVER( zt_##name )( C const *p, size_t n, size_t k, size_t c, C ch ) { \
		ZT_IN( p, n )                                                    \
		auto r = __VA_ARGS__;                                            \
		TRUTH( v );                                                      \
		TRUTH( r );                                                      \
	}                                                                  \
	DRIVER( nz_##name )( C const *p, size_t n, size_t k, size_t c, C ch ) { \
		SV_IN( p, n );                                                   \
		sv v( p, n );                                                    \
		auto r = __VA_ARGS__;                                            \
		CHECK( not FLAG( v ), "never invents a terminator" );            \
		CHECK( not FLAG( r ), "never invents a terminator" );            \
	}
#define TAB( e ) ASSUME( k <= n ); e
OP1( remove_prefix, v.remove_prefix( ) )
OP1( remove_prefix_n, v.remove_prefix( k ) )
OP1( remove_suffix, v.remove_suffix( ) )
OP1( remove_suffix_n, ASSUME( k > 0 ); v.remove_suffix( k ) )
OP1( remove_prefix_unsafe, ASSUME( n > 0 ); v.remove_prefix_unsafe( ) )
OP1( remove_prefix_unsafe_n, ASSUME( k <= n ); v.remove_prefix_unsafe( k ) )
OP1( remove_suffix_unsafe, ASSUME( n > 0 ); v.remove_suffix_unsafe( ) )
OP1( remove_suffix_unsafe_n, ASSUME( k <= n ); v.remove_suffix_unsafe( k ) )
OP1( resize, ASSUME( k <= n ); v.resize( k ) )
OP1( clear, ASSUME( n > 0 ); v.clear( ) )
OP1( pop_front, ASSUME( n > 0 ); (void)v.pop_front( ) )
OP1( pop_back, ASSUME( n > 0 ); (void)v.pop_back( ) )
OP1( trim_prefix, v.trim_prefix( ) )
OP1( trim_suffix, v.trim_suffix( ) )
OP1( trim, v.trim( ) )
OP1( remove_prefix_until, v.remove_prefix_until( ch ) )
OP2( copy_of, v )
OP2( pop_front_n, v.pop_front( k ) )
OP2( pop_back_n, v.pop_back( k ) )
OP2( pop_front_n_unsafe, ( ( k = k <= n ? k : n ), v.pop_front_unsafe( k ) ) )
OP2( pop_back_n_unsafe, ( ( k = k <= n ? k : n ), v.pop_back_unsafe( k ) ) )
OP2( substr, v.substr( ) )
OP2( substr_k, ( ( k = k <= n ? k : n ), v.substr( k ) ) )
OP2( substr_kc, ( ( k = k <= n ? k : n ), v.substr( k, c ) ) )
OP2( substr_unsafe_k, ( ( k = k <= n ? k : n ), v.substr_unsafe( k ) ) )
OP2( substr_unsafe_kc, ( ( k = k <= n ? k : n ), ( c = c <= n - k ? c : n - k ), v.substr_unsafe( k, c ) ) )
OP2( pop_front_until, v.pop_front_until( ch ) )
OP2( pop_front_until_keep, v.pop_front_until( ch, daw::nodiscard ) )
OP2( pop_back_until, v.pop_back_until( ch ) )
OP2( pop_back_until_keep, v.pop_back_until( ch, daw::nodiscard ) )
OP2( try_pop_front_until, v.try_pop_front_until( ch ) )
OP2( try_pop_front_until_keep, v.try_pop_front_until( ch, daw::nodiscard ) )
OP2( try_pop_back_until, v.try_pop_back_until( ch ) )
OP2( try_pop_back_until_keep, v.try_pop_back_until( ch, daw::nodiscard ) )
OP2( trim_copy, v.trim_copy( ) )
OP2( trim_prefix_copy, v.trim_prefix_copy( ) )
OP2( trim_suffix_copy, v.trim_suffix_copy( ) )
DRIVER( expand_suffix )( C const *p, size_t n, size_t k ) {
	ZT_IN( p, n )
	ASSUME( k > 0 and k < ( size_t{ 1 } << 60 ) );
	sv w = v;
	v.expand_suffix( k );
	CHECK( not FLAG( v ), "what follows the extended view is unknown" );
	CHECK( v.size( ) == n + k and v.data( ) == p, "extended" );
	w.expand_suffix( );
	CHECK( not FLAG( w ), "what follows the extended view is unknown" );
}
DRIVER( expand_prefix )( C const *p, size_t n, size_t k ) {
	ASSUME( p != nullptr and k <= n );
	VS_LEN( n );
	vs_region( p, ( n + 1 ) * sizeof( C ), false );
	ASSUME( p[n] == C{ } );
	sv v( p + k, n - k, daw::zero_terminated );
	v.expand_prefix( k );
	CHECK( v.data( ) == p and v.size( ) == n, "extended" );
	TRUTH( v );
}
DRIVER( from_pointers )( C const *p, size_t n ) {
	SV_IN( p, n );
	sv v( p, p + n );
	IS( v, p, p + n, "range" );
	CHECK( not FLAG( v ), "nothing is known about the character behind the range" );
	sv w( p, n );
	CHECK( not FLAG( w ), "nothing is known about the character behind the range" );
	std::basic_string_view<C> s( p, n );
	sv x( s );
	IS( x, p, p + n, "range" );
	CHECK( not FLAG( x ), "nothing is known about the character behind the range" );
}
DRIVER( from_c_string )( C const *p, size_t n, size_t j ) {
	ASSUME( p != nullptr );
	VS_LEN( n );
	vs_region( p, ( n + 1 ) * sizeof( C ), false );
	ASSUME( p[n] == C{ } );
	SV_ANY( p, n, j );
	ASSUME( p[j] == C{ } );
	sv v( p );
	CHECK( v.data( ) == p and v.size( ) <= j, "up to the first zero" );
}
DRIVER( from_array )( C const ( &p )[8] ) {
	vs_region( p, sizeof( p ), false );
	sv v( p );
	CHECK( v.data( ) == p, "whole array" );
	CHECK( not FLAG( v ) or *v.data_end( ) == C{ }, "the terminator is there" );
	CHECK( v.size( ) == ( p[7] == C{ } ? 7 : 8 ), "without the terminator" );
	sv w( p, daw::not_zero_terminated );
	CHECK( not FLAG( w ) and w.size( ) == 8, "the whole array" );
}
struct zstr {
	C const *b;
	size_t n;
	C const *c_str( ) const {
		return b;
	}
	C const *data( ) const {
		return b;
	}
	size_t size( ) const {
		return n;
	}
};
DRIVER( from_string_like )( C const *p, size_t n, size_t c ) {
	ASSUME( p != nullptr );
	VS_LEN( n );
	vs_region( p, ( n + 1 ) * sizeof( C ), false );
	ASSUME( p[n] == C{ } );
	zstr s{ p, n };
	sv v( s );
	IS( v, p, p + n, "the whole string" );
	TRUTH( v );
	sv w( s, c );
	IS( w, p, p + ( c < n ? c : n ), "clipped" );
	TRUTH( w );
	ASSUME( c <= n );
	sv x( s, c, daw::dont_clip_to_bounds );
	IS( x, p, p + c, "prefix" );
	TRUTH( x );
}
DRIVER( set_flag )( C const *p, size_t n ) {
	ZT_IN( p, n )
	CHECK( v.size( ) == n and v.data( ) == p and v.data_end( ) == p + n, "the mark is no part of the size" );
	CHECK( v.empty( ) == ( n == 0 ), "the mark is no part of the size" );
	v.set_zero_terminated( );
	CHECK( v.size( ) == n and FLAG( v ), "idempotent" );
	sv w( p, p + n, daw::zero_terminated );
	CHECK( w.size( ) == n and FLAG( w ), "from a pointer range" );
}
DRIVER( null_view )( int x ) {
	sv v;
	CHECK( not FLAG( v ) and v.empty( ) and v.data( ) == nullptr, "default" );
	sv w( nullptr );
	CHECK( not FLAG( w ) and w.empty( ) and w.data( ) == nullptr, "null" );
	sv z( static_cast<C const *>( nullptr ), size_t{ 0 }, daw::zero_terminated );
	CHECK( not FLAG( z ) and z.empty( ), "null is never terminated" );
	sv y( static_cast<C const *>( nullptr ) );
	CHECK( not FLAG( y ) and y.empty( ), "null is never terminated" );
}
