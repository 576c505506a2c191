// P15: integers of different types, bytes and bits
// vs: min=68
#include "vs.h"
#include <daw/daw_ascii.h>
#include <daw/daw_bit.h>
#include <daw/daw_endian.h>
#include <daw/daw_int_cmp.h>
#include <daw/daw_integer_reverse.h>
#include <daw/daw_math.h>

#include <cstdint>
#include <limits>

namespace {
	// what the comparison of the two numbers is, worked out in one type that
	// holds both, or by sign first where there is none
	template<typename T, typename U>
	bool less_than( T t, U u ) {
		if constexpr( sizeof( T ) < 8 and sizeof( U ) < 8 ) {
			return static_cast<long long>( t ) < static_cast<long long>( u );
		} else {
			if( t < T{ } and u >= U{ } ) {
				return true;
			}
			if( t >= T{ } and u < U{ } ) {
				return false;
			}
			if( t < T{ } ) {
				return static_cast<long long>( t ) < static_cast<long long>( u );
			}
			return static_cast<unsigned long long>( t ) <
			       static_cast<unsigned long long>( u );
		}
	}
	template<typename T, typename U>
	void compared( T t, U u ) {
		bool const lt = less_than( t, u );
		bool const gt = less_than( u, t );
		CHECK( daw::cmp_less( t, u ) == lt, "less" );
		CHECK( daw::cmp_greater( t, u ) == gt, "greater" );
		CHECK( daw::cmp_less_equal( t, u ) == not gt, "less_equal" );
		CHECK( daw::cmp_greater_equal( t, u ) == not lt, "greater_equal" );
		CHECK( daw::cmp_equal( t, u ) == ( not lt and not gt ), "equal" );
		CHECK( daw::cmp_not_equal( t, u ) == ( lt or gt ), "not_equal" );
		REACH( "end" );
	}
	template<typename R, typename T>
	void held( T t ) {
		bool const in = not less_than( t, std::numeric_limits<R>::lowest( ) ) and
		                not less_than( std::numeric_limits<R>::max( ), t );
		CHECK( daw::in_range<R>( t ) == in, "exactly what the type holds" );
		REACH( "end" );
	}
	using i8 = std::int8_t;
	using u8 = std::uint8_t;
	using i16 = std::int16_t;
	using u16 = std::uint16_t;
	using i32 = std::int32_t;
	using u32 = std::uint32_t;
	using i64 = std::int64_t;
	using u64 = std::uint64_t;
} // namespace

#define COMPARED( A, B )                       \
	DRIVER( compare_##A##_##B )( A a, B b ) {    \
		vs_total( );                               \
		compared( a, b );                          \
	}                                            \
	DRIVER( range_##A##_of_##B )( B b ) {        \
		vs_total( );                               \
		held<A>( b );                              \
	}
COMPARED( i8, u8 )
COMPARED( u8, i8 )
COMPARED( i8, i8 )
COMPARED( u8, u8 )
COMPARED( i8, u32 )
COMPARED( u32, i8 )
COMPARED( i32, u8 )
COMPARED( u8, i32 )
COMPARED( i16, u16 )
COMPARED( u16, i32 )
COMPARED( i32, u32 )
COMPARED( u32, i32 )
COMPARED( i32, i32 )
COMPARED( i64, u64 )
COMPARED( u64, i64 )
COMPARED( i32, u64 )
COMPARED( u64, i32 )
COMPARED( i64, u32 )
COMPARED( u32, i64 )
COMPARED( i64, i32 )
COMPARED( i32, i64 )
COMPARED( u32, u64 )
COMPARED( u64, u32 )
COMPARED( u64, u64 )
COMPARED( i8, u64 )
COMPARED( u64, i8 )

DRIVER( sign )( i8 a, i32 b, i64 c, u8 d, u64 e ) {
	vs_total( );
	CHECK( daw::signbit( a ) == ( a < 0 ) and daw::signbit( b ) == ( b < 0 ) and
	         daw::signbit( c ) == ( c < 0 ),
	       "set for the negative" );
	CHECK( not daw::signbit( d ) and not daw::signbit( e ), "never without sign" );
}

namespace {
	template<unsigned W, typename T>
	void reversed( T x ) {
		T const r = daw::integers::reverse_bits( x );
		auto bit = [&]( auto n ) {
			constexpr unsigned N = decltype( n )::value;
			CHECK( ( ( r >> N ) & 1 ) == ( ( x >> ( W - 1 - N ) ) & 1 ), "each bit" );
		};
		bit( std::integral_constant<unsigned, 0>{ } );
		bit( std::integral_constant<unsigned, 1>{ } );
		bit( std::integral_constant<unsigned, 2>{ } );
		bit( std::integral_constant<unsigned, 3>{ } );
		bit( std::integral_constant<unsigned, W / 2 - 1>{ } );
		bit( std::integral_constant<unsigned, W / 2>{ } );
		bit( std::integral_constant<unsigned, W - 1>{ } );
	}
} // namespace
DRIVER( reverse8 )( u8 x ) {
	vs_total( );
	reversed<8>( x );
}
DRIVER( reverse16 )( u16 x ) {
	vs_total( );
	reversed<16>( x );
}
DRIVER( reverse32 )( u32 x ) {
	vs_total( );
	reversed<32>( x );
}
DRIVER( reverse64 )( u64 x ) {
	vs_total( );
	reversed<64>( x );
}

namespace {
	template<typename T>
	T other_way( T x ) {
		T r = 0;
		for( unsigned n = 0; n < sizeof( T ); ++n ) {
			T const byte = static_cast<T>( ( x >> ( 8 * n ) ) & 0xFF );
			r = static_cast<T>( r | static_cast<T>( byte << ( 8 * ( sizeof( T ) - 1 - n ) ) ) );
		}
		return r;
	}
	template<typename T>
	void ordered( T x ) {
		static_assert( daw::endian::native == daw::endian::little );
		CHECK( daw::to_little_endian( x ) == x, "already so" );
		CHECK( daw::to_big_endian( x ) == other_way( x ), "the other way round" );
		CHECK( daw::network_to_host_endian( x ) == other_way( x ), "from the network" );
		CHECK( daw::to_native_endian<daw::endian::big>( x ) == other_way( x ), "from big" );
		CHECK( daw::to_native_endian<daw::endian::little>( x ) == x, "from little" );
	}
} // namespace
DRIVER( endian8 )( u8 x ) {
	vs_total( );
	ordered( x );
}
DRIVER( endian16 )( u16 x ) {
	vs_total( );
	ordered( x );
}
DRIVER( endian32 )( u32 x ) {
	vs_total( );
	ordered( x );
}
DRIVER( endian64 )( u64 x ) {
	vs_total( );
	ordered( x );
}
DRIVER( endian16s )( i16 x ) {
	vs_total( );
	ordered( x );
}
DRIVER( endian32s )( i32 x ) {
	vs_total( );
	CHECK( static_cast<u32>( daw::to_big_endian( x ) ) == other_way( static_cast<u32>( x ) ), "with sign" );
}

DRIVER( ascii )( char c ) {
	vs_total( );
	bool const d = c == '0' or c == '1' or c == '2' or c == '3' or c == '4' or
	               c == '5' or c == '6' or c == '7' or c == '8' or c == '9';
	CHECK( daw::is_ascii_digit( c ) == d, "digit" );
	bool const up = 'A' <= c and c <= 'Z';
	bool const lo = 'a' <= c and c <= 'z';
	CHECK( daw::is_ascii_alpha( c ) == ( up or lo ), "alpha" );
	CHECK( daw::is_ascii_alphanum( c ) == ( up or lo or d ), "alphanum" );
	CHECK( daw::is_ascii_printable( c ) == ( ' ' <= c and c <= '~' ), "printable" );
	CHECK( daw::to_upper_ascii( c ) == ( lo ? static_cast<char>( c - 'a' + 'A' ) : c ), "upper" );
	CHECK( daw::to_lower_ascii( c ) == ( up ? static_cast<char>( c - 'A' + 'a' ) : c ), "lower" );
	REACH( "end" );
}
DRIVER( ascii_wide )( i32 c ) {
	vs_total( );
	bool const d = '0' <= c and c <= '9';
	bool const up = 'A' <= c and c <= 'Z';
	bool const lo = 'a' <= c and c <= 'z';
	CHECK( daw::is_ascii_digit( c ) == d, "digit" );
	CHECK( daw::is_ascii_alpha( c ) == ( up or lo ), "alpha" );
	CHECK( daw::is_ascii_alphanum( c ) == ( up or lo or d ), "alphanum" );
	CHECK( daw::is_ascii_printable( c ) == ( ' ' <= c and c <= '~' ), "printable" );
	CHECK( daw::to_upper_ascii( c ) == ( lo ? c - 32 : c ), "upper" );
	CHECK( daw::to_lower_ascii( c ) == ( up ? c + 32 : c ), "lower" );
	REACH( "end" );
}

// numbers as they are
DRIVER( absolute )( i8 a, i16 b, i32 c, i64 d, u32 e ) {
	vs_total( );
	CHECK( daw::math::abs( a ) == ( a < 0 ? static_cast<u64>( -static_cast<i64>( a ) ) : static_cast<u64>( a ) ), "8" );
	CHECK( daw::math::abs( b ) == ( b < 0 ? static_cast<u64>( -static_cast<i64>( b ) ) : static_cast<u64>( b ) ), "16" );
	CHECK( daw::math::abs( c ) == ( c < 0 ? static_cast<u64>( -static_cast<i64>( c ) ) : static_cast<u64>( c ) ), "32" );
	CHECK( daw::math::abs( d ) == ( d < 0 ? u64{ } - static_cast<u64>( d ) : static_cast<u64>( d ) ), "64" );
	CHECK( daw::math::abs( e ) == e, "without sign" );
	REACH( "end" );
}
DRIVER( powers )( u32 b ) {
	vs_total( );
	CHECK( daw::math::pow( b, 0 ) == 1 or b == 0, "of zero" );
	CHECK( daw::math::pow( b, 1 ) == b, "of one" );
	CHECK( daw::math::pow( b, 2 ) == b * b, "of two" );
	CHECK( daw::math::pow( b, 3 ) == b * b * b, "of three" );
	CHECK( daw::math::pow( b, 5 ) == b * b * b * b * b, "of five" );
	CHECK( daw::math::sqr( b ) == b * b, "square" );
	CHECK( daw::math::pow2( 0u ) == 1 and daw::math::pow2( 1u ) == 2 and daw::math::pow2( 31u ) == 0x80000000u, "of two" );
	CHECK( daw::math::factorial( 0u ) == 1 and daw::math::factorial( 1u ) == 1 and daw::math::factorial( 6u ) == 720 and
	         daw::math::factorial( 20u ) == 2432902008176640000ull,
	       "factorial" );
	REACH( "end" );
}
DRIVER( at_least )( u32 a, u32 b ) {
	vs_total( );
	CHECK( daw::math::value_or_min( a, b ) == ( a < b ? b : a ), "the minimum" );
	CHECK( daw::math::nearly_equal( a, b ) == ( a == b ), "equal" );
	REACH( "end" );
}
