// P15: the sized unsigned types compute what the integers they stand for do
// vs: min=94 flags=-fno-sanitize=null
#include "vs.h"
#include <daw/daw_uint_buffer.h>

#include <cstdint>

namespace {
	using u8 = std::uint8_t;
	using u16 = std::uint16_t;
	using u32 = std::uint32_t;
	using u64 = std::uint64_t;
	using namespace daw;
	template<std::size_t V>
	using at = std::integral_constant<std::size_t, V>;
	template<typename F, std::size_t... I>
	void each_of( F f, std::index_sequence<I...> ) {
		( f( at<I>{ } ), ... );
	}
	template<std::size_t N, typename F>
	void each( F f ) {
		each_of( f, std::make_index_sequence<N>{ } );
	}

	template<typename T>
	struct number_of {
		using type = T;
	};
	template<>
	struct number_of<UInt8> {
		using type = u8;
	};
	template<>
	struct number_of<UInt16> {
		using type = u16;
	};
	template<>
	struct number_of<UInt32> {
		using type = u32;
	};
	template<>
	struct number_of<UInt64> {
		using type = u64;
	};
	template<typename T>
	using num = typename number_of<T>::type;
	// as a number
	template<typename T>
	constexpr u64 n( T x ) {
		return static_cast<u64>( static_cast<num<T>>( x ) );
	}
	// small ones are multiplied in 32 bits
	template<typename T>
	constexpr auto m( T x ) {
		using N = std::conditional_t<( sizeof( T ) < 2 ), u32, u64>;
		return static_cast<N>( static_cast<num<T>>( x ) );
	}
	// cut to what T holds
	template<typename T>
	constexpr u64 cut( u64 x ) {
		return static_cast<u64>( static_cast<num<T>>( x ) );
	}
	template<typename A, typename B>
	inline constexpr std::size_t wider = sizeof( A ) > sizeof( B ) ? sizeof( A ) : sizeof( B );
} // namespace

// every operator there is for the two types
namespace {
#define VS_OP( NAME, OP, OPEQ )                                                          \
	template<typename A, typename B>                                                       \
	void NAME( A a, B b ) {                                                                \
		if constexpr( requires { a OP b; } ) {                                               \
			using R = decltype( a OP b );                                                      \
			static_assert( std::is_integral_v<A> or std::is_integral_v<B> or sizeof( R ) == wider<A, B> );                                       \
			CHECK( n( a OP b ) == cut<R>( n( a ) OP n( b ) ), #NAME );                          \
		}                                                                                    \
		if constexpr( requires( A & x ) { x OPEQ b; } ) {                                    \
			A x = a;                                                                           \
			auto &y = ( x OPEQ b );                                                            \
			CHECK( n( x ) == cut<A>( n( a ) OP n( b ) ), #NAME " in place" );                   \
			CHECK( &y == &x, "itself" );                                                       \
		}                                                                                    \
	}
	VS_OP( plus, +, += )
	VS_OP( minus, -, -= )
	VS_OP( divided, /, /= )
	VS_OP( remainder, %, %= )
	VS_OP( both, &, &= )
	VS_OP( either, |, |= )
	VS_OP( one_of, ^, ^= )
#define VS_TIMES( NAME, OP, OPEQ )                                                          \
	template<typename A, typename B>                                                       \
	void NAME( A a, B b ) {                                                                \
		if constexpr( requires { a OP b; } ) {                                               \
			using R = decltype( a OP b );                                                      \
			static_assert( std::is_integral_v<A> or std::is_integral_v<B> or sizeof( R ) == wider<A, B> );                                       \
			CHECK( n( a OP b ) == cut<R>( m( a ) OP m( b ) ), #NAME );                          \
		}                                                                                    \
		if constexpr( requires( A & x ) { x OPEQ b; } ) {                                    \
			A x = a;                                                                           \
			auto &y = ( x OPEQ b );                                                            \
			CHECK( n( x ) == cut<A>( m( a ) OP m( b ) ), #NAME " in place" );                   \
			CHECK( &y == &x, "itself" );                                                       \
		}                                                                                    \
	}
	VS_TIMES( times, *, *= )
#define VS_SHIFT( NAME, OP, OPEQ )                                                       \
	template<typename A, typename B>                                                       \
	void NAME( A a, B b ) {                                                                \
		if constexpr( requires { a OP b; } ) {                                               \
			using R = decltype( a OP b );                                                      \
			static_assert( std::is_integral_v<A> or std::is_integral_v<B> or sizeof( R ) == sizeof( A ) );                                       \
			CHECK( n( a OP b ) == cut<R>( n( a ) OP n( b ) ), #NAME );                          \
		}                                                                                    \
		if constexpr( requires( A & x ) { x OPEQ b; } ) {                                    \
			A x = a;                                                                           \
			auto &y = ( x OPEQ b );                                                            \
			CHECK( n( x ) == cut<A>( n( a ) OP n( b ) ), #NAME " in place" );                   \
			CHECK( &y == &x, "itself" );                                                       \
		}                                                                                    \
	}
	VS_SHIFT( left, <<, <<= )
	VS_SHIFT( right, >>, >>= )
#define VS_CMP( NAME, OP )                                                               \
	template<typename A, typename B>                                                       \
	void NAME( A a, B b ) {                                                                \
		if constexpr( requires { a OP b; } ) {                                               \
			CHECK( ( a OP b ) == ( n( a ) OP n( b ) ), #NAME );                                 \
		}                                                                                    \
	}
	VS_CMP( eq, == )
	VS_CMP( ne, != )
	VS_CMP( lt, < )
	VS_CMP( le, <= )
	VS_CMP( gt, > )
	VS_CMP( ge, >= )
	template<typename A, typename B>
	void arithmetic( A a, B b ) {
		plus( a, b );
		minus( a, b );
		times( a, b );
		both( a, b );
		either( a, b );
		one_of( a, b );
		eq( a, b );
		ne( a, b );
		lt( a, b );
		le( a, b );
		gt( a, b );
		ge( a, b );
	}
} // namespace
#define TWO( NAME, A, B )                                              \
	DRIVER( arithmetic_##NAME )( num<A> x, num<B> y ) {                  \
		vs_total( );                                                       \
		arithmetic( static_cast<A>( x ), static_cast<B>( y ) );            \
	}                                                                    \
	DRIVER( division_##NAME )( num<A> x, num<B> y ) {                    \
		ASSUME( y != 0 );                                                  \
		vs_total( );                                                       \
		divided( static_cast<A>( x ), static_cast<B>( y ) );               \
		remainder( static_cast<A>( x ), static_cast<B>( y ) );             \
	}                                                                    \
	DRIVER( shift_##NAME )( num<A> x ) {                                 \
		vs_total( );                                                       \
		each<8 * sizeof( A )>( [&]( auto i ) {                             \
			left( static_cast<A>( x ), static_cast<B>( i.value ) );          \
			right( static_cast<A>( x ), static_cast<B>( i.value ) );         \
		} );                                                               \
	}
#define FOUR( A, AN )                \
	TWO( AN##_UInt8, A, UInt8 )        \
	TWO( AN##_UInt16, A, UInt16 )      \
	TWO( AN##_UInt32, A, UInt32 )      \
	TWO( AN##_UInt64, A, UInt64 )
FOUR( UInt8, UInt8 )
FOUR( UInt16, UInt16 )
FOUR( UInt32, UInt32 )
FOUR( UInt64, UInt64 )
TWO( UInt8_u8, UInt8, u8 )
TWO( UInt16_u16, UInt16, u16 )
TWO( UInt32_u32, UInt32, u32 )
TWO( UInt64_u64, UInt64, u64 )
TWO( u8_UInt8, u8, UInt8 )
TWO( u16_UInt16, u16, UInt16 )
TWO( u32_UInt32, u32, UInt32 )
TWO( u64_UInt64, u64, UInt64 )

namespace {
	template<typename T>
	void alone( num<T> x ) {
		T const t = static_cast<T>( x );
		CHECK( n( ~t ) == cut<T>( ~n( t ) ), "not" );
		CHECK( n( -t ) == cut<T>( u64{ 0 } - n( t ) ), "minus" );
		CHECK( +t == t, "plus" );
		CHECK( static_cast<bool>( !t ) == ( x == 0 ), "none" );
		T a = t;
		T b = ++a;
		CHECK( n( a ) == cut<T>( n( t ) + 1 ) and a == b, "one more" );
		T c = t;
		T d = c++;
		CHECK( n( c ) == cut<T>( n( t ) + 1 ) and d == t, "one more" );
		T e = t;
		T f = --e;
		CHECK( n( e ) == cut<T>( n( t ) - 1 ) and e == f, "one less" );
		T g = t;
		T h = g--;
		CHECK( n( g ) == cut<T>( n( t ) - 1 ) and h == t, "one less" );
		using L = std::numeric_limits<T>;
		using M = std::numeric_limits<num<T>>;
		CHECK( n( L::max( ) ) == M::max( ) and n( L::min( ) ) == 0 and n( L::lowest( ) ) == 0 and
		         L::digits == M::digits,
		       "limits" );
	}
	// rotations by n, and single bits
	template<typename T, unsigned I>
	void at_one( num<T> x ) {
		constexpr unsigned W = 8 * sizeof( T );
		T const t = static_cast<T>( x );
		u64 const r = cut<T>( ( n( t ) << I ) | ( n( t ) >> ( ( W - I ) % 64 ) & ( I == 0 ? 0 : ~u64{ } ) ) );
		u64 const s = cut<T>( ( n( t ) >> I ) | ( ( n( t ) << ( ( W - I ) % 64 ) ) & ( I == 0 ? 0 : ~u64{ } ) ) );
		CHECK( n( rotate_left<I>( t ) ) == r and n( rotate_left( t, I ) ) == r, "round to the left" );
		CHECK( n( rotate_right<I>( t ) ) == s and n( rotate_right( t, I ) ) == s, "round to the right" );
		CHECK( n( get_bit<I>( t ) ) == ( ( n( t ) >> I ) & 1 ), "bit" );
		T a = t;
		set_bit<I>( a, true );
		CHECK( n( a ) == ( n( t ) | ( u64{ 1 } << I ) ), "bit set" );
		T b = t;
		set_bit<I>( b, false );
		CHECK( n( b ) == ( n( t ) & ~( u64{ 1 } << I ) ), "bit not set" );
	}
} // namespace
#define ALONE( T )                      \
	DRIVER( alone_##T )( num<T> x ) {     \
		vs_total( );                        \
		alone<T>( x );                      \
	}
ALONE( UInt8 )
ALONE( UInt16 )
ALONE( UInt32 )
ALONE( UInt64 )
#define AT( T, I )                      \
	DRIVER( bit_##T##_##I )( num<T> x ) { \
		vs_total( );                        \
		at_one<T, I>( x );                  \
	}
AT( UInt8, 0 )
AT( UInt8, 1 )
AT( UInt8, 7 )
AT( UInt16, 0 )
AT( UInt16, 5 )
AT( UInt16, 15 )
AT( UInt32, 0 )
AT( UInt32, 1 )
AT( UInt32, 16 )
AT( UInt32, 31 )
AT( UInt64, 0 )
AT( UInt64, 1 )
AT( UInt64, 31 )
AT( UInt64, 32 )
AT( UInt64, 63 )
DRIVER( from_bytes )( char a, char b, char c, char d, char e, char f, char g, char h ) {
	vs_total( );
	char const p[8] = { a, b, c, d, e, f, g, h };
	u64 w = 0;
	for( unsigned i = 0; i < 8; ++i ) {
		w |= static_cast<u64>( static_cast<unsigned char>( p[i] ) ) << ( 8 * i );
	}
	CHECK( n( to_uint64_buffer( p ) ) == w, "eight" );
	CHECK( n( to_uint32_buffer( p ) ) == ( w & 0xFFFFFFFFu ), "four" );
	CHECK( n( to_uint16_buffer( p ) ) == ( w & 0xFFFFu ), "two" );
	REACH( "end" );
}
DRIVER( reads_no_more )( char const *p, int k ) {
	std::size_t const s = k == 0 ? 8 : k == 1 ? 4 : 2;
	vs_region( p, s, false );
	vs_total( );
	if( k == 0 ) {
		(void)to_uint64_buffer( p );
	} else if( k == 1 ) {
		(void)to_uint32_buffer( p );
	} else {
		(void)to_uint16_buffer( p );
	}
	REACH( "end" );
}
DRIVER( masks )( ) {
	vs_total( );
	CHECK( n( mask_from_lsb64<0> ) == 0 and n( mask_from_lsb64<1> ) == 1 and n( mask_from_lsb64<33> ) == 0x1'FFFF'FFFFull and
	         n( mask_from_lsb64<64> ) == ~u64{ },
	       "64" );
	CHECK( n( mask_from_lsb32<0> ) == 0 and n( mask_from_lsb32<5> ) == 31 and n( mask_from_lsb32<32> ) == 0xFFFFFFFFu, "32" );
	CHECK( n( mask_from_lsb16<0> ) == 0 and n( mask_from_lsb16<9> ) == 511 and n( mask_from_lsb16<16> ) == 0xFFFF, "16" );
	CHECK( n( mask_from_lsb8<0> ) == 0 and n( mask_from_lsb8<3> ) == 7 and n( mask_from_lsb8<8> ) == 0xFF, "8" );
}
