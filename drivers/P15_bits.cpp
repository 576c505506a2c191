// P15: bit sets, bit queues and bit streams
// vs: min=35
#include "vs.h"
#include <daw/daw_bit.h>
#include <daw/daw_bit_queues.h>
#include <daw/daw_bit_stream.h>
#include <daw/daw_bitset.h>

#include <cstdint>
#include <cstring>

namespace {
	using u8 = std::uint8_t;
	using u16 = std::uint16_t;
	using u32 = std::uint32_t;
	using u64 = std::uint64_t;
	template<std::size_t V>
	using at = std::integral_constant<std::size_t, V>;
	template<typename F, std::size_t... I>
	void each_of( F f, std::index_sequence<I...> ) {
		( f( at<I>{ } ), ... );
	}
	template<std::size_t N, typename F>
	void each( F f ) {
		each_of( f, std::make_index_sequence<N>{ } );
	}

	// a set with anything in it
	template<std::size_t N>
	struct any_bits {
		daw::bitset<N> b;
		any_bits( u32 x, u32 y, u32 z ) {
			u32 const w[3] = { x, y, z };
			static_assert( std::is_trivially_copyable_v<daw::bitset<N>> );
			std::memcpy( static_cast<void *>( &b ), w, sizeof( b ) );
		}
	};
} // namespace

#define BITSET( NAME, N, P ) \
	DRIVER( bitset_##NAME )( u32 x, u32 y, u32 z ) { \
		vs_total( ); \
		any_bits<N> const was( x, y, z ); \
		any_bits<N> s( x, y, z ); \
		s.b.set( P ); \
		CHECK( s.b.test( P ), "set is set" ); \
		bool same = true; \
		each<N>( [&]( auto i ) { \
			constexpr std::size_t I = decltype( i )::value; \
			if constexpr( I != P ) { \
				same &= s.b.test( I ) == was.b.test( I ); \
			} \
		} ); \
		CHECK( same, "no other changes" ); \
		any_bits<N> t( x, y, z ); \
		t.b.unset( P ); \
		CHECK( not t.b.test( P ), "unset is unset" ); \
		same = true; \
		each<N>( [&]( auto i ) { \
			constexpr std::size_t I = decltype( i )::value; \
			if constexpr( I != P ) { \
				same &= t.b.test( I ) == was.b.test( I ); \
			} \
		} ); \
		CHECK( same, "no other changes" ); \
		REACH( "end" ); \
	}
BITSET( first_of_40, 40, 0 )
BITSET( p7_of_40, 40, 7 )
BITSET( p31_of_40, 40, 31 )
BITSET( p32_of_40, 40, 32 )
BITSET( last_of_40, 40, 39 )
BITSET( p4_of_5, 5, 4 )
BITSET( p63_of_70, 70, 63 )
BITSET( p64_of_70, 70, 64 )
BITSET( last_of_64, 64, 63 )
DRIVER( bitset_starts_empty )( u32 i ) {
	ASSUME( i < 40 );
	vs_total( );
	daw::bitset<40> b{ };
	CHECK( not b.test( i ), "nothing in it" );
	CHECK( daw::bitset<40>::size( ) == 40, "size" );
}

// single bits of an integer
namespace {
	template<typename T, std::size_t W>
	void single( T x ) {
		each<W>( [&]( auto i ) {
			constexpr std::size_t I = decltype( i )::value;
			T const one = static_cast<T>( T{ 1 } << I );
			CHECK( daw::set_bits( x, I ) == static_cast<T>( x | one ), "set" );
			CHECK( daw::unset_bits( x, I ) == static_cast<T>( x & static_cast<T>( ~one ) ), "unset" );
			CHECK( daw::get_bits( x, I ) == static_cast<T>( x & one ), "get" );
			CHECK( daw::are_set( x, one ) == ( ( ( x >> I ) & 1 ) != 0 ), "are set" );
			constexpr std::size_t J = ( I * 5 + 3 ) % W;
			T const two = static_cast<T>( one | static_cast<T>( T{ 1 } << J ) );
			CHECK( daw::set_bits( x, I, J ) == static_cast<T>( x | two ), "set both" );
			CHECK( daw::unset_bits( x, I, J ) == static_cast<T>( x & static_cast<T>( ~two ) ), "unset both" );
			CHECK( daw::get_bits( x, I, J ) == static_cast<T>( x & two ), "get both" );
		} );
		each<W + 1>( [&]( auto i ) {
			constexpr std::size_t I = decltype( i )::value;
			T low = 0; // the I low bits
			for( std::size_t n = 0; n < I; ++n ) {
				low = static_cast<T>( low | static_cast<T>( T{ 1 } << n ) );
			}
			CHECK( daw::mask_lsb<T>( I ) == static_cast<T>( ~low ) or I == W, "all but the low" );
			T high = 0;
			for( std::size_t n = 0; n + I < W; ++n ) {
				high = static_cast<T>( high | static_cast<T>( T{ 1 } << n ) );
			}
			CHECK( daw::mask_msb<T>( I ) == high, "all but the high" );
		} );
		CHECK( daw::mask_lsb<T>( W ) == 0 and daw::mask_msb<T>( W ) == 0 and
		         daw::mask_lsb<T>( W + 7 ) == 0 and daw::mask_msb<T>( W + 7 ) == 0,
		       "none left" );
	}
} // namespace
DRIVER( single8 )( u8 x ) {
	vs_total( );
	single<u8, 8>( x );
}
DRIVER( single16 )( u16 x ) {
	vs_total( );
	single<u16, 16>( x );
}
DRIVER( single32 )( u32 x ) {
	vs_total( );
	single<u32, 32>( x );
}
DRIVER( single64 )( u64 x ) {
	vs_total( );
	single<u64, 64>( x );
}

// what is pushed first comes out first at the back, what is pushed last at the
// front
namespace {
	template<typename Q, typename V, std::size_t A, std::size_t B>
	void queue( V x, V y ) {
		constexpr std::size_t C = daw::bit_count_v<Q>;
		static_assert( A + B <= C );
		V const a = static_cast<V>( x & daw::mask_msb<V>( daw::bit_count_v<V> - A ) );
		V const b = static_cast<V>( y & daw::mask_msb<V>( daw::bit_count_v<V> - B ) );
		daw::basic_bit_queue<Q, V> q{ };
		CHECK( q.empty( ) and q.size( ) == 0 and q.capacity( ) == C, "empty" );
		q.push_back( x, A );
		CHECK( q.size( ) == A and q.full( ) == ( A == C ) and q.can_pop( A ) and not q.can_pop( A + 1 ), "size" );
		CHECK( q.value( ) == a, "value" );
		q.push_back( y, B );
		CHECK( q.size( ) == A + B and q.full( ) == ( A + B == C ), "size" );
		auto r = q;
		auto s = q;
		auto t = q;
		CHECK( q.pop_back( A ) == a, "first in" );
		CHECK( q.size( ) == B, "gone" );
		CHECK( q.pop_back( B ) == b, "then the second" );
		CHECK( q.empty( ) and q.value( ) == 0, "nothing left" );
		CHECK( r.pop_front( B ) == b, "last in" );
		CHECK( r.size( ) == A, "gone" );
		CHECK( r.pop_front( A ) == a, "then the first" );
		CHECK( r.empty( ) and r.value( ) == 0, "nothing left" );
		if constexpr( A > 1 ) {
			V const hi = s.pop_back( 1 );
			CHECK( hi == static_cast<V>( a >> ( A - 1 ) ), "one bit" );
			V const lo = s.pop_back( A - 1 );
			CHECK( lo == static_cast<V>( a & daw::mask_msb<V>( daw::bit_count_v<V> - ( A - 1 ) ) ), "the rest of it" );
			CHECK( s.pop_back( B ) == b, "then the second" );
		}
		t.clear( );
		CHECK( t.empty( ) and t.value( ) == 0, "cleared" );
		t.push_back( x, A );
		CHECK( t.pop_all( ) == a and t.empty( ), "all of it" );
	}
} // namespace
#define QUEUE( NAME, Q, V, A, B )         \
	DRIVER( queue_##NAME )( V x, V y ) {    \
		vs_total( );                          \
		queue<Q, V, A, B>( x, y );            \
	}
QUEUE( u16_8_8, u16, u8, 8, 8 )
QUEUE( u16_3_5, u16, u8, 3, 5 )
QUEUE( u16_8_1, u16, u8, 8, 1 )
QUEUE( u8_4_4, u8, u8, 4, 4 )
QUEUE( u8_1_7, u8, u8, 1, 7 )
QUEUE( u32_16_16, u32, u16, 16, 16 )
QUEUE( u32_9_11, u32, u16, 9, 11 )
QUEUE( u64_32_32, u64, u32, 32, 32 )
QUEUE( u64_32_8, u64, u32, 32, 8 )
QUEUE( u64_24_8, u64, u64, 24, 8 )
QUEUE( u64_33_31, u64, u64, 33, 31 )
DRIVER( queue_whole )( u64 x, u32 y, u8 z ) {
	vs_total( );
	daw::basic_bit_queue<u64, u64> q{ };
	q.push_back( x );
	CHECK( q.full( ) and q.value( ) == x, "full" );
	auto r = q;
	CHECK( q.pop_back( 64 ) == x and q.empty( ) and q.value( ) == 0, "whole" );
	CHECK( r.pop_front( 64 ) == x and r.empty( ) and r.value( ) == 0, "whole" );
	daw::basic_bit_queue<u32, u32> s( y );
	CHECK( s.full( ) and s.pop_back( 32 ) == y and s.empty( ), "whole" );
	daw::basic_bit_queue<u8, u8> t( z );
	CHECK( t.pop_back( 0 ) == 0 and t.size( ) == 8, "none" );
	CHECK( t.pop_front( 8 ) == z and t.empty( ), "whole" );
}
DRIVER( nibbles )( u8 x, u8 y ) {
	vs_total( );
	daw::basic_nibble_queue<u16> q{ };
	q.push_back( x );
	CHECK( q.size( ) == 1 and not q.empty( ) and q.capacity( ) == 4, "one" );
	q.push_back( y, 2 );
	CHECK( q.size( ) == 3 and q.can_pop( 3 ) and not q.can_pop( 4 ) and not q.full( ), "three" );
	CHECK( q.pop_front( 2 ) == y, "last" );
	CHECK( q.pop_front( 1 ) == ( x & 0xF ) and q.empty( ), "first" );
}

// bits in the order of the elements, the high ones of each first
namespace {
	template<std::size_t A, std::size_t B>
	void stream( u8 const *d ) {
		u32 const all = ( static_cast<u32>( d[0] ) << 24 ) | ( static_cast<u32>( d[1] ) << 16 ) |
		                ( static_cast<u32>( d[2] ) << 8 ) | d[3];
		auto bs = daw::make_bit_stream( d, d + 4 );
		CHECK( bs.pop_bits( A ) == ( all >> ( 32 - A ) ), "first" );
		CHECK( bs.pop_bits( B ) == ( ( all << A ) >> ( 32 - B ) ), "next" );
		CHECK( bs.pop_bits( 8 ) == ( ( all << ( A + B ) ) >> 24 ), "eight more" );
		auto v = daw::make_bit_stream( d, d + 4 );
		CHECK( daw::pop_value<u32>( v, A + B ) == ( all >> ( 32 - A - B ) ), "in one value" );
		auto k = daw::make_bit_stream( d, d + 4 );
		daw::skip_bits( k, A + B );
		CHECK( k.pop_bits( B ) == ( ( all << ( A + B ) ) >> ( 32 - B ) ), "after those skipped" );
	}
} // namespace
#define STREAM( A, B )                                    \
	DRIVER( stream_##A##_##B )( u8 a, u8 b, u8 c, u8 e ) {   \
		vs_total( );                                          \
		u8 const d[4] = { a, b, c, e };                       \
		stream<A, B>( d );                                    \
	}
STREAM( 1, 1 )
STREAM( 3, 7 )
STREAM( 8, 8 )
STREAM( 5, 3 )
STREAM( 4, 8 )
STREAM( 7, 5 )
STREAM( 8, 1 )
DRIVER( stream_values )( u8 a, u8 b, u8 c, u8 e ) {
	vs_total( );
	u8 const d[4] = { a, b, c, e };
	u32 const all = ( static_cast<u32>( d[0] ) << 24 ) | ( static_cast<u32>( d[1] ) << 16 ) |
	                ( static_cast<u32>( d[2] ) << 8 ) | d[3];
	auto v = daw::make_bit_stream( d, d + 4 );
	CHECK( v.valid( ), "there is some" );
	CHECK( daw::pop_value<u32>( v ) == all, "whole" );
	CHECK( not v.valid( ), "then none" );
	auto w = daw::make_bit_stream( d, d + 4 );
	CHECK( daw::pop_value<u16>( w, 11 ) == ( all >> 21 ), "eleven" );
	CHECK( daw::pop_value<u16>( w, 16 ) == ( ( all << 11 ) >> 16 ), "sixteen" );
	auto k = daw::make_bit_stream( d, d + 4 );
	daw::skip_bytes( k, 2 );
	CHECK( k.pop_bits( ) == c, "bytes" );
	REACH( "end" );
}
