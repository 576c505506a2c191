// vs: min=54 flags=-fno-sanitize=null
// P18: hashes of byte ranges
#include "vs.h"
#include <array>
#include <daw/daw_fnv1a_hash.h>
#include <daw/daw_generic_hash.h>
#include <daw/daw_metro_hash.h>
#include <daw/daw_sip_hash.h>
#include <daw/daw_string_view.h>

using u8 = unsigned char;
using u32 = std::uint32_t;
using u64 = std::uint64_t;

// FNV-1a from its definition
static inline u64 fnv( u64 h, u8 b ) {
	return ( h ^ b ) * 1099511628211ULL;
}
static inline u32 fnv32( u32 h, u8 b ) {
	return ( h ^ b ) * 16777619U;
}
static constexpr u64 fnv_init = 14695981039346656037ULL;
static constexpr u32 fnv32_init = 2166136261U;

DRIVER( fnv1a_step )( u64 h, char c, u8 u, signed char s ) {
	vs_total( );
	using H = daw::fnv1a_hash_t;
	CHECK( H::append_hash( h, c ) == fnv( h, static_cast<u8>( c ) ), "a char" );
	CHECK( H::append_hash( h, u ) == fnv( h, u ), "an unsigned char" );
	CHECK( H::append_hash( h, s ) == fnv( h, static_cast<u8>( s ) ), "a signed char" );
	REACH( "step" );
}
DRIVER( fnv1a_value )( u64 h, u32 v, int i, std::uint16_t s ) {
	vs_total( );
	u64 w = h;
	for( int k = 0; k < 4; ++k ) {
		w = fnv( w, static_cast<u8>( v >> ( 8 * k ) ) );
	}
	CHECK( daw::fnv1a_hash_t::append_hash( h, v ) == w, "every byte in order" );
	w = fnv_init;
	for( int k = 0; k < 4; ++k ) {
		w = fnv( w, static_cast<u8>( static_cast<u32>( i ) >> ( 8 * k ) ) );
	}
	CHECK( daw::fnv1a_hash( i ) == w, "hash of an int" );
	CHECK( daw::fnv1a_hash_t{ }( i ) == w, "functor of an int" );
	CHECK( daw::fnv1a_hash_t{ }( &i ) == w, "functor of what is pointed to" );
	w = fnv( fnv( h, static_cast<u8>( s ) ), static_cast<u8>( s >> 8 ) );
	CHECK( daw::fnv1a_hash_t::append_hash( h, s ) == w, "both bytes in order" );
	REACH( "value" );
}
// N bytes, by every route
template<std::size_t N>
static void fnv_bytes( char const *p ) {
	vs_total( );
	vs_region( p, N + 1, false );
	u64 w = fnv_init;
	for( std::size_t k = 0; k < N; ++k ) {
		w = fnv( w, static_cast<u8>( p[k] ) );
	}
	CHECK( daw::fnv1a_hash( p, N ) == w, "pointer and length" );
	CHECK( daw::fnv1a_hash( daw::string_view( p, N ) ) == w, "string view" );
	CHECK( daw::fnv1a_hash_t{ }( p, p + N ) == w, "functor of a range" );
	CHECK( daw::fnv1a_hash_t{ }( daw::string_view( p, N ) ) == w,
	       "functor of a string view" );
	REACH( "fnv" );
}
template<std::size_t N>
static void fnv_text( char const *p ) {
	vs_total( );
	vs_peel( N + 1 );
	vs_region( p, N + 1, false );
	for( std::size_t k = 0; k < N; ++k ) {
		ASSUME( p[k] != '\0' );
	}
	ASSUME( p[N] == '\0' );
	u64 w = fnv_init;
	for( std::size_t k = 0; k < N; ++k ) {
		w = fnv( w, static_cast<u8>( p[k] ) );
	}
	CHECK( daw::fnv1a_hash( p ) == w, "zero terminated" );
	CHECK( daw::fnv1a_hash_t{ }( p ) == w, "functor of zero terminated" );
	REACH( "fnv text" );
}
#define EACH( name, fn, ... )                                    \
	DRIVER( name )( char const *p ) {                              \
		fn<__VA_ARGS__>( p );                                        \
	}
EACH( fnv_bytes_0, fnv_bytes, 0 )
EACH( fnv_bytes_1, fnv_bytes, 1 )
EACH( fnv_bytes_2, fnv_bytes, 2 )
EACH( fnv_bytes_5, fnv_bytes, 5 )
EACH( fnv_bytes_9, fnv_bytes, 9 )
EACH( fnv_text_0, fnv_text, 0 )
EACH( fnv_text_1, fnv_text, 1 )
EACH( fnv_text_2, fnv_text, 2 )
EACH( fnv_text_4, fnv_text, 4 )
// any length: nothing but the range is read
DRIVER( fnv_within )( char const *p, std::size_t n ) {
	vs_total( );
	VS_LEN( n );
	vs_region( p, n, false );
	(void)daw::fnv1a_hash( p, n );
	(void)daw::fnv1a_hash( daw::string_view( p, n ) );
	(void)daw::fnv1a_hash_t{ }( p, p + n );
	(void)daw::fnv1a_hash_t{ }( daw::string_view( p, n ) );
	REACH( "within" );
}

DRIVER( generic_step )( u64 h, u32 g, char c, u32 v, std::int16_t s ) {
	vs_total( );
	using G4 = daw::generic_hash_t<4>;
	using G8 = daw::generic_hash_t<8>;
	CHECK( G8::append_hash( h, c ) == fnv( h, static_cast<u8>( c ) ), "a char" );
	CHECK( G4::append_hash( g, c ) == fnv32( g, static_cast<u8>( c ) ), "a char" );
	u64 w = h;
	u32 x = g;
	for( int k = 0; k < 4; ++k ) {
		w = fnv( w, static_cast<u8>( v >> ( 8 * k ) ) );
		x = fnv32( x, static_cast<u8>( v >> ( 8 * k ) ) );
	}
	CHECK( G8::append_hash( h, v ) == w, "every byte in order" );
	CHECK( G4::append_hash( g, v ) == x, "every byte in order" );
	auto const us = static_cast<std::uint16_t>( s );
	w = fnv( fnv( fnv_init, static_cast<u8>( us ) ), static_cast<u8>( us >> 8 ) );
	x = fnv32( fnv32( fnv32_init, static_cast<u8>( us ) ),
	           static_cast<u8>( us >> 8 ) );
	CHECK( G8{ }( s ) == w and daw::generic_hash<8>( s ) == w, "of a value" );
	CHECK( G4{ }( s ) == x and daw::generic_hash<4>( s ) == x, "of a value" );
	CHECK( G8{ }( &s ) == w, "of what is pointed to" );
	REACH( "generic" );
}
template<std::size_t N>
static void generic_bytes( char const *p ) {
	vs_total( );
	vs_region( p, N, false );
	u64 w = fnv_init;
	u32 x = fnv32_init;
	for( std::size_t k = 0; k < N; ++k ) {
		w = fnv( w, static_cast<u8>( p[k] ) );
		x = fnv32( x, static_cast<u8>( p[k] ) );
	}
	CHECK( daw::generic_hash<8>( p, N ) == w, "pointer and length" );
	CHECK( daw::generic_hash<4>( p, N ) == x, "pointer and length" );
	CHECK( daw::generic_hash<8>( daw::string_view( p, N ) ) == w, "string view" );
	CHECK( daw::generic_hash_t<8>{ }( p, p + N ) == w, "functor of a range" );
	CHECK( daw::generic_hash_t<4>{ }( p, p + N ) == x, "functor of a range" );
	REACH( "generic" );
}
EACH( generic_bytes_0, generic_bytes, 0 )
EACH( generic_bytes_1, generic_bytes, 1 )
EACH( generic_bytes_3, generic_bytes, 3 )
EACH( generic_bytes_8, generic_bytes, 8 )
DRIVER( generic_within )( char const *p, std::size_t n ) {
	vs_total( );
	VS_LEN( n );
	vs_region( p, n, false );
	(void)daw::generic_hash<8>( p, n );
	(void)daw::generic_hash<4>( p, n );
	(void)daw::generic_hash_t<8>{ }( p, p + n );
	REACH( "within" );
}

// MetroHash64 from its publication
namespace ref {
	template<typename T>
	static inline T le( char const *p ) {
		T r = 0;
		for( unsigned k = 0; k < sizeof( T ); ++k ) {
			r = static_cast<T>( r | static_cast<T>( static_cast<T>( static_cast<u8>( p[k] ) ) << ( 8 * k ) ) );
		}
		return r;
	}
	static inline u64 rotr( u64 v, unsigned k ) {
		return ( v >> k ) | ( v << ( 64 - k ) );
	}
	static inline u64 rotl( u64 v, unsigned k ) {
		return ( v << k ) | ( v >> ( 64 - k ) );
	}
	template<std::size_t N>
	static inline u64 metro( char const *p, u64 seed ) {
		constexpr u64 k0 = 0xD6D018F5, k1 = 0xA2AA033B, k2 = 0x62992FC1,
		              k3 = 0x30BC5B29;
		u64 hash = ( seed + k2 ) * k0;
		std::size_t n = N;
		if( n >= 32 ) {
			u64 v[4] = { hash, hash, hash, hash };
			do {
				v[0] += le<u64>( p ) * k0;
				v[0] = rotr( v[0], 29 ) + v[2];
				v[1] += le<u64>( p + 8 ) * k1;
				v[1] = rotr( v[1], 29 ) + v[3];
				v[2] += le<u64>( p + 16 ) * k2;
				v[2] = rotr( v[2], 29 ) + v[0];
				v[3] += le<u64>( p + 24 ) * k3;
				v[3] = rotr( v[3], 29 ) + v[1];
				p += 32;
				n -= 32;
			} while( n >= 32 );
			v[2] ^= rotr( ( ( v[0] + v[3] ) * k0 ) + v[1], 37 ) * k1;
			v[3] ^= rotr( ( ( v[1] + v[2] ) * k1 ) + v[0], 37 ) * k0;
			v[0] ^= rotr( ( ( v[0] + v[2] ) * k0 ) + v[3], 37 ) * k1;
			v[1] ^= rotr( ( ( v[1] + v[3] ) * k1 ) + v[2], 37 ) * k0;
			hash += v[0] ^ v[1];
		}
		if( n >= 16 ) {
			u64 v0 = hash + ( le<u64>( p ) * k2 );
			v0 = rotr( v0, 29 ) * k3;
			u64 v1 = hash + ( le<u64>( p + 8 ) * k2 );
			v1 = rotr( v1, 29 ) * k3;
			v0 ^= rotr( v0 * k0, 21 ) + v1;
			v1 ^= rotr( v1 * k3, 21 ) + v0;
			hash += v1;
			p += 16;
			n -= 16;
		}
		if( n >= 8 ) {
			hash += le<u64>( p ) * k3;
			hash ^= rotr( hash, 55 ) * k1;
			p += 8;
			n -= 8;
		}
		if( n >= 4 ) {
			hash += static_cast<u64>( le<u32>( p ) ) * k3;
			hash ^= rotr( hash, 26 ) * k1;
			p += 4;
			n -= 4;
		}
		if( n >= 2 ) {
			hash += static_cast<u64>( le<std::uint16_t>( p ) ) * k3;
			hash ^= rotr( hash, 48 ) * k1;
			p += 2;
			n -= 2;
		}
		if( n >= 1 ) {
			hash += static_cast<u64>( static_cast<u8>( *p ) ) * k3;
			hash ^= rotr( hash, 37 ) * k1;
		}
		hash ^= rotr( hash, 28 );
		hash *= k0;
		hash ^= rotr( hash, 29 );
		return hash;
	}
	// SipHash-2-4 from its publication
	struct sip {
		u64 v0, v1, v2, v3;
		void round( ) {
			v0 += v1;
			v1 = rotl( v1, 13 );
			v1 ^= v0;
			v0 = rotl( v0, 32 );
			v2 += v3;
			v3 = rotl( v3, 16 );
			v3 ^= v2;
			v0 += v3;
			v3 = rotl( v3, 21 );
			v3 ^= v0;
			v2 += v1;
			v1 = rotl( v1, 17 );
			v1 ^= v2;
			v2 = rotl( v2, 32 );
		}
	};
	template<std::size_t N>
	static inline u64 siphash( char const *p, char const *key ) {
		u64 const k0 = le<u64>( key ), k1 = le<u64>( key + 8 );
		sip s{ k0 ^ 0x736f6d6570736575ULL, k1 ^ 0x646f72616e646f6dULL,
		       k0 ^ 0x6c7967656e657261ULL, k1 ^ 0x7465646279746573ULL };
		std::size_t n = N;
		while( n >= 8 ) {
			u64 const m = le<u64>( p );
			s.v3 ^= m;
			s.round( );
			s.round( );
			s.v0 ^= m;
			p += 8;
			n -= 8;
		}
		u64 b = static_cast<u64>( N & 0xff ) << 56;
		for( std::size_t k = 0; k < n; ++k ) {
			b |= static_cast<u64>( static_cast<u8>( p[k] ) ) << ( 8 * k );
		}
		s.v3 ^= b;
		s.round( );
		s.round( );
		s.v0 ^= b;
		s.v2 ^= 0xff;
		for( int k = 0; k < 4; ++k ) {
			s.round( );
		}
		return s.v0 ^ s.v1 ^ s.v2 ^ s.v3;
	}
} // namespace ref
template<std::size_t N>
static void metro( char const *p, u64 seed ) {
	vs_total( );
	vs_peel( N / 32 + 1 );
	vs_region( p, N, false );
	CHECK( daw::metro::hash64( daw::string_view( p, N ), seed ) ==
	         ref::metro<N>( p, seed ),
	       "MetroHash64" );
	REACH( "metro" );
}
#define METRO( n )                                   \
	DRIVER( metro_##n )( char const *p, u64 seed ) {   \
		metro<n>( p, seed );                             \
	}
METRO( 0 )
METRO( 1 )
METRO( 2 )
METRO( 3 )
METRO( 4 )
METRO( 7 )
METRO( 8 )
METRO( 15 )
METRO( 16 )
METRO( 31 )
METRO( 32 )
METRO( 33 )
METRO( 5 )
METRO( 6 )
METRO( 12 )
METRO( 24 )
METRO( 63 )
METRO( 64 )
METRO( 79 )
METRO( 96 )
DRIVER( metro_within )( char const *p, std::size_t n, u64 seed ) {
	vs_total( );
	VS_LEN( n );
	vs_region( p, n, false );
	(void)daw::metro::hash64( daw::string_view( p, n ), seed );
	REACH( "within" );
}
template<std::size_t N>
static void sip( char const *p, char const *key ) {
	vs_total( );
	vs_region( p, N, false );
	vs_region( key, 16, false );
	ASSUME( p != nullptr );
	CHECK( daw::siphash24( p, N, key ) == ref::siphash<N>( p, key ),
	       "SipHash-2-4" );
	REACH( "sip" );
}
#define SIP( n )                                         \
	DRIVER( sip_##n )( char const *p, char const *key ) {  \
		sip<n>( p, key );                                    \
	}
SIP( 0 )
SIP( 1 )
SIP( 2 )
SIP( 3 )
SIP( 4 )
SIP( 5 )
SIP( 6 )
SIP( 7 )
SIP( 8 )
SIP( 13 )
SIP( 16 )
SIP( 9 )
SIP( 15 )
SIP( 23 )
DRIVER( sip_within )( char const *p, std::size_t n, char const *key ) {
	vs_total( );
	VS_LEN( n );
	ASSUME( p != nullptr or n == 0 );
	vs_region( p, n, false );
	vs_region( key, 16, false );
	(void)daw::siphash24( p, n, key );
	REACH( "within" );
}
