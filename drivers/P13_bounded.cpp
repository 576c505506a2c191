// P13: bounded and fixed containers hold exactly the elements put into them, in order
// vs: min=30 flags=-fno-sanitize=null
#include "vs.h"
#include <daw/daw_array.h>
#include <daw/daw_bounded_array.h>
#include <daw/daw_bounded_vector.h>
#include <daw/daw_keep_n.h>
#include <daw/daw_container_traits.h>
#include <daw/daw_ring_adaptor.h>
#include <daw/daw_simple_array.h>
#include <daw/daw_unique_array.h>
#include <stdexcept>

// a vector of S elements given by e, F slots into its storage
static constexpr std::size_t N = 4;
using bv = daw::bounded_vector_t<int, N>;
template<std::size_t F, std::size_t S>
static void fill( bv &v, int const ( &e )[N] ) {
	for( std::size_t n = 0; n < F; ++n ) {
		v.push_back( -1 );
	}
	for( std::size_t n = 0; n < S; ++n ) {
		v.push_back( e[n] );
	}
	v.pop_front( F );
}
template<std::size_t S>
static void same( bv &v, int const ( &e )[N] ) {
	bv const &c = v;
	CHECK( v.size( ) == S, "size" );
	CHECK( v.empty( ) == ( S == 0 ), "empty" );
	CHECK( v.full( ) == ( S == N ), "full" );
	CHECK( v.capacity( ) == N, "capacity" );
	CHECK( v.available( ) == N - S, "available" );
	CHECK( v.has_room( N - S ), "room for the rest" );
	CHECK( not v.has_room( N - S + 1 ), "no room for more" );
	CHECK( v.end( ) - v.begin( ) == S, "range" );
	CHECK( c.end( ) - c.begin( ) == S, "range" );
	CHECK( v.cend( ) - v.cbegin( ) == S, "range" );
	CHECK( v.rend( ) - v.rbegin( ) == S, "range" );
	CHECK( c.rend( ) - c.rbegin( ) == S, "range" );
	CHECK( c.crend( ) - c.crbegin( ) == S, "range" );
	CHECK( v.data( ) == v.begin( ) and c.data( ) == c.begin( ), "data" );
	CHECK( v.begin( ) == c.begin( ) and c.begin( ) == v.cbegin( ), "data" );
	for( std::size_t n = 0; n < S; ++n ) {
		CHECK( v[n] == e[n] and c[n] == e[n], "element" );
		CHECK( v.at( n ) == e[n] and c.at( n ) == e[n], "element" );
		CHECK( v.begin( )[n] == e[n], "element" );
		CHECK( v.rbegin( )[n] == e[S - 1 - n], "element" );
	}
	if constexpr( S > 0 ) {
		CHECK( v.front( ) == e[0] and c.front( ) == e[0], "front" );
		CHECK( v.back( ) == e[S - 1] and c.back( ) == e[S - 1], "back" );
	}
}
// every position the live range can have
template<int Lo, int Hi, typename F>
static void shapes( F f ) {
	using std::integral_constant;
	switch( vs_int( ) ) {
#define SH( a, b )                                    \
	case a * 8 + b:                                     \
		if constexpr( a * 8 + b >= Lo and a * 8 + b <= Hi ) { \
			f( integral_constant<std::size_t, a>{ },        \
			   integral_constant<std::size_t, b>{ } );      \
		}                                                 \
		break;
		SH( 0, 0 )
		SH( 0, 1 ) SH( 0, 2 ) SH( 0, 3 ) SH( 0, 4 ) SH( 1, 0 ) SH( 1, 1 ) SH( 1, 2 )
		SH( 1, 3 ) SH( 2, 0 ) SH( 2, 1 ) SH( 2, 2 ) SH( 3, 0 ) SH( 3, 1 ) SH( 4, 0 )
#undef SH
	}
}
// one driver per group of shapes
#define PART( name, lo, hi )               \
	DRIVER( name##_##lo )( ES, int x, int y ) { \
		name<lo, hi>( a, b, c, d, x, y );      \
	}
#define PARTS( name )                                                \
	PART( name, 0, 1 ) PART( name, 2, 2 ) PART( name, 3, 3 )           \
	PART( name, 4, 8 ) PART( name, 9, 10 ) PART( name, 11, 11 )        \
	PART( name, 16, 17 ) PART( name, 18, 18 ) PART( name, 24, 32 )
#define ES int a, int b, int c, int d
DRIVER( bv_shape )( ES ) {
	vs_total( );
	int e[N] = { a, b, c, d };
	shapes<0, 99>( [&]( auto f, auto s ) {
		bv v;
		fill<f, s>( v, e );
		same<s>( v, e );
	} );
	REACH( "end" );
}
DRIVER( bv_construct )( ES ) {
	vs_total( );
	int e[N] = { a, b, c, d };
	shapes<0, 99>( [&]( auto f, auto s ) {
		if constexpr( f == 0 ) {
			bv v( e, s );
			same<s>( v, e );
			bv w( &e[0], &e[0] + s );
			same<s>( w, e );
		}
	} );
	// more than fits
	int l[6] = { a, b, c, d, 1, 2 };
	bv v( l, 6 );
	same<4>( v, e );
	REACH( "end" );
}
template<int Lo, int Hi>
static void bv_push_back( ES, int x, int y ) {
	vs_total( );
	int e[N] = { a, b, c, d };
	shapes<Lo, Hi>( [&]( auto f, auto s ) {
		if constexpr( s < N ) {
			int r[N] = { a, b, c, d };
			r[s] = x;
			bv v;
			fill<f, s>( v, e );
			switch( y ) {
			case 0:
				v.push_back( x );
				break;
			case 1:
				v.push_back( int( x ) );
				break;
			case 2:
				v.emplace_back( x );
				break;
			case 3:
				v.emplace_back( );
				CHECK( v.back( ) == 0, "value initialized" );
				v.back( ) = x;
				break;
			default:
				(void)v.push_back( );
				v.back( ) = x;
			}
			same<s + 1>( v, r );
		}
	} );
	REACH( "end" );
}
PARTS( bv_push_back )
template<int Lo, int Hi>
static void bv_push_back_many( ES, int x, int y ) {
	vs_total( );
	int e[N] = { a, b, c, d };
	shapes<Lo, Hi>( [&]( auto f, auto s ) {
		if constexpr( s + 2 <= N ) {
			int r[N] = { a, b, c, d };
			r[s] = x;
			r[s + 1] = y;
			bv v;
			fill<f, s>( v, e );
			if( vs_bool( ) ) {
				int in[2] = { x, y };
				v.push_back( in, 2 );
			} else {
				long in2[2] = { x, y };
				v.push_back( in2, 2 );
			}
			same<s + 2>( v, r );
		}
	} );
	REACH( "end" );
}
PARTS( bv_push_back_many )
DRIVER( bv_pop )( ES ) {
	vs_total( );
	int e[N] = { a, b, c, d };
	shapes<0, 99>( [&]( auto f, auto s ) {
		if constexpr( s > 0 ) {
			int r[N] = { b, c, d, 0 };
			bv v, w;
			fill<f, s>( v, e );
			CHECK( v.pop_back( ) == e[s - 1], "the last" );
			same<s - 1>( v, e );
			fill<f, s>( w, e );
			CHECK( w.pop_front( ) == e[0], "the first" );
			same<s - 1>( w, r );
		}
		if constexpr( s > 1 ) {
			int r[N] = { c, d, 0, 0 };
			bv v;
			fill<f, s>( v, e );
			v.pop_front( 2 );
			same<s - 2>( v, r );
		}
	} );
	REACH( "end" );
}
DRIVER( bv_pop_too_many )( ES ) {
	vs_throws( );
	int e[N] = { a, b, c, d };
	shapes<0, 99>( [&]( auto f, auto s ) {
		bv v;
		fill<f, s>( v, e );
		bool thrown = false;
		try {
			v.pop_front( s + 1 );
			NEVER( "popped more than there is" );
		} catch( std::out_of_range const & ) { thrown = true; }
		CHECK( thrown, "refused" );
		same<s>( v, e );
	} );
	REACH( "end" );
}
DRIVER( bv_at )( ES, std::size_t pos ) {
	vs_throws( );
	int e[N] = { a, b, c, d };
	shapes<0, 99>( [&]( auto f, auto s ) {
		bv v;
		fill<f, s>( v, e );
		bv const &cv = v;
		if( pos < s ) {
			return;
		}
		bool thrown = false;
		try {
			(void)v.at( pos );
			NEVER( "accepted" );
		} catch( ... ) { thrown = true; }
		CHECK( thrown, "refused" );
		thrown = false;
		try {
			(void)cv.at( pos );
			NEVER( "accepted" );
		} catch( ... ) { thrown = true; }
		CHECK( thrown, "refused" );
	} );
	REACH( "end" );
}
template<std::size_t F, std::size_t S, std::size_t C>
static void resized( int const ( &e )[N] ) {
	bv v;
	fill<F, S>( v, e );
	v.resize( C );
	int r[N] = { S > 0 ? e[0] : 0, S > 1 ? e[1] : 0, S > 2 ? e[2] : 0,
	             S > 3 ? e[3] : 0 };
	same<C>( v, r );
}
template<int Lo, int Hi>
static void bv_resize( ES, int x, int y ) {
	vs_total( );
	int e[N] = { a, b, c, d };
	shapes<Lo, Hi>( [&]( auto f, auto s ) {
		switch( x ) {
		case 0:
			return resized<f, s, 0>( e );
		case 1:
			return resized<f, s, 1>( e );
		case 2:
			return resized<f, s, 2>( e );
		case 3:
			return resized<f, s, 3>( e );
		default:
			return resized<f, s, 4>( e );
		}
	} );
	REACH( "end" );
}
PART( bv_resize, 0, 1 )
PART( bv_resize, 2, 2 )
PART( bv_resize, 3, 3 )
PART( bv_resize, 4, 8 )
PART( bv_resize, 9, 10 )
PART( bv_resize, 11, 11 )
PART( bv_resize, 18, 18 )
PART( bv_resize, 25, 25 )
PART( bv_resize, 32, 32 )
// nothing left of what was there: one driver per new size
#define FROM( f, s, n )                             \
	DRIVER( bv_resize_##f##s##_to_##n )( ES ) {       \
		vs_total( );                                    \
		int e[N] = { a, b, c, d };                      \
		resized<f, s, n>( e );                          \
		REACH( "end" );                                 \
	}
FROM( 2, 0, 0 ) FROM( 2, 0, 1 ) FROM( 2, 0, 2 ) FROM( 2, 0, 3 ) FROM( 2, 0, 4 )
FROM( 2, 1, 0 ) FROM( 2, 1, 1 ) FROM( 2, 1, 2 ) FROM( 2, 1, 3 ) FROM( 2, 1, 4 )
FROM( 3, 0, 0 ) FROM( 3, 0, 1 ) FROM( 3, 0, 2 ) FROM( 3, 0, 3 ) FROM( 3, 0, 4 )
DRIVER( bv_resize_too_far )( ES, std::size_t n ) {
	vs_throws( );
	ASSUME( n > N );
	int e[N] = { a, b, c, d };
	bv v;
	fill<1, 2>( v, e );
	try {
		v.resize( n );
		NEVER( "accepted" );
	} catch( std::out_of_range const & ) {
		same<2>( v, e );
		REACH( "refused" );
	}
}
DRIVER( bv_assign_clear )( ES, int x ) {
	vs_total( );
	int e[N] = { a, b, c, d };
	int r[N] = { x, x, x, x };
	shapes<0, 99>( [&]( auto f, auto s ) {
		bv v, w, z;
		fill<f, s>( v, e );
		v.clear( );
		same<0>( v, e );
		fill<f, s>( w, e );
		w.assign( 3, x );
		same<3>( w, r );
		fill<f, s>( z, e );
		z.zero( );
		int o[N] = { };
		same<s>( z, o );
	} );
	REACH( "end" );
}
template<std::size_t F, std::size_t S, std::size_t P, std::size_t K>
static void erased( int const ( &e )[N] ) {
	if constexpr( P + K <= S ) {
		int r[N] = { };
		for( std::size_t n = 0; n < P; ++n ) {
			r[n] = e[n];
		}
		for( std::size_t n = P + K; n < S; ++n ) {
			r[n - K] = e[n];
		}
		bv v;
		fill<F, S>( v, e );
		bv::iterator it;
		if( K == 1 and vs_bool( ) ) {
			it = v.erase( v.cbegin( ) + P );
		} else {
			it = v.erase( v.cbegin( ) + P, v.cbegin( ) + P + K );
		}
		same<S - K>( v, r );
		CHECK( it == v.begin( ) + P, "the element after the erased ones" );
	}
}
template<int Lo, int Hi>
static void bv_erase( ES, int x, int y ) {
	vs_total( );
	int e[N] = { a, b, c, d };
	shapes<Lo, Hi>( [&]( auto f, auto s ) {
		switch( x ) {
#define ER( p, k )                 \
	case p * 8 + k:                  \
		erased<f, s, p, k>( e );       \
		break;
		ER( 0, 0 )
		ER( 0, 1 ) ER( 0, 2 ) ER( 0, 3 ) ER( 0, 4 ) ER( 1, 0 ) ER( 1, 1 ) ER( 1, 2 )
		  ER( 1, 3 ) ER( 2, 0 ) ER( 2, 1 ) ER( 2, 2 ) ER( 3, 0 ) ER( 3, 1 ) ER( 4, 0 )
#undef ER
		}
	} );
	REACH( "end" );
}
PARTS( bv_erase )
DRIVER( bv_swap )( ES, int g, int h, int i, int j ) {
	vs_total( );
	int e[N] = { a, b, c, d };
	int r[N] = { g, h, i, j };
	shapes<0, 99>( [&]( auto f, auto s ) {
		bv v, w, y;
		fill<f, s>( v, e );
		fill<0, 4>( w, r );
		v.swap( w );
		same<4>( v, r );
		same<s>( w, e );
		fill<1, 2>( y, r );
		w.swap( y );
		same<2>( w, r );
		same<s>( y, e );
	} );
	REACH( "end" );
}
DRIVER( bv_copy )( ES ) {
	vs_total( );
	int e[N] = { a, b, c, d };
	shapes<0, 99>( [&]( auto f, auto s ) {
		bv v, z;
		fill<f, s>( v, e );
		bv w = v;
		same<s>( w, e );
		z = v;
		v.clear( );
		same<s>( z, e );
		same<s>( w, e );
	} );
	REACH( "end" );
}

// --- ring_adaptor: a queue of at most 3
static constexpr std::size_t R = 3;
using ring = daw::ring_adaptor<int[R]>;
template<std::size_t F, std::size_t S>
static void rfill( ring &q, int const ( &e )[R] ) {
	for( std::size_t n = 0; n < F; ++n ) {
		q.push_back( -1 );
		(void)q.pop_front( );
	}
	for( std::size_t n = 0; n < S; ++n ) {
		q.push_back( e[n] );
	}
}
template<std::size_t S>
static void rsame( ring &q, int const ( &e )[R] ) {
	ring const &c = q;
	CHECK( q.size( ) == S, "size" );
	CHECK( q.capacity( ) == R, "capacity" );
	CHECK( q.is_empty( ) == ( S == 0 ), "empty" );
	CHECK( q.is_full( ) == ( S == R ), "full" );
	CHECK( q.end( ) - q.begin( ) == S, "range" );
	CHECK( c.end( ) - c.begin( ) == S, "range" );
	auto it = q.begin( );
	auto cit = c.begin( );
	for( std::size_t n = 0; n < S; ++n ) {
		CHECK( q[n] == e[n] and c[n] == e[n], "element" );
		CHECK( *it == e[n] and *cit == e[n], "element" );
		++it;
		++cit;
	}
	CHECK( it == q.end( ) and cit == c.end( ), "end" );
}
template<typename F>
static void rshapes( F f ) {
	using std::integral_constant;
	switch( vs_int( ) ) {
#define SH( a, b )                                    \
	case a * 8 + b:                                     \
		f( integral_constant<std::size_t, a>{ },          \
		   integral_constant<std::size_t, b>{ } );        \
		break;
		SH( 0, 0 )
		SH( 0, 1 ) SH( 0, 2 ) SH( 0, 3 ) SH( 1, 0 ) SH( 1, 1 ) SH( 1, 2 ) SH( 1, 3 )
		SH( 2, 0 ) SH( 2, 1 ) SH( 2, 2 ) SH( 2, 3 ) SH( 5, 2 )
#undef SH
	}
}
DRIVER( ring_shape )( int a, int b, int c ) {
	vs_total( );
	int e[R] = { a, b, c };
	rshapes( [&]( auto f, auto s ) {
		ring q;
		rfill<f, s>( q, e );
		rsame<s>( q, e );
		q.clear( );
		rsame<0>( q, e );
	} );
	REACH( "end" );
}
DRIVER( ring_push )( int a, int b, int c, int x ) {
	vs_total( );
	int e[R] = { a, b, c };
	rshapes( [&]( auto f, auto s ) {
		if constexpr( s < R ) {
			int r[R] = { a, b, c };
			r[s] = x;
			ring q, u, z;
			rfill<f, s>( q, e );
			int &p = q.push_back( x );
			CHECK( &p == &q[s], "refers to the new element" );
			rsame<s + 1>( q, r );
			rfill<f, s>( u, e );
			int &p2 = u.push_back( int( x ) );
			CHECK( &p2 == &u[s], "refers to the new element" );
			rsame<s + 1>( u, r );
			rfill<f, s>( z, e );
			int &p3 = z.emplace_back( x );
			CHECK( &p3 == &z[s], "refers to the new element" );
			rsame<s + 1>( z, r );
		}
	} );
	REACH( "end" );
}
DRIVER( ring_pop )( int a, int b, int c ) {
	vs_total( );
	int e[R] = { a, b, c };
	int r[R] = { b, c, 0 };
	rshapes( [&]( auto f, auto s ) {
		if constexpr( s > 0 ) {
			ring q;
			rfill<f, s>( q, e );
			CHECK( q.pop_front( ) == a, "oldest first" );
			rsame<s - 1>( q, r );
		}
	} );
	REACH( "end" );
}

// --- keep_n: the smallest (or largest) n of everything inserted, in order
DRIVER( keep_smallest )( unsigned dflt, unsigned a, unsigned b, unsigned c ) {
	vs_total( );
	daw::keep_n<unsigned, 3> k( dflt );
	CHECK( k.size( ) == 3 and k.capacity( ) == 3, "size" );
	CHECK( k[0] == dflt and k[1] == dflt and k[2] == dflt, "filled" );
	k.insert( a );
	CHECK( k[0] == ( a < dflt ? a : dflt ), "smallest" );
	CHECK( k[1] == dflt and k[2] == dflt, "rest" );
	k.insert( unsigned( b ) );
	CHECK( k[0] <= k[1] and k[1] <= k[2], "ordered" );
	CHECK( k[0] <= a and k[0] <= b and k[0] <= dflt, "smallest" );
	CHECK( k[0] == a or k[0] == b or k[0] == dflt, "given" );
	CHECK( k[1] == a or k[1] == b or k[1] == dflt, "given" );
	CHECK( k[2] == dflt, "third" );
	k.insert( c );
	CHECK( k[0] <= k[1] and k[1] <= k[2], "ordered" );
	CHECK( k[0] <= a and k[0] <= b and k[0] <= c and k[0] <= dflt, "smallest" );
	CHECK( k[2] <= dflt, "nothing larger is kept" );
	CHECK( k.front( ) == k[0] and k.back( ) == k[2], "ends" );
	CHECK( *k.begin( ) == k[0] and k.end( ) - k.begin( ) == 3, "range" );
	CHECK( k.cbegin( ) == k.begin( ) and k.cend( ) == k.end( ), "range" );
	REACH( "end" );
}
template<daw::keep_n_order O, bool MV>
static void keep_sorted( unsigned x, unsigned y, unsigned z, unsigned v ) {
	constexpr bool asc = O == daw::keep_n_order::ascending;
	daw::keep_n<unsigned, 3, O> k( asc ? ~0U : 0U );
	// x, y, z arrive best first
	if( asc ) {
		ASSUME( x <= y and y <= z and z < ~0U );
	} else {
		ASSUME( x >= y and y >= z and z > 0U );
	}
	k.insert( x );
	k.insert( y );
	k.insert( z );
	CHECK( k[0] == x and k[1] == y and k[2] == z, "kept in order" );
	if constexpr( MV ) {
		k.insert( unsigned( v ) );
	} else {
		k.insert( v );
	}
	if( asc ? v < x : v > x ) {
		CHECK( k[0] == v and k[1] == x and k[2] == y, "new best" );
	} else if( asc ? v < y : v > y ) {
		CHECK( k[0] == x and k[1] == v and k[2] == y, "new second" );
	} else if( asc ? v < z : v > z ) {
		CHECK( k[0] == x and k[1] == y and k[2] == v, "new last" );
	} else {
		CHECK( k[0] == x and k[1] == y and k[2] == z, "not good enough" );
	}
	REACH( "end" );
}
DRIVER( keep_asc )( unsigned x, unsigned y, unsigned z, unsigned v ) {
	vs_total( );
	keep_sorted<daw::keep_n_order::ascending, false>( x, y, z, v );
}
DRIVER( keep_asc_move )( unsigned x, unsigned y, unsigned z, unsigned v ) {
	vs_total( );
	keep_sorted<daw::keep_n_order::ascending, true>( x, y, z, v );
}
DRIVER( keep_desc )( unsigned x, unsigned y, unsigned z, unsigned v ) {
	vs_total( );
	keep_sorted<daw::keep_n_order::descending, false>( x, y, z, v );
}
DRIVER( keep_desc_move )( unsigned x, unsigned y, unsigned z, unsigned v ) {
	vs_total( );
	keep_sorted<daw::keep_n_order::descending, true>( x, y, z, v );
}

// --- unique_array: owns what it allocated, once
using ua = daw::unique_array_t<int>;
DRIVER( ua_new )( std::size_t n ) {
	vs_total( ), vs_heap( ), vs_no_leak( ), vs_alloc_ok( );
	ASSUME( n < 1000 );
	ua a( n );
	ua const &c = a;
	CHECK( a.size( ) == n and a.capacity( ) == n, "size" );
	CHECK( a.empty( ) == ( n == 0 ), "empty" );
	CHECK( a.end( ) == a.begin( ) + n and c.end( ) == c.begin( ) + n, "range" );
	CHECK( a.cbegin( ) == a.begin( ) and a.cend( ) == a.end( ), "range" );
	if( n > 0 ) {
		CHECK( &a.front( ) == a.begin( ) and &a.back( ) == a.end( ) - 1, "ends" );
		CHECK( &c.front( ) == c.begin( ) and &c.back( ) == c.end( ) - 1, "ends" );
	}
	REACH( "end" );
}
DRIVER( ua_at )( std::size_t n, std::size_t pos ) {
	vs_throws( ), vs_heap( ), vs_no_leak( ), vs_alloc_ok( );
	ASSUME( n < 1000 );
	ua a( n );
	ua const &c = a;
	try {
		int &r = a.at( pos );
		CHECK( pos < n, "in range" );
		CHECK( &r == a.begin( ) + pos, "element" );
		CHECK( &a[pos] == &r and &c[pos] == &r, "element" );
		REACH( "accepted" );
	} catch( std::out_of_range const & ) {
		CHECK( pos >= n, "refused" );
		REACH( "refused" );
	}
	try {
		int const &r = c.at( pos );
		CHECK( pos < n, "in range" );
		CHECK( &r == c.begin( ) + pos, "element" );
		REACH( "accepted" );
	} catch( std::out_of_range const & ) {
		CHECK( pos >= n, "refused" );
		REACH( "refused" );
	}
}
DRIVER( ua_fill )( int x ) {
	vs_total( ), vs_heap( ), vs_no_leak( ), vs_alloc_ok( );
	ua a( 3, x );
	CHECK( a.size( ) == 3, "size" );
	CHECK( a[0] == x and a[1] == x and a[2] == x, "filled" );
	REACH( "end" );
}
DRIVER( ua_move )( std::size_t n ) {
	vs_total( ), vs_heap( ), vs_no_leak( ), vs_alloc_ok( );
	ASSUME( n < 1000 );
	ua a( n );
	int *p = a.begin( );
	ua b = std::move( a );
	CHECK( b.begin( ) == p and b.size( ) == n, "taken" );
	CHECK( a.empty( ) and a.size( ) == 0 and a.begin( ) == nullptr, "given up" );
	REACH( "end" );
}
DRIVER( ua_move_assign )( std::size_t n, std::size_t m ) {
	vs_total( ), vs_heap( ), vs_no_leak( ), vs_alloc_ok( );
	ASSUME( n < 1000 and m < 1000 );
	ua a( n ), b( m );
	int *p = a.begin( );
	b = std::move( a );
	CHECK( b.begin( ) == p and b.size( ) == n, "taken" );
	CHECK( a.empty( ) and a.size( ) == 0 and a.begin( ) == nullptr, "given up" );
	ua &s = b;
	b = std::move( s );
	CHECK( b.begin( ) == p and b.size( ) == n, "kept" );
	b = std::move( a );
	CHECK( b.empty( ) and b.size( ) == 0 and b.begin( ) == nullptr, "emptied" );
	REACH( "end" );
}
DRIVER( ua_default )( ) {
	vs_total( ), vs_heap( ), vs_no_leak( ), vs_alloc_ok( );
	ua a;
	CHECK( a.empty( ) and a.size( ) == 0 and a.begin( ) == a.end( ), "empty" );
	REACH( "end" );
}

// --- fixed arrays
DRIVER( arrays )( int a, int b, int c, int x ) {
	vs_total( );
	daw::bounded_array_t<int, 3> v{ { a, b, c } };
	auto const &cv = v;
	CHECK( v.size( ) == 3 and not v.empty( ), "size" );
	CHECK( v[0] == a and v[1] == b and v[2] == c, "elements" );
	CHECK( cv[0] == a and cv[1] == b and cv[2] == c, "elements" );
	CHECK( v.front( ) == a and v.back( ) == c, "ends" );
	CHECK( cv.front( ) == a and cv.back( ) == c, "ends" );
	CHECK( v.end( ) == v.begin( ) + 3 and cv.end( ) == cv.begin( ) + 3, "range" );
	CHECK( v.cend( ) == v.cbegin( ) + 3 and v.data( ) == &v[0], "range" );
	auto w = v;
	CHECK( w == v and not( w != v ), "equal" );
	w[2] = x;
	CHECK( ( w == v ) == ( x == c ), "equal iff all are" );
	CHECK( ( w != v ) == ( x != c ), "equal iff all are" );
	w.fill( x );
	CHECK( w[0] == x and w[1] == x and w[2] == x, "filled" );
	daw::simple_array<int, 3> s{ a, b, c };
	auto const &cs = s;
	CHECK( s.size( ) == 3, "size" );
	CHECK( s[0] == a and s[1] == b and s[2] == c, "elements" );
	CHECK( cs[0] == a and cs[1] == b and cs[2] == c, "elements" );
	CHECK( s.end( ) == s.begin( ) + 3 and s.data( ) == s.begin( ), "range" );
	CHECK( cs.begin( ) == cs.data( ) and cs.end( ) == s.end( ), "range" );
	CHECK( cs.data( ) == &s[0] and s.date_end( ) == s.end( ), "range" );
	auto m = daw::make_array( a, b, c );
	CHECK( m.size( ) == 3 and m[0] == a and m[1] == b and m[2] == c, "make_array" );
	auto m2 = daw::make_array<long>( a, b );
	CHECK( m2.size( ) == 2 and m2[0] == a and m2[1] == b, "make_array" );
	int raw[3] = { a, b, c };
	auto t = daw::to_array( raw );
	CHECK( t.size( ) == 3 and t[0] == a and t[1] == b and t[2] == c, "to_array" );
	REACH( "end" );
}
