// P08: spans and views refer to exactly the documented part of their range
// vs: min=40
#include "vs.h"
#include <array>
#include <daw/daw_contiguous_view.h>
#include <daw/daw_span.h>
#include <daw/daw_view.h>
#include <stdexcept>
#include <string>

using E = char;
#include "P08_views.inc"
template<typename T>
struct Make<daw::span<T>> {
	using V = daw::span<T>;
	static V make( T *p, std::size_t n ) {
		return V( p, n );
	}
	static E const *first( V const &v ) {
		return v.data( );
	}
	static E const *last( V const &v ) {
		return v.data( ) + v.size( );
	}
	static E const *raw( E const *p ) {
		return p;
	}
};
template<typename T>
struct Make<daw::contiguous_view<T>> {
	using V = daw::contiguous_view<T>;
	static V make( T *p, std::size_t n ) {
		return V( p, n );
	}
	static E const *first( V const &v ) {
		return v.data( );
	}
	static E const *last( V const &v ) {
		return v.data_end( );
	}
	template<typename I>
	static E const *raw( I const &i ) {
		return i.base( );
	}
};
template<typename T>
struct Make<daw::view<T *>> {
	using V = daw::view<T *>;
	static V make( T *p, std::size_t n ) {
		return V( p, p + n );
	}
	static E const *first( V const &v ) {
		return v.data( );
	}
	static E const *last( V const &v ) {
		return v.end( );
	}
	static E const *raw( E const *p ) {
		return p;
	}
};
#define ALL( op )                                       \
	DRIVER( span_##op )( E *the_data ) {                              \
		v_##op<daw::span<E>, E>( the_data );                     \
	}                                                     \
	DRIVER( cspan_##op )( E *the_data ) {                             \
		v_##op<daw::span<E const>, E const>( the_data );         \
	}                                                     \
	DRIVER( cv_##op )( E *the_data ) {                                \
		v_##op<daw::contiguous_view<E>, E>( the_data );          \
	}                                                     \
	DRIVER( ccv_##op )( E *the_data ) {                               \
		v_##op<daw::contiguous_view<E const>, E const>( the_data ); \
	}                                                     \
	DRIVER( view_##op )( E *the_data ) {                              \
		v_##op<daw::view<E *>, E>( the_data );                   \
	}
ALL( whole )
ALL( element )
ALL( at )
ALL( remove_prefix )
ALL( remove_suffix )
ALL( pop )
#define SPANS( op )                                     \
	DRIVER( span_##op )( E *the_data ) {                              \
		v_##op<daw::span<E>, E>( the_data );                     \
	}                                                     \
	DRIVER( cspan_##op )( E *the_data ) {                             \
		v_##op<daw::span<E const>, E const>( the_data );         \
	}                                                     \
	DRIVER( view_##op )( E *the_data ) {                              \
		v_##op<daw::view<E *>, E>( the_data );                   \
	}
SPANS( pop_front_n )
SPANS( pop_back_n )

// ---- span only
template<typename T>
static inline void s_subspan( E *the_data, bool konst ) {
	using V = daw::span<T>;
	vs_throws( );
	std::size_t const n = vs_size( );
	ASSUME( n < ( std::size_t{ 1 } << 40 ) );
	T *p = the_data;
	ASSUME( p != nullptr );
	V v( p, n );
	V const &c = v;
	std::size_t const at = vs_size( ), k = vs_size( );
	std::size_t const m = at <= n and n - at < k ? n - at : k;
	try {
		if( konst ) {
			auto s = c.subspan( at, k );
			CHECK( at <= n, "throws when out of range" );
			CHECK( s.data( ) == p + at and s.size( ) == m, "sub span" );
		} else {
			auto s = v.subspan( at, k );
			CHECK( at <= n, "throws when out of range" );
			CHECK( s.data( ) == p + at and s.size( ) == m, "sub span" );
			auto r = v.subspan( at );
			CHECK( r.data( ) == p + at and r.size( ) == n - at, "the rest" );
			auto w = v.subspan( );
			CHECK( w.data( ) == p and w.size( ) == n, "everything" );
		}
		REACH( "in range" );
	} catch( std::out_of_range const & ) {
		CHECK( at > n, "throws only when out of range" );
		REACH( "out of range" );
	} catch( ... ) {
		NEVER( "throws out_of_range" );
	}
	CHECK( v.data( ) == p and v.size( ) == n, "unchanged" );
}
DRIVER( span_subspan )( E *the_data ) {
	s_subspan<E>( the_data, false );
}
DRIVER( cspan_subspan )( E *the_data ) {
	s_subspan<E const>( the_data, false );
}
DRIVER( span_subspan_const )( E *the_data ) {
	s_subspan<E>( the_data, true );
}
DRIVER( cspan_subspan_const )( E *the_data ) {
	s_subspan<E const>( the_data, true );
}
template<typename T>
static inline void s_pop_back_too_many( E *the_data ) {
	using V = daw::span<T>;
	vs_throws( );
	std::size_t const n = vs_size( );
	ASSUME( n < ( std::size_t{ 1 } << 40 ) );
	T *p = the_data;
	ASSUME( p != nullptr );
	V v( p, n );
	std::size_t const k = vs_size( );
	ASSUME( k > n );
	try {
		(void)v.pop_back( k );
		NEVER( "cannot pop more than there is" );
	} catch( std::out_of_range const & ) {
		REACH( "thrown" );
	}
	CHECK( v.data( ) == p and v.size( ) == n, "unchanged" );
}
DRIVER( span_pop_back_too_many )( E *the_data ) {
	s_pop_back_too_many<E>( the_data );
}
DRIVER( cspan_pop_back_too_many )( E *the_data ) {
	s_pop_back_too_many<E const>( the_data );
}
template<typename V, typename T>
static inline void s_pop_value( E *the_data, bool front ) {
	vs_total( );
	vs_throws( );
	std::size_t const n = vs_size( );
	ASSUME( n < ( std::size_t{ 1 } << 40 ) );
	T *p = the_data;
	ASSUME( p != nullptr );
	vs_region( p, n * sizeof( T ), false );
	V v = Make<V>::make( p, n );
	E const old = static_cast<E>( vs_int( ) );
	E x = old;
	bool const r = v.pop( x );
	CHECK( r == ( n > 0 ), "says whether there was one" );
	if( r ) {
		CHECK( x == ( front ? p[0] : p[n - 1] ), "the popped element" );
		CHECK( v.size( ) == n - 1 and v.data( ) == p + ( front ? 1 : 0 ), "the rest" );
		REACH( "popped" );
	} else {
		CHECK( x == old and v.size( ) == 0, "unchanged" );
		REACH( "empty" );
	}
}
DRIVER( span_pop_value )( E *the_data ) {
	s_pop_value<daw::span<E>, E>( the_data, false );
}
DRIVER( cspan_pop_value )( E *the_data ) {
	s_pop_value<daw::span<E const>, E const>( the_data, false );
}
DRIVER( view_pop_value )( E *the_data ) {
	s_pop_value<daw::view<E *>, E>( the_data, true );
}
DRIVER( span_construct )( E *the_data ) {
	vs_total( );
	E *p = the_data;
	std::size_t const n = vs_size( ), m = vs_size( );
	ASSUME( n < ( std::size_t{ 1 } << 40 ) and m < ( std::size_t{ 1 } << 40 ) );
	ASSUME( p != nullptr );
	daw::span<E> a( p + m, static_cast<E const *>( p + n ) );
	CHECK( a.data( ) == p + m and a.size( ) == ( n > m ? n - m : 0 ), "from two pointers" );
	daw::span<E const> b( p + m, p + n );
	CHECK( b.data( ) == p + m and b.size( ) == ( n > m ? n - m : 0 ), "from two pointers" );
	daw::span<E> c( static_cast<E *>( nullptr ), n );
	CHECK( c.data( ) == nullptr and c.size( ) == 0 and c.empty( ), "null has no elements" );
	daw::span<E const> d( static_cast<E const *>( nullptr ), n );
	CHECK( d.data( ) == nullptr and d.size( ) == 0 and d.empty( ), "null has no elements" );
	daw::span<E> e{ };
	CHECK( e.data( ) == nullptr and e.size( ) == 0 and e.empty( ), "empty" );
	daw::span<E const> f( a );
	CHECK( f.data( ) == a.data( ) and f.size( ) == a.size( ), "to const" );
	daw::span<E> const &ca = a;
	auto g = ca.copy( );
	CHECK( g.data( ) == a.data( ) and g.size( ) == a.size( ), "copy" );
	daw::span<E> h( a );
	CHECK( h.data( ) == a.data( ) and h.size( ) == a.size( ), "copy" );
	h = c;
	CHECK( h.data( ) == nullptr and h.size( ) == 0, "assigned" );
	h = std::move( a );
	CHECK( h.data( ) == p + m and h.size( ) == b.size( ), "moved" );
	CHECK( h.size_bytes( ) == h.size( ) * sizeof( E ) and b.size_bytes( ) == b.size( ) * sizeof( E ), "bytes" );
	REACH( "end" );
}
DRIVER( span_of_containers )( E *the_data ) {
	vs_total( );
	E arr[7] = { };
	std::array<E, 5> ar{ };
	std::array<E, 5> const &car = ar;
	E const( &carr )[7] = arr;
	daw::span<E> a( arr );
	CHECK( a.data( ) == arr and a.size( ) == 7, "array" );
	daw::span<E const> b( carr );
	CHECK( b.data( ) == arr and b.size( ) == 7, "const array" );
	daw::span<E> c( ar );
	CHECK( c.data( ) == ar.data( ) and c.size( ) == 5, "std::array" );
	daw::span<E const> d( car );
	CHECK( d.data( ) == ar.data( ) and d.size( ) == 5, "const std::array" );
	REACH( "end" );
}

// ---- contiguous_view only
template<typename T>
static inline void c_clipped( E *the_data ) {
	using V = daw::contiguous_view<T>;
	with<V, T>( the_data, []( V &v, T *p, std::size_t n ) {
		std::size_t const k = vs_size( );
		std::size_t const m = k < n ? k : n;
		if( vs_bool( ) ) {
			v.remove_prefix( k );
			REST( v, p + m, p + n );
		} else {
			v.remove_suffix( k );
			REST( v, p, p + n - m );
		}
	} );
}
DRIVER( cv_clipped )( E *the_data ) {
	c_clipped<E>( the_data );
}
DRIVER( ccv_clipped )( E *the_data ) {
	c_clipped<E const>( the_data );
}
template<typename T>
static inline void c_unclipped( E *the_data ) {
	using V = daw::contiguous_view<T>;
	with<V, T>( the_data, []( V &v, T *p, std::size_t n ) {
		std::size_t const k = vs_size( );
		ASSUME( k <= n );
		if( vs_bool( ) ) {
			v.remove_prefix( k, daw::dont_clip_to_bounds );
			REST( v, p + k, p + n );
		} else {
			v.remove_suffix( k, daw::dont_clip_to_bounds );
			REST( v, p, p + n - k );
		}
	} );
}
DRIVER( cv_unclipped )( E *the_data ) {
	c_unclipped<E>( the_data );
}
DRIVER( ccv_unclipped )( E *the_data ) {
	c_unclipped<E const>( the_data );
}
template<typename T>
static inline void c_subspan( E *the_data ) {
	using V = daw::contiguous_view<T>;
	with<V, T>( the_data, []( V &v, T *p, std::size_t n ) {
		std::size_t const at = vs_size( ), k = vs_size( );
		std::size_t const o = at < n ? at : n;
		std::size_t const m = n - o < k ? n - o : k;
		V const &c = v;
		auto s = c.subspan( at, k );
		REST( s, p + o, p + o + m );
		auto r = v.subspan( at );
		REST( r, p + o, p + n );
		REST( v, p, p + n );
	} );
}
DRIVER( cv_subspan )( E *the_data ) {
	c_subspan<E>( the_data );
}
DRIVER( ccv_subspan )( E *the_data ) {
	c_subspan<E const>( the_data );
}
template<typename T>
static inline void c_extend( E *the_data ) {
	using V = daw::contiguous_view<T>;
	with<V, T>( the_data, []( V &v, T *p, std::size_t n ) {
		std::size_t const a = vs_size( ), b = vs_size( );
		ASSUME( a <= b and b <= n and a >= 1 and b < n );
		V w( p + a, p + b );
		if( vs_bool( ) ) {
			w.add_prefix( );
			REST( w, p + a - 1, p + b );
			w.add_suffix( );
			REST( w, p + a - 1, p + b + 1 );
		} else {
			std::size_t const k = vs_size( ), j = vs_size( );
			ASSUME( k <= a and j <= n - b );
			w.add_prefix( k );
			REST( w, p + a - k, p + b );
			w.add_suffix( j );
			REST( w, p + a - k, p + b + j );
		}
	} );
}
DRIVER( cv_extend )( E *the_data ) {
	c_extend<E>( the_data );
}
DRIVER( ccv_extend )( E *the_data ) {
	c_extend<E const>( the_data );
}
// find and friends: the first position whose element has (not) the value
#define FINDS( T, body )                                          \
	using V = daw::contiguous_view<T>;                              \
	with<V, T>( the_data, []( V &v, T *p, std::size_t n ) {                   \
		E const x = static_cast<E>( vs_int( ) );                                      \
		/* the watched element stands for every one */                \
		std::size_t const j = vs_size( );                             \
		bool const in = j < n;                                        \
		if( in ) {                                                    \
			vs_watch( p + j, sizeof( E ) );                           \
		}                                                             \
		bool const is = in and p[j] == x;                             \
		body                                                          \
	} )
#define FIRST( k )                                                            \
	CHECK( ( k ) <= n, "in range" );                                            \
	CHECK( not is or ( k ) <= j, "no earlier element matches" );                \
	CHECK( ( k ) != j or not in or is, "it matches" )
#define FIRST_NOT( k )                                                        \
	CHECK( ( k ) <= n, "in range" );                                            \
	CHECK( not in or is or ( k ) <= j, "all earlier elements match" );          \
	CHECK( ( k ) != j or not in or not is, "it does not match" )
template<typename T>
static inline void c_find( E *the_data ) {
	FINDS( T, {
		V const &c = v;
		if( vs_bool( ) ) {
			auto const k = static_cast<std::size_t>( v.find( x ).base( ) - p );
			FIRST( k );
			REST( v, p, p + n );
		} else {
			auto const k = static_cast<std::size_t>( c.find( x ).base( ) - p );
			FIRST( k );
			REST( v, p, p + n );
		}
	} );
}
template<typename T>
static inline void c_find_not( E *the_data ) {
	FINDS( T, {
		V const &c = v;
		if( vs_bool( ) ) {
			auto const k = static_cast<std::size_t>( v.find_first_not_of( x ).base( ) - p );
			FIRST_NOT( k );
			REST( v, p, p + n );
		} else {
			auto const k = static_cast<std::size_t>( c.find_first_not_of( x ).base( ) - p );
			FIRST_NOT( k );
			REST( v, p, p + n );
		}
	} );
}
template<typename T>
static inline void c_remove_until( E *the_data ) {
	FINDS( T, {
		if( vs_bool( ) ) {
			auto &r = v.remove_prefix_until( x );
			CHECK( &r == &v, "returns itself" );
			auto const k = static_cast<std::size_t>( v.data( ) - p );
			FIRST( k );
			REST( v, p + k, p + n );
		} else {
			auto &r = v.remove_prefix_until( x, daw::discard );
			CHECK( &r == &v, "returns itself" );
			auto const k = static_cast<std::size_t>( v.data( ) - p );
			CHECK( k <= n and ( k >= 1 or n == 0 ), "in range" );
			CHECK( not is or k <= j + 1, "no earlier element matches" );
			CHECK( k != j + 1 or not in or is or k == n, "discards the match" );
			REST( v, p + k, p + n );
		}
	} );
}
template<typename T>
static inline void c_remove_while( E *the_data ) {
	FINDS( T, {
		if( vs_bool( ) ) {
			auto &r = v.remove_prefix_while( x );
			CHECK( &r == &v, "returns itself" );
			auto const k = static_cast<std::size_t>( v.data( ) - p );
			FIRST_NOT( k );
			REST( v, p + k, p + n );
		} else {
			auto &r = v.remove_prefix_while( x, daw::discard );
			CHECK( &r == &v, "returns itself" );
			auto const k = static_cast<std::size_t>( v.data( ) - p );
			CHECK( k <= n and ( k >= 1 or n == 0 ), "in range" );
			CHECK( not in or is or k <= j + 1, "all earlier elements match" );
			CHECK( k != j + 1 or not in or not is or k == n, "discards the one that does not match" );
			REST( v, p + k, p + n );
		}
	} );
}
template<typename T>
static inline void c_pop_until( E *the_data ) {
	FINDS( T, {
		if( vs_bool( ) ) {
			auto r = v.pop_front_until( x );
			std::size_t const k = r.size( );
			FIRST( k );
			REST( r, p, p + k );
			REST( v, p + k, p + n );
		} else {
			auto r = v.pop_front_until( x, daw::discard );
			std::size_t const k = r.size( );
			FIRST( k );
			REST( r, p, p + k );
			REST( v, p + ( k < n ? k + 1 : n ), p + n );
		}
	} );
}
template<typename T>
static inline void c_pop_while( E *the_data ) {
	FINDS( T, {
		if( vs_bool( ) ) {
			auto r = v.pop_front_while( x );
			std::size_t const k = r.size( );
			FIRST_NOT( k );
			REST( r, p, p + k );
			REST( v, p + k, p + n );
		} else {
			auto r = v.pop_front_while( x, daw::discard );
			std::size_t const k = r.size( );
			FIRST_NOT( k );
			REST( r, p, p + k );
			REST( v, p + ( k < n ? k + 1 : n ), p + n );
		}
	} );
}
#define CVS( op )                \
	DRIVER( cv_##op )( E *the_data ) {         \
		c_##op<E>( the_data );              \
	}                              \
	DRIVER( ccv_##op )( E *the_data ) {        \
		c_##op<E const>( the_data );        \
	}
CVS( find )
CVS( find_not )
CVS( remove_until )
CVS( remove_while )
CVS( pop_until )
CVS( pop_while )

// ---- comparison: elements whose comparisons leave a trace
namespace {
	bool differs;
	struct B {
		unsigned char v;
		friend bool operator==( B const &l, B const &r ) {
			bool const res = l.v == r.v;
			differs = not res;
			return res;
		}
		friend bool operator<( B const &l, B const &r ) {
			return l.v < r.v;
		}
	};
} // namespace
// the six operators agree with the lexicographical order (sizes up to two)
static inline B any_b( ) {
	return B{ static_cast<unsigned char>( vs_int( ) ) };
}
template<std::size_t N, std::size_t M>
static inline void c_order( ) {
	vs_total( );
	B const a[2] = { any_b( ), any_b( ) };
	B const b[2] = { any_b( ), any_b( ) };
	daw::contiguous_view<B const> x( a, N ), y( b, M );
	bool eq = N == M, lt = false;
	std::size_t i = 0;
	for( ; i < N and i < M and a[i].v == b[i].v; ++i ) {}
	if( i < N and i < M ) {
		eq = false;
		lt = a[i].v < b[i].v;
	} else {
		lt = i == N and i < M;
	}
	switch( vs_int( ) ) {
	case 0:
		CHECK( ( x == y ) == eq, "==" );
		break;
	case 1:
		CHECK( ( x != y ) == not eq, "!=" );
		break;
	case 2:
		CHECK( ( x < y ) == lt, "<" );
		break;
	case 3:
		CHECK( ( x <= y ) == ( lt or eq ), "<=" );
		break;
	case 4:
		CHECK( ( x > y ) == not( lt or eq ), ">" );
		break;
	default:
		CHECK( ( x >= y ) == not lt, ">=" );
		break;
	}
	REACH( "end" );
}
#define ORDER( N, M )                               \
	DRIVER( cv_order_##N##M )( ) {              \
		c_order<N, M>( );                             \
	}
ORDER( 0, 1 )
ORDER( 1, 0 )
ORDER( 1, 1 )
ORDER( 1, 2 )
ORDER( 2, 1 )
ORDER( 2, 2 )
DRIVER( cv_equal )( B const *a, B const *b ) {
	vs_total( );
	std::size_t const n = vs_size( ), m = vs_size( );
	ASSUME( n < ( std::size_t{ 1 } << 40 ) and m < ( std::size_t{ 1 } << 40 ) );
	ASSUME( a != nullptr and b != nullptr );
	vs_region( a, n, false );
	vs_region( b, m, false );
	std::size_t const j = vs_size( );
	ASSUME( j < n );
	vs_watch( a + j, 1 );
	if( j < m ) {
		vs_watch( b + j, 1 );
	}
	daw::contiguous_view<B const> x( a, n ), y( b, m );
	differs = false;
	bool const r = x == y;
	if( r ) {
		CHECK( n == m, "equal views have the same size" );
		CHECK( j >= m or a[j].v == b[j].v, "equal views have the same elements" );
		REACH( "equal" );
	} else {
		CHECK( n != m or differs, "different views differ" );
		REACH( "different" );
	}
}
DRIVER( cv_equal_empty )( B const *a, B const *b ) {
	vs_total( );
	ASSUME( a != nullptr and b != nullptr );
	vs_region( a, 0, false );
	vs_region( b, 0, false );
	daw::contiguous_view<B const> x( a, std::size_t{ 0 } ), y( b, std::size_t{ 0 } );
	CHECK( x == y and not( x != y ) and not( x < y ) and x <= y and x >= y and not( x > y ), "empty views are equal" );
	daw::contiguous_view<B> z( const_cast<B *>( a ), std::size_t{ 0 } ), w( const_cast<B *>( b ), std::size_t{ 0 } );
	CHECK( z == w and not( z != w ) and not( z < w ) and z <= w and z >= w and not( z > w ), "empty views are equal" );
}

