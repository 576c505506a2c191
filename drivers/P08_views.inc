// bodies shared by span, contiguous_view and view; T is the element type, V the
// view type over n elements at p
template<typename V>
struct Make;

template<typename V, typename T, typename F>
static inline void with( E *the_data, F f ) {
	vs_total( );
	std::size_t const n = vs_size( );
	ASSUME( n < ( std::size_t{ 1 } << 40 ) );
	T *p = const_cast<T *>( the_data );
	ASSUME( p != nullptr );
	vs_region( p, n * sizeof( T ), false );
	V v = Make<V>::make( p, n );
	f( v, p, n );
	REACH( "end" );
}
#define REST( v, b, e )                                                        \
	CHECK( ( v ).size( ) == static_cast<std::size_t>( ( e ) - ( b ) ), "size" ); \
	CHECK( Make<V>::first( v ) == ( b ), "start" );                              \
	CHECK( Make<V>::last( v ) == ( e ), "end" );                                 \
	CHECK( ( v ).empty( ) == ( ( b ) == ( e ) ), "empty" )

template<typename V, typename T>
static inline void v_whole( E *the_data ) {
	with<V, T>( the_data, []( V &v, T *p, std::size_t n ) {
		REST( v, p, p + n );
		V const &c = v;
		REST( c, p, p + n );
		CHECK( Make<V>::raw( v.begin( ) ) == p and Make<V>::raw( v.end( ) ) == p + n, "iterators" );
		CHECK( Make<V>::raw( c.begin( ) ) == p and Make<V>::raw( c.end( ) ) == p + n, "const iterators" );
		CHECK( Make<V>::raw( v.cbegin( ) ) == p and Make<V>::raw( v.cend( ) ) == p + n, "const iterators" );
		CHECK( Make<V>::raw( v.rbegin( ).base( ) ) == p + n and Make<V>::raw( v.rend( ).base( ) ) == p, "reverse iterators" );
		CHECK( Make<V>::raw( c.rbegin( ).base( ) ) == p + n and Make<V>::raw( c.rend( ).base( ) ) == p, "const reverse iterators" );
		CHECK( Make<V>::raw( v.crbegin( ).base( ) ) == p + n and Make<V>::raw( v.crend( ).base( ) ) == p, "const reverse iterators" );
	} );
}
template<typename V, typename T>
static inline void v_element( E *the_data ) {
	with<V, T>( the_data, []( V &v, T *p, std::size_t n ) {
		V const &c = v;
		std::size_t const i = vs_size( );
		ASSUME( i < n );
		CHECK( &v[i] == p + i and &c[i] == p + i, "operator[]" );
		CHECK( &v.at( i ) == p + i and &c.at( i ) == p + i, "at" );
		if constexpr( requires { v.front( ); } ) {
			CHECK( &v.front( ) == p and &c.front( ) == p, "front" );
			CHECK( &v.back( ) == p + n - 1 and &c.back( ) == p + n - 1, "back" );
		}
	} );
}
template<typename V, typename T>
static inline void v_at( E *the_data ) {
	vs_throws( );
	std::size_t const n = vs_size( );
	ASSUME( n < ( std::size_t{ 1 } << 40 ) );
	T *p = const_cast<T *>( the_data );
	ASSUME( p != nullptr );
	vs_region( p, n * sizeof( T ), false );
	V v = Make<V>::make( p, n );
	V const &c = v;
	std::size_t const i = vs_size( );
	try {
		if( vs_bool( ) ) {
			auto &r = v.at( i );
			CHECK( &r == p + i, "at" );
		} else {
			auto &r = c.at( i );
			CHECK( &r == p + i, "at" );
		}
		CHECK( i < n, "throws when out of range" );
		REACH( "in range" );
	} catch( std::out_of_range const & ) {
		CHECK( i >= n, "throws only when out of range" );
		REACH( "out of range" );
	} catch( ... ) {
		NEVER( "throws out_of_range" );
	}
	REST( v, p, p + n );
}
template<typename V, typename T>
static inline void v_remove_prefix( E *the_data ) {
	with<V, T>( the_data, []( V &v, T *p, std::size_t n ) {
		std::size_t k = 1;
		ASSUME( n >= 1 );
		if( vs_bool( ) ) {
			v.remove_prefix( );
		} else {
			k = vs_size( );
			ASSUME( k <= n );
			v.remove_prefix( k );
		}
		REST( v, p + k, p + n );
	} );
}
template<typename V, typename T>
static inline void v_remove_suffix( E *the_data ) {
	with<V, T>( the_data, []( V &v, T *p, std::size_t n ) {
		std::size_t k = 1;
		ASSUME( n >= 1 );
		if( vs_bool( ) ) {
			v.remove_suffix( );
		} else {
			k = vs_size( );
			ASSUME( k <= n );
			v.remove_suffix( k );
		}
		REST( v, p, p + n - k );
	} );
}
template<typename V, typename T>
static inline void v_pop( E *the_data ) {
	with<V, T>( the_data, []( V &v, T *p, std::size_t n ) {
		ASSUME( n >= 1 );
		if( vs_bool( ) ) {
			auto const r = v.pop_front( );
			CHECK( r == p[0], "the first element" );
			REST( v, p + 1, p + n );
		} else {
			auto const r = v.pop_back( );
			CHECK( r == p[n - 1], "the last element" );
			REST( v, p, p + n - 1 );
		}
	} );
}
template<typename V, typename T>
static inline void v_pop_front_n( E *the_data ) {
	with<V, T>( the_data, []( V &v, T *p, std::size_t n ) {
		std::size_t const k = vs_size( );
		std::size_t const m = k < n ? k : n;
		auto r = v.pop_front( k );
		REST( r, p, p + m );
		REST( v, p + m, p + n );
	} );
}
template<typename V, typename T>
static inline void v_pop_back_n( E *the_data ) {
	with<V, T>( the_data, []( V &v, T *p, std::size_t n ) {
		std::size_t const k = vs_size( );
		ASSUME( k <= n );
		auto r = v.pop_back( k );
		REST( r, p + n - k, p + n );
		REST( v, p, p + n - k );
	} );
}
