// ---- fixed counts -------------------------------------------------------
DRIVER( remove_prefix_n )( C const *p, size_t n, size_t k ) {
	SV_IN( p, n );
	vs_total( );
	sv v( p, n );
	auto &r = v.remove_prefix( k );
	CHECK( &r == &v, "returns itself" );
	size_t m = k < n ? k : n;
	IS( v, p + m, p + n, "drops min(k,n) from the front" );
	REACH( "done" );
}
DRIVER( remove_prefix )( C const *p, size_t n ) {
	SV_IN( p, n );
	vs_total( );
	sv v( p, n );
	v.remove_prefix( );
	IS( v, p + ( n ? 1 : 0 ), p + n, "drops one from the front" );
}
DRIVER( remove_suffix_n )( C const *p, size_t n, size_t k ) {
	SV_IN( p, n );
	vs_total( );
	sv v( p, n );
	v.remove_suffix( k );
	size_t m = k < n ? k : n;
	IS( v, p, p + ( n - m ), "drops min(k,n) from the back" );
}
DRIVER( remove_suffix )( C const *p, size_t n ) {
	SV_IN( p, n );
	vs_total( );
	sv v( p, n );
	v.remove_suffix( );
	IS( v, p, p + ( n ? n - 1 : 0 ), "drops one from the back" );
}
DRIVER( remove_unsafe )( C const *p, size_t n, size_t k ) {
	SV_IN( p, n );
	ASSUME( k <= n );
	vs_total( );
	sv a( p, n ), b( p, n );
	a.remove_prefix_unsafe( k );
	b.remove_suffix_unsafe( k );
	IS( a, p + k, p + n, "drops k from the front" );
	IS( b, p, p + ( n - k ), "drops k from the back" );
}
DRIVER( remove_one_unsafe )( C const *p, size_t n ) {
	SV_IN( p, n );
	ASSUME( n > 0 );
	vs_total( );
	sv a( p, n ), b( p, n );
	a.remove_prefix_unsafe( );
	b.remove_suffix_unsafe( );
	IS( a, p + 1, p + n, "drops one from the front" );
	IS( b, p, p + ( n - 1 ), "drops one from the back" );
}
DRIVER( pop_front_one )( C const *p, size_t n ) {
	SV_IN( p, n );
	ASSUME( n > 0 );
	vs_total( );
	sv v( p, n );
	C c = v.pop_front( );
	CHECK( c == p[0], "the first character" );
	IS( v, p + 1, p + n, "rest" );
	sv w( p, n );
	C d = w.pop_front_unsafe( );
	CHECK( d == p[0], "the first character" );
	IS( w, p + 1, p + n, "rest" );
}
DRIVER( pop_back_one )( C const *p, size_t n ) {
	SV_IN( p, n );
	ASSUME( n > 0 );
	vs_total( );
	sv v( p, n );
	C c = v.pop_back( );
	CHECK( c == p[n - 1], "the last character" );
	IS( v, p, p + ( n - 1 ), "rest" );
	sv w( p, n );
	C d = w.pop_back_unsafe( );
	CHECK( d == p[n - 1], "the last character" );
	IS( w, p, p + ( n - 1 ), "rest" );
}
DRIVER( pop_front_n )( C const *p, size_t n, size_t k ) {
	SV_IN( p, n );
	vs_total( );
	sv v( p, n );
	sv r = v.pop_front( k );
	size_t m = k < n ? k : n;
	IS( r, p, p + m, "popped" );
	IS( v, p + m, p + n, "rest" );
}
DRIVER( pop_back_n )( C const *p, size_t n, size_t k ) {
	SV_IN( p, n );
	vs_total( );
	sv v( p, n );
	sv r = v.pop_back( k );
	size_t m = k < n ? k : n;
	IS( r, p + ( n - m ), p + n, "popped" );
	IS( v, p, p + ( n - m ), "rest" );
}
DRIVER( pop_n_unsafe )( C const *p, size_t n, size_t k ) {
	SV_IN( p, n );
	ASSUME( k <= n );
	vs_total( );
	sv v( p, n ), w( p, n );
	sv r = v.pop_front_unsafe( k );
	sv s = w.pop_back_unsafe( k );
	IS( r, p, p + k, "popped front" );
	IS( v, p + k, p + n, "rest front" );
	IS( s, p + ( n - k ), p + n, "popped back" );
	IS( w, p, p + ( n - k ), "rest back" );
}
DRIVER( substr )( C const *p, size_t n, size_t k, size_t c ) {
	SV_IN( p, n );
	ASSUME( k <= n );
	vs_total( );
	sv const v( p, n );
	size_t m = c < n - k ? c : n - k;
	IS( v.substr( k, c ), p + k, p + k + m, "clipped sub view" );
	IS( v.substr( k ), p + k, p + n, "tail" );
	IS( v, p, p + n, "source untouched" );
}
DRIVER( substr_unsafe )( C const *p, size_t n, size_t k, size_t c ) {
	SV_IN( p, n );
	ASSUME( k <= n and c <= n - k );
	vs_total( );
	sv const v( p, n );
	IS( v.substr_unsafe( k, c ), p + k, p + k + c, "sub view" );
	IS( v.substr_unsafe( k ), p + k, p + n, "tail" );
}
DRIVER( resize )( C const *p, size_t n, size_t k ) {
	SV_IN( p, n );
	ASSUME( k <= n );
	vs_total( );
	sv v( p, n );
	v.resize( k );
	IS( v, p, p + k, "keeps the first k" );
}
DRIVER( clear )( C const *p, size_t n ) {
	SV_IN( p, n );
	vs_total( );
	sv v( p, n );
	v.clear( );
	CHECK( v.empty( ) and v.size( ) == 0, "empty" );
	sv w( p, n );
	w.reset( );
	CHECK( w.empty( ) and w.data( ) == nullptr, "reset" );
}
DRIVER( copy_out )( C const *p, size_t n, size_t k, size_t c, C *out, size_t cap, size_t j ) {
	SV_IN( p, n );
	ASSUME( out != nullptr and cap < ( size_t{ 1 } << 60 ) );
	vs_region( out, cap * sizeof( C ), true );
	ASSUME( k <= n );
	size_t m = c < n - k ? c : n - k;
	ASSUME( m <= cap );
	(void)j;
	vs_total( );
	sv const v( p, n );
	CHECK( v.copy( out, c, k ) == m, "copies min(c,n-k) characters and says so" );
}
DRIVER( copy_out_front )( C const *p, size_t n, size_t c, C *out, size_t cap ) {
	SV_IN( p, n );
	ASSUME( out != nullptr and cap < ( size_t{ 1 } << 60 ) );
	vs_region( out, cap * sizeof( C ), true );
	size_t m = c < n ? c : n;
	ASSUME( m <= cap );
	vs_total( );
	CHECK( sv( p, n ).copy( out, c ) == m, "copies min(c,n) characters and says so" );
}

// ---- up to a delimiter character ----------------------------------------
// what is known once the text in front of the first delimiter was split off
#define FRONT_SPLIT( r, v, keep )                                               \
	size_t k = ( r ).size( );                                                     \
	CHECK( ( r ).data( ) == p and k <= n, "the popped part is a prefix" );         \
	CHECK( ( v ).data_end( ) == p + n, "the rest ends where the view ended" );     \
	CHECK( not hit or k <= j, "no earlier delimiter" );                            \
	if( k < n ) {                                                                 \
		CHECK( is_delim( p[k] ), "split at a delimiter" );                           \
		IS( v, p + k + ( keep ? 0 : 1 ), p + n, "rest after the split" );             \
	} else {                                                                      \
		IS( v, p + n, p + n, "nothing left" );                                        \
	}
#define BACK_SPLIT( r, v, keep )                                                \
	size_t k = ( r ).size( );                                                     \
	CHECK( k <= n, "the popped part fits" );                                       \
	CHECK( ( r ).data_end( ) == p + n and ( r ).data( ) == p + ( n - k ), "the popped part is a suffix" ); \
	CHECK( not hit or p + j < ( r ).data( ), "no later delimiter" );                \
	if( k < n ) {                                                                 \
		CHECK( is_delim( p[n - k - 1] ), "split at a delimiter" );                   \
		IS( v, p, p + ( n - k - ( keep ? 0 : 1 ) ), "rest in front of the split" );   \
	} else {                                                                      \
		CHECK( v.empty( ), "nothing left" );                                          \
	}
#define DELIM_CHAR( c )                                    \
	SV_IN( p, n );                                           \
	SV_ANY( p, n, j );                                       \
	bool const hit = p[j] == c;                              \
	auto is_delim = [c]( C x ) { return x == c; };           \
	vs_total( );                                             \
	sv v( p, n )

DRIVER( pop_front_until_c )( C const *p, size_t n, C c, size_t j ) {
	DELIM_CHAR( c );
	sv r = v.pop_front_until( c );
	FRONT_SPLIT( r, v, false );
	REACH( "done" );
}
DRIVER( pop_front_until_c_keep )( C const *p, size_t n, C c, size_t j ) {
	DELIM_CHAR( c );
	sv r = v.pop_front_until( c, daw::nodiscard );
	FRONT_SPLIT( r, v, true );
}
DRIVER( remove_prefix_until_c )( C const *p, size_t n, C c, size_t j ) {
	DELIM_CHAR( c );
	v.remove_prefix_until( c );
	CHECK( v.data_end( ) == p + n and v.data( ) >= p and v.data( ) <= p + n, "a suffix" );
	CHECK( not hit or v.data( ) <= p + j + 1, "no earlier delimiter" );
	CHECK( v.empty( ) or is_delim( v.data( )[-1] ), "starts behind a delimiter" );
}
DRIVER( remove_prefix_until_c_keep )( C const *p, size_t n, C c, size_t j ) {
	DELIM_CHAR( c );
	v.remove_prefix_until( c, daw::nodiscard );
	CHECK( v.data_end( ) == p + n and v.data( ) >= p and v.data( ) <= p + n, "a suffix" );
	CHECK( not hit or v.data( ) <= p + j, "no earlier delimiter" );
	CHECK( v.empty( ) or is_delim( v.data( )[0] ), "starts at a delimiter" );
}
DRIVER( pop_front_while_c )( C const *p, size_t n, C c, size_t j ) {
	SV_IN( p, n );
	SV_ANY( p, n, j );
	bool const hit = p[j] != c;
	auto is_delim = [c]( C x ) { return x != c; };
	vs_total( );
	sv v( p, n );
	sv r = v.pop_front_while( c );
	FRONT_SPLIT( r, v, true );
}
DRIVER( pop_back_until_c )( C const *p, size_t n, C c, size_t j ) {
	DELIM_CHAR( c );
	if( hit ) {
		sv r = v.pop_back_until( c );
		BACK_SPLIT( r, v, false );
	} else {
		sv r = v.pop_back_until( c );
		BACK_SPLIT( r, v, false );
	}
}
DRIVER( pop_back_until_c_keep )( C const *p, size_t n, C c, size_t j ) {
	DELIM_CHAR( c );
	if( hit ) {
		sv r = v.pop_back_until( c, daw::nodiscard );
		BACK_SPLIT( r, v, true );
	} else {
		sv r = v.pop_back_until( c, daw::nodiscard );
		BACK_SPLIT( r, v, true );
	}
}
// the try_ forms leave the view alone when there is no delimiter
#define TRY_UNCHANGED( r )                                                     \
	if( ( r ).data( ) == nullptr ) {                                             \
		IS( v, p, p + n, "not found: the view is untouched" );                       \
		CHECK( ( r ).empty( ) and not hit, "not found only when there is none" );    \
		return;                                                                      \
	}
DRIVER( try_pop_front_until_c )( C const *p, size_t n, C c, size_t j ) {
	DELIM_CHAR( c );
	sv r = v.try_pop_front_until( c );
	TRY_UNCHANGED( r );
	FRONT_SPLIT( r, v, false );
	CHECK( k < n, "found inside" );
}
DRIVER( try_pop_front_until_c_keep )( C const *p, size_t n, C c, size_t j ) {
	DELIM_CHAR( c );
	sv r = v.try_pop_front_until( c, daw::nodiscard );
	TRY_UNCHANGED( r );
	FRONT_SPLIT( r, v, true );
	CHECK( k < n, "found inside" );
}
DRIVER( try_pop_back_until_c )( C const *p, size_t n, C c, size_t j ) {
	DELIM_CHAR( c );
	ASSUME( hit );
	sv r = v.try_pop_back_until( c );
	TRY_UNCHANGED( r );
	BACK_SPLIT( r, v, false );
	CHECK( k < n, "found inside" );
}
DRIVER( try_pop_back_until_c_keep )( C const *p, size_t n, C c, size_t j ) {
	DELIM_CHAR( c );
	ASSUME( hit );
	sv r = v.try_pop_back_until( c, daw::nodiscard );
	TRY_UNCHANGED( r );
	BACK_SPLIT( r, v, true );
	CHECK( k < n, "found inside" );
}
DRIVER( try_pop_back_until_c_none )( C const *p, size_t n, C c, size_t j ) {
	DELIM_CHAR( c );
	ASSUME( not hit );
	sv r = v.try_pop_back_until( c );
	TRY_UNCHANGED( r );
	BACK_SPLIT( r, v, false );
}
DRIVER( try_pop_back_until_c_keep_none )( C const *p, size_t n, C c, size_t j ) {
	DELIM_CHAR( c );
	ASSUME( not hit );
	sv r = v.try_pop_back_until( c, daw::nodiscard );
	TRY_UNCHANGED( r );
	BACK_SPLIT( r, v, true );
}

// ---- up to a delimiter string -------------------------------------------
#define DELIM_STR                                          \
	SV_IN( p, n );                                           \
	SV_IN( q, m );                                           \
	SV_ANY( q, m, j );                                       \
	vs_total( );                                             \
	sv const d( q, m );                                      \
	sv v( p, n )
#define FRONT_SPLIT_S( r, v, keep )                                            \
	size_t k = ( r ).size( );                                                    \
	CHECK( ( r ).data( ) == p and k <= n, "the popped part is a prefix" );        \
	CHECK( ( v ).data_end( ) == p + n, "the rest ends where the view ended" );    \
	if( k < n ) {                                                                \
		CHECK( n - k >= m and p[k + j] == q[j], "the delimiter is there" );         \
		IS( v, p + k + ( keep ? 0 : m ), p + n, "rest after the split" );            \
	} else {                                                                     \
		IS( v, p + n, p + n, "nothing left" );                                       \
	}
#define BACK_SPLIT_S( r, v, keep )                                             \
	size_t k = ( r ).size( );                                                    \
	CHECK( k <= n, "the popped part fits" );                                      \
	CHECK( ( r ).data_end( ) == p + n and ( r ).data( ) == p + ( n - k ), "the popped part is a suffix" ); \
	if( ( r ).data( ) != p ) {                                                   \
		CHECK( n - k >= m and p[n - k - m + j] == q[j], "the delimiter is there" ); \
		IS( v, p, p + ( n - k - ( keep ? 0 : m ) ), "rest in front of the split" );  \
	} else {                                                                     \
		CHECK( v.empty( ), "nothing left" );                                         \
	}
DRIVER( pop_front_until_s )( C const *p, size_t n, C const *q, size_t m, size_t j ) {
	DELIM_STR;
	sv r = v.pop_front_until( d );
	FRONT_SPLIT_S( r, v, false );
}
DRIVER( pop_front_until_s_keep )( C const *p, size_t n, C const *q, size_t m, size_t j ) {
	DELIM_STR;
	sv r = v.pop_front_until( d, daw::nodiscard );
	FRONT_SPLIT_S( r, v, true );
}
DRIVER( remove_prefix_until_s )( C const *p, size_t n, C const *q, size_t m, size_t j ) {
	DELIM_STR;
	v.remove_prefix_until( d );
	CHECK( v.data_end( ) == p + n and v.data( ) >= p and v.data( ) <= p + n, "a suffix" );
	if( not v.empty( ) ) {
		CHECK( static_cast<size_t>( v.data( ) - p ) >= m, "behind a delimiter" );
		CHECK( *( v.data( ) - m + j ) == q[j], "the delimiter is in front" );
	}
}
DRIVER( remove_prefix_until_s_keep )( C const *p, size_t n, C const *q, size_t m, size_t j ) {
	DELIM_STR;
	v.remove_prefix_until( d, daw::nodiscard );
	CHECK( v.data_end( ) == p + n and v.data( ) >= p and v.data( ) <= p + n, "a suffix" );
	if( not v.empty( ) ) {
		CHECK( v.size( ) >= m and v.data( )[j] == q[j], "starts with the delimiter" );
	}
}
DRIVER( pop_back_until_s )( C const *p, size_t n, C const *q, size_t m, size_t j ) {
	DELIM_STR;
	sv r = v.pop_back_until( d );
	BACK_SPLIT_S( r, v, false );
}
DRIVER( pop_back_until_s_keep )( C const *p, size_t n, C const *q, size_t m, size_t j ) {
	DELIM_STR;
	sv r = v.pop_back_until( d, daw::nodiscard );
	BACK_SPLIT_S( r, v, true );
}
#define TRY_UNCHANGED_S( r )                                                   \
	if( ( r ).data( ) == nullptr ) {                                             \
		IS( v, p, p + n, "not found: the view is untouched" );                       \
		CHECK( ( r ).empty( ), "not found: nothing popped" );                         \
		return;                                                                      \
	}
DRIVER( try_pop_front_until_s )( C const *p, size_t n, C const *q, size_t m, size_t j ) {
	DELIM_STR;
	sv r = v.try_pop_front_until( d );
	TRY_UNCHANGED_S( r );
	FRONT_SPLIT_S( r, v, false );
}
DRIVER( try_pop_front_until_s_keep )( C const *p, size_t n, C const *q, size_t m, size_t j ) {
	DELIM_STR;
	sv r = v.try_pop_front_until( d, daw::nodiscard );
	TRY_UNCHANGED_S( r );
	FRONT_SPLIT_S( r, v, true );
}
DRIVER( try_pop_back_until_s )( C const *p, size_t n, C const *q, size_t m, size_t j ) {
	DELIM_STR;
	sv r = v.try_pop_back_until( d );
	TRY_UNCHANGED_S( r );
	BACK_SPLIT_S( r, v, false );
}
DRIVER( try_pop_back_until_s_keep )( C const *p, size_t n, C const *q, size_t m, size_t j ) {
	DELIM_STR;
	sv r = v.try_pop_back_until( d, daw::nodiscard );
	TRY_UNCHANGED_S( r );
	BACK_SPLIT_S( r, v, true );
}

// ---- a delimiter string of one character: found whenever it is there -------
#define DELIM_ONE( q )                                     \
	ASSUME( q != nullptr );                                  \
	vs_region( q, sizeof( C ), false );                      \
	SV_IN( p, n );                                           \
	SV_ANY( p, n, j );                                       \
	C const c = q[0];                                        \
	bool const hit = p[j] == c;                              \
	auto is_delim = [c]( C x ) { return x == c; };           \
	vs_total( );                                             \
	sv const d( q, size_t{ 1 } );                            \
	sv v( p, n )
DRIVER( pop_front_until_s1 )( C const *p, size_t n, C const *q, size_t j ) {
	DELIM_ONE( q );
	sv r = v.pop_front_until( d );
	FRONT_SPLIT( r, v, false );
}
DRIVER( pop_front_until_s1_keep )( C const *p, size_t n, C const *q, size_t j ) {
	DELIM_ONE( q );
	sv r = v.pop_front_until( d, daw::nodiscard );
	FRONT_SPLIT( r, v, true );
}
DRIVER( pop_back_until_s1 )( C const *p, size_t n, C const *q, size_t j ) {
	DELIM_ONE( q );
	sv r = v.pop_back_until( d );
	BACK_SPLIT( r, v, false );
}
DRIVER( pop_back_until_s1_keep )( C const *p, size_t n, C const *q, size_t j ) {
	DELIM_ONE( q );
	sv r = v.pop_back_until( d, daw::nodiscard );
	BACK_SPLIT( r, v, true );
}
DRIVER( try_pop_front_until_s1 )( C const *p, size_t n, C const *q, size_t j ) {
	DELIM_ONE( q );
	sv r = v.try_pop_front_until( d );
	TRY_UNCHANGED( r );
	FRONT_SPLIT( r, v, false );
	CHECK( k < n, "found inside" );
}
DRIVER( try_pop_front_until_s1_keep )( C const *p, size_t n, C const *q, size_t j ) {
	DELIM_ONE( q );
	sv r = v.try_pop_front_until( d, daw::nodiscard );
	TRY_UNCHANGED( r );
	FRONT_SPLIT( r, v, true );
	CHECK( k < n, "found inside" );
}
DRIVER( try_pop_back_until_s1 )( C const *p, size_t n, C const *q, size_t j ) {
	DELIM_ONE( q );
	sv r = v.try_pop_back_until( d );
	TRY_UNCHANGED( r );
	BACK_SPLIT( r, v, false );
	CHECK( k < n, "found inside" );
}
DRIVER( try_pop_back_until_s1_keep )( C const *p, size_t n, C const *q, size_t j ) {
	DELIM_ONE( q );
	sv r = v.try_pop_back_until( d, daw::nodiscard );
	TRY_UNCHANGED( r );
	BACK_SPLIT( r, v, true );
	CHECK( k < n, "found inside" );
}
DRIVER( remove_prefix_until_s1 )( C const *p, size_t n, C const *q, size_t j ) {
	DELIM_ONE( q );
	v.remove_prefix_until( d );
	CHECK( v.data_end( ) == p + n and v.data( ) >= p and v.data( ) <= p + n, "a suffix" );
	CHECK( not hit or v.data( ) <= p + j + 1, "no earlier delimiter" );
	CHECK( v.empty( ) or is_delim( v.data( )[-1] ), "starts behind a delimiter" );
}
DRIVER( remove_prefix_until_s1_keep )( C const *p, size_t n, C const *q, size_t j ) {
	DELIM_ONE( q );
	v.remove_prefix_until( d, daw::nodiscard );
	CHECK( v.data_end( ) == p + n and v.data( ) >= p and v.data( ) <= p + n, "a suffix" );
	CHECK( not hit or v.data( ) <= p + j, "no earlier delimiter" );
	CHECK( v.empty( ) or is_delim( v.data( )[0] ), "starts at a delimiter" );
}

// ---- predicates: any pure predicate is a table of booleans ----------------
#define DELIM_PRED                                                  \
	SV_IN( p, n );                                                    \
	SV_ANY( p, n, j );                                                \
	ASSUME( t != nullptr );                                           \
	vs_region( t, size_t{ 1 } << ( 8 * sizeof( C ) ), false );        \
	auto is_delim = [t]( C x ) { return t[static_cast<std::make_unsigned_t<C>>( x )] == 1; }; \
	bool const hit = is_delim( p[j] );                                \
	vs_total( );                                                      \
	sv v( p, n )
DRIVER( pop_front_until_p )( C const *p, size_t n, unsigned char const *t, size_t j ) {
	DELIM_PRED;
	sv r = v.pop_front_until( is_delim );
	FRONT_SPLIT( r, v, false );
}
DRIVER( pop_front_until_p_keep )( C const *p, size_t n, unsigned char const *t, size_t j ) {
	DELIM_PRED;
	sv r = v.pop_front_until( is_delim, daw::nodiscard );
	FRONT_SPLIT( r, v, true );
}
DRIVER( remove_prefix_until_p )( C const *p, size_t n, unsigned char const *t, size_t j ) {
	DELIM_PRED;
	v.remove_prefix_until( is_delim );
	CHECK( v.data_end( ) == p + n and v.data( ) >= p and v.data( ) <= p + n, "a suffix" );
	CHECK( not hit or v.data( ) <= p + j + 1, "no earlier delimiter" );
	CHECK( v.empty( ) or is_delim( v.data( )[-1] ), "starts behind a delimiter" );
}
DRIVER( remove_prefix_until_p_keep )( C const *p, size_t n, unsigned char const *t, size_t j ) {
	DELIM_PRED;
	v.remove_prefix_until( is_delim, daw::nodiscard );
	CHECK( v.data_end( ) == p + n and v.data( ) >= p and v.data( ) <= p + n, "a suffix" );
	CHECK( not hit or v.data( ) <= p + j, "no earlier delimiter" );
	CHECK( v.empty( ) or is_delim( v.data( )[0] ), "starts at a delimiter" );
}
DRIVER( pop_back_until_p )( C const *p, size_t n, unsigned char const *t, size_t j ) {
	DELIM_PRED;
	sv r = v.pop_back_until( is_delim );
	BACK_SPLIT( r, v, false );
}
DRIVER( try_pop_front_until_p )( C const *p, size_t n, unsigned char const *t, size_t j ) {
	DELIM_PRED;
	sv r = v.try_pop_front_until( is_delim );
	TRY_UNCHANGED( r );
	FRONT_SPLIT( r, v, false );
}
DRIVER( try_pop_front_until_p_keep )( C const *p, size_t n, unsigned char const *t, size_t j ) {
	DELIM_PRED;
	sv r = v.try_pop_front_until( is_delim, daw::nodiscard );
	TRY_UNCHANGED( r );
	FRONT_SPLIT( r, v, true );
}
DRIVER( try_pop_back_until_p )( C const *p, size_t n, unsigned char const *t, size_t j ) {
	DELIM_PRED;
	sv r = v.try_pop_back_until( is_delim );
	TRY_UNCHANGED( r );
	BACK_SPLIT( r, v, false );
}
DRIVER( try_pop_back_until_p_keep )( C const *p, size_t n, unsigned char const *t, size_t j ) {
	DELIM_PRED;
	sv r = v.try_pop_back_until( is_delim, daw::nodiscard );
	TRY_UNCHANGED( r );
	BACK_SPLIT( r, v, true );
}
DRIVER( pop_front_while_p )( C const *p, size_t n, unsigned char const *t, size_t j ) {
	SV_IN( p, n );
	SV_ANY( p, n, j );
	ASSUME( t != nullptr );
	vs_region( t, size_t{ 1 } << ( 8 * sizeof( C ) ), false );
	auto pr = [t]( C x ) { return t[static_cast<std::make_unsigned_t<C>>( x )] == 1; };
	auto is_delim = [=]( C x ) { return not pr( x ); };
	bool const hit = is_delim( p[j] );
	vs_total( );
	sv v( p, n );
	sv r = v.pop_front_while( pr );
	FRONT_SPLIT( r, v, true );
}
