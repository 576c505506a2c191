// ---- one character --------------------------------------------------------
DRIVER( find_c )( C const *p, size_t n, size_t k, C c ) {
	SV_IN( p, n );
	ASSUME( k <= n );
	vs_total( );
	sv const v( p, n );
	auto r = v.find( c, k );
	CHECK( r == npos or ( r < n and r >= k and p[r] == c ), "a position at or after pos holding the character" );
}
DRIVER( find_c_first )( C const *p, size_t n, size_t k, C c, size_t j ) {
	SV_IN( p, n );
	ASSUME( k <= n );
	SV_ANY( p, n, j );
	ASSUME( p[j] == c and j >= k );
	vs_total( );
	auto r = sv( p, n ).find( c, k );
	CHECK( r <= j, "the first one" );
}
DRIVER( rfind_c )( C const *p, size_t n, size_t k, C c ) {
	SV_IN( p, n );
	vs_total( );
	auto r = sv( p, n ).rfind( c, k );
	CHECK( r == npos or ( r < n and r <= k and p[r] == c ), "a position at or before pos holding the character" );
}
DRIVER( rfind_c_last )( C const *p, size_t n, size_t k, C c, size_t j ) {
	SV_IN( p, n );
	SV_ANY( p, n, j );
	ASSUME( p[j] == c and j <= k );
	vs_total( );
	auto r = sv( p, n ).rfind( c, k );
	CHECK( r != npos and r >= j, "the last one" );
}
DRIVER( rfind_c_dflt )( C const *p, size_t n, C c, size_t j ) {
	SV_IN( p, n );
	SV_ANY( p, n, j );
	ASSUME( p[j] == c );
	vs_total( );
	auto r = sv( p, n ).rfind( c );
	CHECK( r < n and r >= j and p[r] == c, "the last one" );
}
DRIVER( find_c_dflt )( C const *p, size_t n, C c, size_t j ) {
	SV_IN( p, n );
	SV_ANY( p, n, j );
	ASSUME( p[j] == c );
	vs_total( );
	sv const v( p, n );
	auto r = v.find( c );
	CHECK( r <= j and p[r] == c, "the first one" );
	CHECK( v.contains( c ), "contains agrees" );
}
DRIVER( flno_c )( C const *p, size_t n, size_t k, C c ) {
	SV_IN( p, n );
	vs_total( );
	auto r = sv( p, n ).find_last_not_of( c, k );
	CHECK( r == npos or ( r < n and r <= k and p[r] != c ), "a position at or before pos not holding the character" );
}
DRIVER( flno_c_last )( C const *p, size_t n, size_t k, C c, size_t j ) {
	SV_IN( p, n );
	SV_ANY( p, n, j );
	ASSUME( p[j] != c and j <= k );
	vs_total( );
	auto r = sv( p, n ).find_last_not_of( c, k );
	CHECK( r != npos and r >= j, "the last one" );
}
DRIVER( ffno_c )( C const *p, size_t n, size_t k, C c ) {
	SV_IN( p, n );
	vs_total( );
	auto r = sv( p, n ).find_first_not_of( c, k );
	CHECK( r == npos or ( r < n and r >= k and p[r] != c ), "a position at or after pos not holding the character" );
}
DRIVER( ffno_c_first )( C const *p, size_t n, size_t k, C c, size_t j ) {
	SV_IN( p, n );
	SV_ANY( p, n, j );
	ASSUME( p[j] != c and j >= k );
	vs_total( );
	auto r = sv( p, n ).find_first_not_of( c, k );
	CHECK( r <= j, "the first one" );
}
DRIVER( xno_c_dflt )( C const *p, size_t n, C c, size_t j ) {
	SV_IN( p, n );
	SV_ANY( p, n, j );
	ASSUME( p[j] != c );
	vs_total( );
	sv const v( p, n );
	auto r = v.find_first_not_of( c );
	CHECK( r <= j and p[r] != c, "the first one" );
	auto s = v.find_last_not_of( c );
	CHECK( s < n and s >= j and p[s] != c, "the last one" );
}
// ---- substrings -----------------------------------------------------------
#define NEEDLE( q, m )    \
	ASSUME( q != nullptr ); \
	VS_LEN( m );            \
	vs_region( q, m * sizeof( C ), false )
DRIVER( find_s )( C const *p, size_t n, C const *q, size_t m, size_t j, size_t k ) {
	SV_IN( p, n );
	NEEDLE( q, m );
	SV_ANY( q, m, j );
	vs_total( );
	auto r = sv( p, n ).find( sv( q, m ), k );
	if( r != npos ) {
		CHECK( r >= k and r <= n and n - r >= m, "a whole occurrence fits" );
		CHECK( p[r + j] == q[j], "every character matches" );
	}
}
DRIVER( find_s_empty )( C const *p, size_t n, C const *q, size_t k ) {
	SV_IN( p, n );
	ASSUME( q != nullptr );
	vs_region( q, 0, false );
	vs_total( );
	sv const v( p, n );
	CHECK( v.find( sv( q, size_t{ 0 } ), k ) == ( k <= n ? k : npos ), "the empty string is everywhere" );
	CHECK( v.rfind( sv( q, size_t{ 0 } ), k ) == ( k <= n ? k : n ), "the empty string is everywhere" );
	CHECK( v.contains( sv( q, size_t{ 0 } ) ), "the empty string is everywhere" );
	CHECK( v.find_first_match( sv( q, size_t{ 0 } ), k ) == ( k <= n ? k : npos ), "the empty string is everywhere" );
}
DRIVER( find_ptr_count )( C const *p, size_t n, C const *q, size_t m, size_t j, size_t k ) {
	SV_IN( p, n );
	ASSUME( k <= n );
	NEEDLE( q, m );
	SV_ANY( q, m, j );
	vs_total( );
	sv const v( p, n );
	auto r = v.find( q, k, m );
	if( r != npos ) {
		CHECK( r >= k and r <= n and n - r >= m, "a whole occurrence fits" );
		CHECK( p[r + j] == q[j], "every character matches" );
	}
}
DRIVER( find_first_match_s )( C const *p, size_t n, C const *q, size_t m, size_t j, size_t k ) {
	SV_IN( p, n );
	NEEDLE( q, m );
	SV_ANY( q, m, j );
	vs_total( );
	auto r = sv( p, n ).find_first_match( sv( q, m ), k );
	if( r != npos ) {
		CHECK( r >= k and r <= n and n - r >= m, "a whole occurrence fits" );
		CHECK( p[r + j] == q[j], "every character matches" );
	}
}
DRIVER( search_s )( C const *p, size_t n, C const *q, size_t m, size_t j, size_t k ) {
	SV_IN( p, n );
	NEEDLE( q, m );
	SV_ANY( q, m, j );
	vs_total( );
	auto r = sv( p, n ).search( sv( q, m ), k );
	if( r != npos ) {
		CHECK( r >= k and r <= n and n - r >= m, "a whole occurrence fits" );
		CHECK( p[r + j] == q[j], "every character matches" );
	}
}
DRIVER( rfind_s )( C const *p, size_t n, C const *q, size_t m, size_t j, size_t k ) {
	SV_IN( p, n );
	NEEDLE( q, m );
	SV_ANY( q, m, j );
	vs_total( );
	auto r = sv( p, n ).rfind( sv( q, m ), k );
	if( r != npos ) {
		CHECK( r <= k and r <= n and n - r >= m, "a whole occurrence fits" );
		CHECK( p[r + j] == q[j], "every character matches" );
	}
}
DRIVER( rfind_ptr_count )( C const *p, size_t n, C const *q, size_t m, size_t j, size_t k ) {
	SV_IN( p, n );
	NEEDLE( q, m );
	SV_ANY( q, m, j );
	vs_total( );
	auto r = sv( p, n ).rfind( q, k, m );
	if( r != npos ) {
		CHECK( r <= k and r <= n and n - r >= m, "a whole occurrence fits" );
		CHECK( p[r + j] == q[j], "every character matches" );
	}
}
// one and two character needles: the first / last occurrence is the one found
DRIVER( find_s1_first )( C const *p, size_t n, C const *q, size_t j, size_t k ) {
	SV_IN( p, n );
	ASSUME( q != nullptr );
	vs_region( q, sizeof( C ), false );
	SV_ANY( p, n, j );
	ASSUME( j >= k and p[j] == q[0] );
	vs_total( );
	auto r = sv( p, n ).find( sv( q, size_t{ 1 } ), k );
	CHECK( r <= j, "the first one" );
}
DRIVER( rfind_s1_last )( C const *p, size_t n, C const *q, size_t j, size_t k ) {
	SV_IN( p, n );
	ASSUME( q != nullptr );
	vs_region( q, sizeof( C ), false );
	SV_ANY( p, n, j );
	ASSUME( j <= k and p[j] == q[0] );
	vs_total( );
	auto r = sv( p, n ).rfind( sv( q, size_t{ 1 } ), k );
	CHECK( r != npos and r >= j, "the last one" );
}
DRIVER( search_s1_first )( C const *p, size_t n, C const *q, size_t j, size_t k ) {
	SV_IN( p, n );
	ASSUME( q != nullptr );
	vs_region( q, sizeof( C ), false );
	SV_ANY( p, n, j );
	ASSUME( j >= k and p[j] == q[0] );
	vs_total( );
	auto r = sv( p, n ).search( sv( q, size_t{ 1 } ), k );
	CHECK( r <= j, "the first one" );
}
// ---- sets of characters ---------------------------------------------------
DRIVER( ffo_s_in )( C const *p, size_t n, C const *q, size_t m, size_t k ) {
	SV_IN( p, n );
	NEEDLE( q, m );
	vs_total( );
	auto r = sv( p, n ).find_first_of( sv( q, m ), k );
	CHECK( r == npos or ( r >= k and r < n ), "a position at or after pos" );
}
DRIVER( flo_s_in )( C const *p, size_t n, C const *q, size_t m ) {
	SV_IN( p, n );
	NEEDLE( q, m );
	vs_total( );
	auto r = sv( p, n ).find_last_of( sv( q, m ) );
	CHECK( r == npos or r < n, "a position of the view" );
}
DRIVER( ffno_s )( C const *p, size_t n, C const *q, size_t m, size_t j, size_t k ) {
	SV_IN( p, n );
	NEEDLE( q, m );
	SV_ANY( q, m, j );
	vs_total( );
	auto r = sv( p, n ).find_first_not_of( sv( q, m ), k );
	if( r != npos ) {
		CHECK( r >= k and r < n, "a position at or after pos" );
		CHECK( p[r] != q[j], "not one of the set" );
	}
}
DRIVER( flno_s )( C const *p, size_t n, C const *q, size_t m, size_t j, size_t k ) {
	SV_IN( p, n );
	NEEDLE( q, m );
	SV_ANY( q, m, j );
	vs_total( );
	auto r = sv( p, n ).find_last_not_of( sv( q, m ), k );
	if( r != npos ) {
		CHECK( r <= k and r < n, "a position at or before pos" );
		CHECK( p[r] != q[j], "not one of the set" );
	}
}
DRIVER( xno_empty_set )( C const *p, size_t n, C const *q, size_t k ) {
	SV_IN( p, n );
	ASSUME( q != nullptr );
	vs_region( q, 0, false );
	vs_total( );
	sv const v( p, n );
	sv const s( q, size_t{ 0 } );
	CHECK( v.find_first_not_of( s, k ) == ( k < n ? k : npos ), "everything is outside the empty set" );
	CHECK( v.find_last_not_of( s, k ) == ( n == 0 ? npos : k < n ? k : n - 1 ), "everything is outside the empty set" );
	CHECK( v.find_first_of( s, k ) == npos, "nothing is in the empty set" );
	CHECK( v.find_last_of( s ) == npos, "nothing is in the empty set" );
}
// ---- predicates: any pure predicate is a table of booleans ----------------
#define PRED( t )                                                  \
	ASSUME( t != nullptr );                                          \
	vs_region( t, size_t{ 1 } << ( 8 * sizeof( C ) ), false );       \
	auto pr = [t]( C x ) { return t[static_cast<std::make_unsigned_t<C>>( x )] == 1; }
DRIVER( ffo_if )( C const *p, size_t n, size_t k, unsigned char const *t ) {
	SV_IN( p, n );
	PRED( t );
	vs_total( );
	auto r = sv( p, n ).find_first_of_if( pr, k );
	CHECK( r == npos or ( r >= k and r < n and pr( p[r] ) ), "a position at or after pos that satisfies it" );
}
DRIVER( ffo_if_first )( C const *p, size_t n, size_t k, unsigned char const *t, size_t j ) {
	SV_IN( p, n );
	PRED( t );
	SV_ANY( p, n, j );
	ASSUME( j >= k and pr( p[j] ) );
	vs_total( );
	auto r = sv( p, n ).find_first_of_if( pr, k );
	CHECK( r <= j, "the first one" );
}
DRIVER( ffno_if )( C const *p, size_t n, size_t k, unsigned char const *t ) {
	SV_IN( p, n );
	PRED( t );
	vs_total( );
	auto r = sv( p, n ).find_first_not_of_if( pr, k );
	CHECK( r == npos or ( r >= k and r < n and not pr( p[r] ) ), "a position at or after pos that does not satisfy it" );
}
DRIVER( ffno_if_first )( C const *p, size_t n, size_t k, unsigned char const *t, size_t j ) {
	SV_IN( p, n );
	PRED( t );
	SV_ANY( p, n, j );
	ASSUME( j >= k and not pr( p[j] ) );
	vs_total( );
	auto r = sv( p, n ).find_first_not_of_if( pr, k );
	CHECK( r <= j, "the first one" );
}
DRIVER( flo_if )( C const *p, size_t n, unsigned char const *t ) {
	SV_IN( p, n );
	PRED( t );
	vs_total( );
	auto r = sv( p, n ).find_last_of_if( pr );
	CHECK( r == npos or ( r < n and pr( p[r] ) ), "a position that satisfies it" );
}
DRIVER( flo_if_last )( C const *p, size_t n, unsigned char const *t, size_t j ) {
	SV_IN( p, n );
	PRED( t );
	SV_ANY( p, n, j );
	ASSUME( pr( p[j] ) );
	vs_total( );
	auto r = sv( p, n ).find_last_of_if( pr );
	CHECK( r < n and r >= j, "the last one" );
}
DRIVER( flno_if )( C const *p, size_t n, size_t k, unsigned char const *t ) {
	SV_IN( p, n );
	PRED( t );
	vs_total( );
	auto r = sv( p, n ).find_last_not_of_if( pr, k );
	CHECK( r == npos or ( r <= k and r < n and not pr( p[r] ) ), "a position at or before pos that does not satisfy it" );
}
DRIVER( flno_if_last )( C const *p, size_t n, size_t k, unsigned char const *t, size_t j ) {
	SV_IN( p, n );
	PRED( t );
	SV_ANY( p, n, j );
	ASSUME( j <= k and not pr( p[j] ) );
	vs_total( );
	auto r = sv( p, n ).find_last_not_of_if( pr, k );
	CHECK( r != npos and r >= j, "the last one" );
}
DRIVER( flno_if_dflt )( C const *p, size_t n, unsigned char const *t, size_t j ) {
	SV_IN( p, n );
	PRED( t );
	SV_ANY( p, n, j );
	ASSUME( not pr( p[j] ) );
	vs_total( );
	auto r = sv( p, n ).find_last_not_of_if( pr );
	CHECK( r < n and r >= j and not pr( p[r] ), "the last one" );
}
