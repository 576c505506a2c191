#define TWO( )                 \
	SV_IN( p, n );               \
	SV_IN( q, m );               \
	sv const a( p, n ), b( q, m )
using UC = std::make_unsigned_t<C>;
#define ALL_THE_SAME( j )      \
	ASSUME( j < n and j < m );   \
	vs_watch( p + j, sizeof( C ) ); \
	vs_watch( q + j, sizeof( C ) )
DRIVER( equal_means_same )( C const *p, size_t n, C const *q, size_t m, size_t j ) {
	TWO( );
	ALL_THE_SAME( j );
	vs_total( );
	if( a == b ) {
		CHECK( n == m, "equal views have equal sizes" );
		CHECK( p[j] == q[j], "equal views have equal characters" );
	}
}
DRIVER( sizes_differ )( C const *p, size_t n, C const *q, size_t m ) {
	TWO( );
	vs_total( );
	ASSUME( n != m );
	CHECK( not( a == b ), "different sizes are never equal" );
	CHECK( a != b, "different sizes are never equal" );
	CHECK( a.compare( b ) != 0, "different sizes are never equal" );
}
DRIVER( differ_somewhere )( C const *p, size_t n, C const *q, size_t m, size_t j ) {
	TWO( );
	ALL_THE_SAME( j );
	ASSUME( p[j] != q[j] );
	vs_total( );
	CHECK( a != b, "a different character makes them different" );
}
DRIVER( differ_somewhere2 )( C const *p, size_t n, C const *q, size_t m, size_t j ) {
	TWO( );
	ALL_THE_SAME( j );
	ASSUME( p[j] != q[j] );
	vs_total( );
	CHECK( a.compare( b ) != 0, "a different character makes them different" );
}
DRIVER( reflexive )( C const *p, size_t n ) {
	SV_IN( p, n );
	sv const a( p, n ), b( p, n );
	vs_total( );
	CHECK( a == b, "equal to a view of the same range" );
}
DRIVER( reflexive2 )( C const *p, size_t n ) {
	SV_IN( p, n );
	sv const a( p, n ), b( p, n );
	vs_total( );
	CHECK( not( a < b ), "not less than itself" );
}
DRIVER( reflexive3 )( C const *p, size_t n ) {
	SV_IN( p, n );
	sv const a( p, n );
	vs_total( );
	CHECK( a.starts_with( sv( p, n ) ), "starts with itself" );
	CHECK( a.ends_with( sv( p, n ) ), "ends with itself" );
}
// the sign of compare: whichever operator is used
DRIVER( first_char_decides )( C const *p, size_t n, C const *q, size_t m ) {
	TWO( );
	ASSUME( n > 0 and m > 0 );
	ASSUME( p[0] < q[0] );
	vs_total( );
	CHECK( a.compare( b ) < 0, "the first difference decides" );
	CHECK( b.compare( a ) > 0, "the first difference decides" );
	CHECK( a < b and a <= b and not( a > b ) and not( a >= b ) and a != b and not( a == b ), "the first difference decides" );
	CHECK( b > a and b >= a and not( b < a ) and not( b <= a ) and b != a and not( b == a ), "the first difference decides" );
}
DRIVER( prefix_is_less )( C const *p, size_t n, size_t m ) {
	SV_IN( p, n );
	ASSUME( m < n );
	sv const a( p, m ), b( p, n );
	vs_total( );
	CHECK( a.compare( b ) < 0, "a proper prefix is less" );
}
DRIVER( prefix_is_less2 )( C const *p, size_t n, size_t m ) {
	SV_IN( p, n );
	ASSUME( m < n );
	sv const a( p, m ), b( p, n );
	vs_total( );
	CHECK( b.compare( a ) > 0, "a proper prefix is less" );
}
DRIVER( empty_is_least )( C const *p, size_t n, C const *q ) {
	SV_IN( p, n );
	ASSUME( q != nullptr );
	vs_region( q, 0, false );
	sv const a( p, n ), e( q, size_t{ 0 } ), z;
	vs_total( );
	CHECK( ( e == a ) == ( n == 0 ), "only the empty view equals an empty view" );
	CHECK( ( e < a ) == ( n != 0 ), "the empty view is least" );
	CHECK( not( a < e ), "the empty view is least" );
	CHECK( e == z, "empty views are equal" );
	CHECK( a.starts_with( e ) and a.ends_with( e ) and a.starts_with( z ) and a.ends_with( z ), "everything starts and ends with nothing" );
}
DRIVER( starts_with_means )( C const *p, size_t n, C const *q, size_t m, size_t j ) {
	TWO( );
	ALL_THE_SAME( j );
	vs_total( );
	if( a.starts_with( b ) ) {
		CHECK( n >= m, "long enough" );
		CHECK( p[j] == q[j], "the same characters" );
	}
}
DRIVER( starts_with_too_long )( C const *p, size_t n, C const *q, size_t m ) {
	TWO( );
	ASSUME( m > n );
	vs_total( );
	CHECK( not a.starts_with( b ), "nothing starts with something longer" );
	CHECK( not a.ends_with( b ), "nothing ends with something longer" );
}
DRIVER( starts_with_refuses )( C const *p, size_t n, C const *q, size_t m, size_t j ) {
	TWO( );
	ALL_THE_SAME( j );
	ASSUME( p[j] != q[j] );
	vs_total( );
	CHECK( not a.starts_with( b ), "a different character" );
}
DRIVER( starts_with_prefix )( C const *p, size_t n, size_t m ) {
	SV_IN( p, n );
	ASSUME( m <= n );
	sv const a( p, n );
	vs_total( );
	CHECK( a.starts_with( sv( p, m ) ), "starts with every prefix" );
}
DRIVER( ends_with_suffix )( C const *p, size_t n, size_t m ) {
	SV_IN( p, n );
	ASSUME( m <= n );
	sv const a( p, n );
	vs_total( );
	CHECK( a.ends_with( sv( p + ( n - m ), m ) ), "ends with every suffix" );
}
DRIVER( ends_with_means )( C const *p, size_t n, C const *q, size_t m, size_t j ) {
	TWO( );
	ASSUME( j < m );
	vs_watch( q + j, sizeof( C ) );
	if( n >= m ) {
		vs_watch( p + ( n - m + j ), sizeof( C ) );
	}
	vs_total( );
	if( a.ends_with( b ) ) {
		CHECK( n >= m, "long enough" );
		CHECK( p[n - m + j] == q[j], "the same characters" );
	}
}
DRIVER( starts_ends_char )( C const *p, size_t n, C c ) {
	SV_IN( p, n );
	sv const a( p, n );
	vs_total( );
	CHECK( a.starts_with( c ) == ( n > 0 and p[0] == c ), "the first character" );
	CHECK( a.ends_with( c ) == ( n > 0 and p[n - 1] == c ), "the last character" );
}
DRIVER( sub_compare )( C const *p, size_t n, C const *q, size_t m, size_t k, size_t c, size_t j ) {
	TWO( );
	ASSUME( k <= n );
	size_t const len = c < n - k ? c : n - k;
	ASSUME( j < len and j < m );
	vs_watch( p + k + j, sizeof( C ) );
	vs_watch( q + j, sizeof( C ) );
	vs_total( );
	if( a.compare( k, c, b ) == 0 ) {
		CHECK( len == m, "the clipped part has the size" );
		CHECK( p[k + j] == q[j], "and the characters" );
	}
}
DRIVER( sub_compare_count )( C const *p, size_t n, C const *q, size_t m, size_t k, size_t c, size_t j ) {
	TWO( );
	ASSUME( k <= n );
	size_t const len = c < n - k ? c : n - k;
	ASSUME( j < len and j < m );
	vs_watch( p + k + j, sizeof( C ) );
	vs_watch( q + j, sizeof( C ) );
	vs_total( );
	if( a.compare( k, c, q, m ) == 0 ) {
		CHECK( len == m, "the clipped part has the size" );
		CHECK( p[k + j] == q[j], "and the characters" );
	}
}
// the whole family of operators follows one three way result
DRIVER( operator_eq )( C const *p, size_t n, C const *q, size_t m ) {
	TWO( );
	ASSUME( n <= 1 and m <= 1 );
	vs_total( );
	int const r = a.compare( b );
	CHECK( ( a == b ) == ( r == 0 ), "== follows compare" );
}
DRIVER( operator_ne )( C const *p, size_t n, C const *q, size_t m ) {
	TWO( );
	ASSUME( n <= 1 and m <= 1 );
	vs_total( );
	int const r = a.compare( b );
	CHECK( ( a != b ) == ( r != 0 ), "!= follows compare" );
}
DRIVER( operator_lt )( C const *p, size_t n, C const *q, size_t m ) {
	TWO( );
	ASSUME( n <= 1 and m <= 1 );
	vs_total( );
	int const r = a.compare( b );
	CHECK( ( a < b ) == ( r < 0 ), "< follows compare" );
}
DRIVER( operator_le )( C const *p, size_t n, C const *q, size_t m ) {
	TWO( );
	ASSUME( n <= 1 and m <= 1 );
	vs_total( );
	int const r = a.compare( b );
	CHECK( ( a <= b ) == ( r <= 0 ), "<= follows compare" );
}
DRIVER( operator_gt )( C const *p, size_t n, C const *q, size_t m ) {
	TWO( );
	ASSUME( n <= 1 and m <= 1 );
	vs_total( );
	int const r = a.compare( b );
	CHECK( ( a > b ) == ( r > 0 ), "> follows compare" );
}
DRIVER( operator_ge )( C const *p, size_t n, C const *q, size_t m ) {
	TWO( );
	ASSUME( n <= 1 and m <= 1 );
	vs_total( );
	int const r = a.compare( b );
	CHECK( ( a >= b ) == ( r >= 0 ), ">= follows compare" );
}
DRIVER( antisymmetric )( C const *p, size_t n, C const *q, size_t m ) {
	TWO( );
	ASSUME( n == 1 and m == 1 );
	vs_total( );
	int const r = a.compare( b );
	int const s = b.compare( a );
	CHECK( ( r < 0 ) == ( s > 0 ) and ( r == 0 ) == ( s == 0 ), "antisymmetric" );
}
DRIVER( against_std )( C const *p, size_t n, C const *q, size_t m, size_t j ) {
	TWO( );
	ALL_THE_SAME( j );
	vs_total( );
	std::basic_string_view<C> const s( q, m );
	if( a == s ) {
		CHECK( n == m and p[j] == q[j], "equal to a standard view" );
	}
}
DRIVER( against_c_string )( C const *p, size_t n, C const *q, size_t m ) {
	SV_IN( p, n );
	ASSUME( q != nullptr );
	VS_LEN( m );
	vs_region( q, ( m + 1 ) * sizeof( C ), false );
	vs_watch( q + m, sizeof( C ) );
	ASSUME( q[m] == C{ } );
	sv const a( p, n );
	if( a == q ) {
		CHECK( n <= m, "no longer than the zero terminated string" );
	}
}
