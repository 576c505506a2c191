// P08: writing to a span stays inside it
// vs: min=7 flags=-fno-sanitize=null
#include "vs.h"
#include <daw/daw_span_writer.h>
#include <span>
// ---- writing to a span
namespace {
	using W = daw::span_writer<char>;
}
#define OUT( p, n )                              \
	std::size_t const n = vs_size( );              \
	ASSUME( n < ( std::size_t{ 1 } << 40 ) );      \
	ASSUME( p != nullptr );                        \
	vs_region( p, n, true )
#define LEFT( w, p, n, k ) \
	CHECK( w.data( ) == p + k and w.size( ) == n - k, "what is left" )
DRIVER( span_writer_values )( char *p ) {
	OUT( p, n );
	std::span<char> s( p, n );
	W w( s );
	LEFT( w, p, n, 0 );
	char const a = static_cast<char>( vs_int( ) ), b = static_cast<char>( vs_int( ) ), c = static_cast<char>( vs_int( ) );
	auto &r = w.write( a, b, c );
	CHECK( n >= 3, "does not return when they do not fit" );
	CHECK( &r == &w, "itself" );
	LEFT( w, p, n, 3 );
	CHECK( p[0] == a and p[1] == b and p[2] == c, "written in order" );
	w.write( );
	LEFT( w, p, n, 3 );
	REACH( "end" );
}
DRIVER( write_to_span_values )( char *p ) {
	OUT( p, n );
	std::span<char> s( p, n );
	char const a = static_cast<char>( vs_int( ) ), b = static_cast<char>( vs_int( ) ), c = static_cast<char>( vs_int( ) );
	auto w = daw::write_to_span( s, a, b, c );
	CHECK( n >= 3, "does not return when they do not fit" );
	LEFT( w, p, n, 3 );
	CHECK( p[0] == a and p[1] == b and p[2] == c, "written in order" );
	REACH( "end" );
}
// a range of any length
#define RANGE( q, m )                            \
	std::size_t const m = vs_size( );              \
	ASSUME( m < ( std::size_t{ 1 } << 40 ) );      \
	ASSUME( q != nullptr );                        \
	vs_region( q, m, false );                      \
	std::size_t const j = vs_size( );              \
	ASSUME( j < m );                               \
	vs_watch( q + j, 1 );                          \
	vs_name( p + j )
DRIVER( span_writer_range )( char *p, char const *q ) {
	OUT( p, n );
	RANGE( q, m );
	std::span<char> s( p, n );
	W w( s );
	auto &r = w.write( std::span<char const>( q, m ) );
	CHECK( m <= n, "does not return when they do not fit" );
	CHECK( &r == &w, "itself" );
	LEFT( w, p, n, m );
	CHECK( p[j] == q[j], "every element is written" );
	REACH( "end" );
}
DRIVER( write_to_span_range )( char *p, char const *q ) {
	OUT( p, n );
	RANGE( q, m );
	std::span<char> s( p, n );
	auto w = daw::write_to_span( s, std::span<char const>( q, m ) );
	CHECK( m <= n, "does not return when they do not fit" );
	LEFT( w, p, n, m );
	CHECK( p[j] == q[j], "every element is written" );
	REACH( "end" );
}
DRIVER( span_writer_literal )( char *p ) {
	OUT( p, n );
	std::span<char> s( p, n );
	W w( s );
	w.write_ntz( "ab" );
	CHECK( n >= 2, "does not return when they do not fit" );
	LEFT( w, p, n, 2 );
	CHECK( p[0] == 'a' and p[1] == 'b', "written in order" );
	REACH( "end" );
}
DRIVER( write_to_span_literal )( char *p ) {
	OUT( p, n );
	std::span<char> s( p, n );
	auto w = daw::write_to_span_ntz( s, "ab" );
	CHECK( n >= 2, "does not return when they do not fit" );
	LEFT( w, p, n, 2 );
	CHECK( p[0] == 'a' and p[1] == 'b', "written in order" );
	REACH( "end" );
}
DRIVER( span_writer_parts )( char *p ) {
	OUT( p, n );
	std::span<char> s( p, n );
	std::size_t const k = vs_size( ), i = vs_size( );
	W v( s, k );
	CHECK( k <= n, "no more than there is" );
	CHECK( v.data( ) == p and v.size( ) == k, "the first k" );
	W w( s );
	W const &c = w;
	CHECK( w.begin( ) == p and w.end( ) == p + n and c.begin( ) == p and c.end( ) == p + n and c.data( ) == p, "everything" );
	if( vs_bool( ) ) {
		auto &r = vs_bool( ) ? w[i] : const_cast<char &>( c[i] );
		CHECK( i < n and &r == p + i, "element" );
		REACH( "element" );
	} else if( vs_bool( ) ) {
		auto r = c.subspan( i );
		CHECK( i <= n, "no more than there is" );
		LEFT( r, p, n, i );
		LEFT( w, p, n, 0 );
		REACH( "subspan" );
	} else {
		auto &r = w.remove_prefix( i );
		CHECK( i <= n and &r == &w, "no more than there is" );
		LEFT( w, p, n, i );
		REACH( "remove_prefix" );
	}
}
