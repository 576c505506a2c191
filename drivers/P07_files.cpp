// P07: files and mappings are released exactly once, on every path
// vs: min=15
#include "vs.h"
#include <cstdarg>
#include <daw/daw_memory_mapped_file.h>
#include <daw/daw_read_file.h>

// ---- the operating system: every call may fail, what it hands out is accounted for
// two descriptors and two mappings at most, each a set of scalars
static int s0_fd;
static bool s0_fd_open, s0_writable, s0_mapped;
static void *s0_ptr;
static std::size_t s0_len;
static long s0_size;
static int s1_fd;
static bool s1_fd_open, s1_writable, s1_mapped;
static void *s1_ptr;
static std::size_t s1_len;
static long s1_size;
static int n_open, n_map; // live descriptors and mappings
static int n_fd_total, n_map_total;
static bool last_ok;

#define BAD( what ) vs_fail( what )
extern "C" {
int open( char const *, int flags, ... ) {
	if( vs_bool( ) ) {
		last_ok = false;
		return -1;
	}
	int const fd = vs_int( );
	SUPPOSE( fd >= 0 );
	++n_open;
	++n_fd_total;
	if( not s0_fd_open ) {
		SUPPOSE( not s1_fd_open or s1_fd != fd );
		s0_fd = fd;
		s0_fd_open = true;
		s0_writable = ( flags & 3 ) == O_RDWR;
	} else {
		CHECK( not s1_fd_open, "a third file is opened" );
		SUPPOSE( s0_fd != fd );
		s1_fd = fd;
		s1_fd_open = true;
		s1_writable = ( flags & 3 ) == O_RDWR;
	}
	return fd;
}
int close( int fd ) {
	if( s0_fd_open and s0_fd == fd ) {
		s0_fd_open = false;
		--n_open;
		return 0;
	}
	if( s1_fd_open and s1_fd == fd ) {
		s1_fd_open = false;
		--n_open;
		return 0;
	}
	BAD( "closes a descriptor that is not open" );
	return -1;
}
off_t lseek( int fd, off_t off, int whence ) noexcept {
	bool const a = s0_fd_open and s0_fd == fd;
	bool const b = s1_fd_open and s1_fd == fd;
	CHECK( a or b, "seeks in a file that is not open" );
	if( whence == SEEK_SET ) {
		return off;
	}
	long const r = static_cast<long>( vs_size( ) );
	SUPPOSE( r >= -1 );
	if( a ) {
		s0_size = r;
	} else {
		s1_size = r;
	}
	return r;
}
void *mmap( void *, std::size_t len, int prot, int, int fd, off_t off ) noexcept {
	bool const a = s0_fd_open and s0_fd == fd;
	bool const b = s1_fd_open and s1_fd == fd;
	CHECK( a or b, "maps a file that is not open" );
	CHECK( off == 0, "maps from the start" );
	CHECK( a ? static_cast<long>( len ) == s0_size : static_cast<long>( len ) == s1_size, "maps the whole file" );
	CHECK( len > 0, "maps something" );
	CHECK( ( prot & PROT_READ ) != 0, "readable" );
	CHECK( ( prot & PROT_WRITE ) == 0 or ( a ? s0_writable : s1_writable ), "writable only when asked for" );
	if( vs_bool( ) ) {
		last_ok = false;
		return MAP_FAILED;
	}
	std::size_t const p = vs_size( );
	SUPPOSE( p >= 4096 and p < 0x7fff'0000'0000 );
	++n_map;
	++n_map_total;
	void *r = reinterpret_cast<void *>( p );
	if( not s0_mapped ) {
		SUPPOSE( not s1_mapped or s1_ptr != r );
		s0_ptr = r;
		s0_len = len;
		s0_mapped = true;
	} else {
		CHECK( not s1_mapped, "a third mapping is made" );
		SUPPOSE( s0_ptr != r );
		s1_ptr = r;
		s1_len = len;
		s1_mapped = true;
	}
	last_ok = true;
	return r;
}
int munmap( void *p, std::size_t len ) noexcept {
	if( s0_mapped and s0_ptr == p ) {
		CHECK( len == s0_len, "unmaps the whole mapping" );
		s0_mapped = false;
		--n_map;
		return 0;
	}
	if( s1_mapped and s1_ptr == p ) {
		CHECK( len == s1_len, "unmaps the whole mapping" );
		s1_mapped = false;
		--n_map;
		return 0;
	}
	BAD( "unmaps something that is not mapped" );
	return -1;
}
}
using MF = daw::filesystem::memory_mapped_file_t<char>;
using daw::filesystem::open_mode;
#define START( )                            \
	vs_total( );                              \
	s0_fd = -1; s0_fd_open = s0_writable = s0_mapped = false; s0_ptr = nullptr; s0_len = 0; s0_size = 0; \
	s1_fd = -1; s1_fd_open = s1_writable = s1_mapped = false; s1_ptr = nullptr; s1_len = 0; s1_size = 0; \
	n_open = n_map = n_fd_total = n_map_total = 0; \
	last_ok = false
#define ALL_GONE( )                                        \
	CHECK( n_open == 0, "every descriptor is closed" );      \
	CHECK( n_map == 0, "every mapping is unmapped" )
#define PATH daw::string_view( "f", 1 )
static open_mode any_mode( ) {
	return vs_bool( ) ? open_mode::read : open_mode::read_write;
}
#define IS_EMPTY( f )                                       \
	CHECK( not( f ), "is not open" );                         \
	CHECK( ( f ).size( ) == 0, "no size" );                   \
	CHECK( ( f ).data( ) == nullptr, "no data" );             \
	CHECK( ( f ).begin( ) == ( f ).end( ), "no elements" );   \
	CHECK( ( f ).empty( ), "empty" )

DRIVER( map_default )( ) {
	START( );
	{
		MF f{ };
		IS_EMPTY( f );
		MF const &c = f;
		IS_EMPTY( c );
	}
	CHECK( n_fd_total == 0, "nothing was opened" );
	ALL_GONE( );
	REACH( "end" );
}
DRIVER( map_open )( ) {
	START( );
	{
		MF f{ };
		auto const m = any_mode( );
		bool const r = f.open( PATH, m );
		CHECK( r == ( n_map == 1 ), "says whether it is mapped" );
		CHECK( r == static_cast<bool>( f ), "open says what operator bool says" );
		if( r ) {
			CHECK( f.data( ) == s0_ptr, "data" );
			CHECK( f.size( ) == s0_len, "size" );
			CHECK( f.begin( ) == f.data( ) and f.end( ) == f.data( ) + f.size( ), "range" );
			CHECK( not f.empty( ), "not empty" );
			CHECK( s0_writable == ( m == open_mode::read_write ), "mode" );
			REACH( "opened" );
		} else {
			ALL_GONE( );
			IS_EMPTY( f );
			REACH( "failed" );
		}
	}
	ALL_GONE( );
	REACH( "end" );
}
DRIVER( map_construct )( ) {
	START( );
	{
		MF f( PATH, any_mode( ) );
		MF const &c = f;
		CHECK( static_cast<bool>( f ) == ( n_map == 1 ), "says whether it is mapped" );
		if( c ) {
			CHECK( c.data( ) == s0_ptr and c.size( ) == s0_len, "the mapping" );
			CHECK( c.begin( ) == c.cbegin( ) and c.end( ) == c.cend( ), "range" );
			CHECK( static_cast<std::size_t>( c.end( ) - c.begin( ) ) == s0_len, "range" );
			REACH( "opened" );
		} else {
			ALL_GONE( );
			IS_EMPTY( f );
			REACH( "failed" );
		}
	}
	ALL_GONE( );
	REACH( "end" );
}
DRIVER( map_const_element )( ) {
	START( );
	{
		using CF = daw::filesystem::memory_mapped_file_t<char const>;
		CF f( PATH );
		if( f ) {
			CHECK( f.data( ) == s0_ptr and f.size( ) == s0_len, "the mapping" );
			std::size_t const i = vs_size( );
			ASSUME( i < f.size( ) );
			CHECK( &f[i] == static_cast<char const *>( s0_ptr ) + i, "element" );
			REACH( "opened" );
		}
	}
	ALL_GONE( );
}
DRIVER( map_index )( ) {
	START( );
	{
		MF f( PATH, open_mode::read_write );
		MF const &c = f;
		if( f ) {
			std::size_t const i = vs_size( );
			ASSUME( i < f.size( ) );
			CHECK( &f[i] == static_cast<char *>( s0_ptr ) + i, "element" );
			CHECK( &c[i] == static_cast<char *>( s0_ptr ) + i, "element" );
			std::string_view const sv = f;
			CHECK( sv.data( ) == s0_ptr and sv.size( ) == s0_len, "view" );
			REACH( "opened" );
		}
	}
	ALL_GONE( );
}
DRIVER( map_reopen )( ) {
	START( );
	{
		MF f( PATH );
		bool const r = f.open( PATH, any_mode( ) );
		CHECK( r == ( n_map == 1 ) and ( r or n_map == 0 ), "one mapping at most" );
		CHECK( r ? n_open <= 1 : n_open == 0, "one descriptor at most" );
		CHECK( r == static_cast<bool>( f ), "state" );
		if( r ) {
			REACH( "again" );
		} else {
			IS_EMPTY( f );
			REACH( "failed" );
		}
	}
	ALL_GONE( );
	REACH( "end" );
}
DRIVER( map_move )( ) {
	START( );
	{
		MF f( PATH );
		bool const was = static_cast<bool>( f );
		MF g( std::move( f ) );
		CHECK( static_cast<bool>( g ) == was, "moved" );
		if( was ) {
			CHECK( g.data( ) == s0_ptr and g.size( ) == s0_len, "the mapping" );
			CHECK( n_map == 1, "still mapped" );
			REACH( "opened" );
		}
		IS_EMPTY( f );
	}
	ALL_GONE( );
	CHECK( n_map_total <= 1, "mapped once" );
	REACH( "end" );
}
DRIVER( map_move_then_open )( ) {
	START( );
	{
		MF f( PATH );
		MF g( std::move( f ) );
		bool const r = f.open( PATH );
		CHECK( r == static_cast<bool>( f ), "state" );
		CHECK( n_map == ( f ? 1 : 0 ) + ( g ? 1 : 0 ), "both are mapped" );
		if( f and g ) {
			CHECK( f.data( ) != g.data( ), "apart" );
			REACH( "both" );
		}
	}
	ALL_GONE( );
}
DRIVER( map_move_assign )( ) {
	START( );
	{
		MF f( PATH );
		MF g( PATH );
		char *const p = f.data( );
		bool const was = static_cast<bool>( f );
		g = std::move( f );
		CHECK( static_cast<bool>( g ) == was, "assigned" );
		CHECK( g.data( ) == p, "the mapping" );
		CHECK( n_map == ( was ? 1 : 0 ), "the old mapping is gone" );
		IS_EMPTY( f );
		REACH( "assigned" );
	}
	ALL_GONE( );
	REACH( "end" );
}
DRIVER( map_move_assign_self )( ) {
	START( );
	{
		MF f( PATH );
		char *const p = f.data( );
		MF &r = f;
		f = std::move( r );
		CHECK( f.data( ) == p, "unchanged" );
		CHECK( n_map == ( p ? 1 : 0 ), "unchanged" );
	}
	ALL_GONE( );
	REACH( "end" );
}
DRIVER( map_temporary )( ) {
	START( );
	{
		MF f{ };
		f = MF( PATH, any_mode( ) );
		CHECK( static_cast<bool>( f ) == ( n_map == 1 ), "state" );
		f = MF{ };
		ALL_GONE( );
		IS_EMPTY( f );
	}
	ALL_GONE( );
	REACH( "end" );
}

// ---- C streams
static int n_file; // open streams
static int n_file_total;
static unsigned char the_file;
static std::uintmax_t the_size;
static bool size_failed, short_read, open_failed;
static std::size_t was_read;
extern "C" {
FILE *fopen( char const *, char const *mode ) {
	CHECK( mode[0] == 'r', "opens for reading" );
	if( vs_bool( ) ) {
		open_failed = true;
		return nullptr;
	}
	++n_file;
	++n_file_total;
	return reinterpret_cast<FILE *>( &the_file );
}
int fclose( FILE *f ) {
	CHECK( f == reinterpret_cast<FILE *>( &the_file ), "closes what it opened" );
	CHECK( n_file > 0, "closes a stream that is not open" );
	--n_file;
	return vs_int( );
}
std::size_t fread( void *p, std::size_t sz, std::size_t n, FILE *f ) {
	CHECK( f == reinterpret_cast<FILE *>( &the_file ) and n_file == 1, "reads from the open stream" );
	CHECK( sz * n <= the_size, "asks for what the file has" );
	std::size_t const r = vs_size( );
	SUPPOSE( r <= n );
	short_read = r != n;
	was_read = r;
	return r;
}
}
namespace std::filesystem {
	uintmax_t file_size( path const &, error_code &ec ) noexcept {
		if( vs_bool( ) ) {
			ec = error_code( 2, *reinterpret_cast<error_category const *>( &the_file ) );
			size_failed = true;
			return static_cast<uintmax_t>( -1 );
		}
		ec = error_code( 0, *reinterpret_cast<error_category const *>( &the_file ) );
		return the_size;
	}
} // namespace std::filesystem
extern std::string const the_path;
#define FSTART( )                                   \
	vs_allow_ub( );                                   \
	n_file = n_file_total = 0;                        \
	size_failed = short_read = open_failed = false;   \
	the_size = vs_size( );                            \
	ASSUME( the_size < ( 1ull << 40 ) );              \
	was_read = 0
template<typename C>
static inline void read_whole( ) {
	FSTART( );
	try {
		auto r = daw::read_file<C>( the_path );
		CHECK( n_file == 0, "every stream is closed" );
		CHECK( n_file_total <= 1, "opened once" );
		if( r ) {
			CHECK( not size_failed and not open_failed and not short_read, "a failure is reported" );
			CHECK( r->size( ) == the_size / sizeof( C ), "everything the file has" );
			CHECK( the_size == 0 or was_read == r->size( ), "was read" );
			REACH( "read" );
		} else {
			CHECK( size_failed or open_failed or short_read or the_size > std::basic_string<C>{ }.max_size( ), "fails for a reason" );
			REACH( "not read" );
		}
	} catch( ... ) {
		CHECK( n_file == 0, "every stream is closed" );
		REACH( "out of memory" );
	}
	CHECK( n_file == 0, "every stream is closed" );
}
DRIVER( read_char )( ) {
	read_whole<char>( );
}
// characters of two and four bytes; filling a string with one is not looked into
struct Char2 {
	char16_t v;
};
struct Char4 {
	char32_t v;
};
template<typename C>
struct Traits {
	using char_type = C;
	using int_type = unsigned;
	using off_type = std::streamoff;
	using pos_type = std::streampos;
	using state_type = std::mbstate_t;
	using comparison_category = std::strong_ordering;
	static constexpr void assign( C &a, C const &b ) noexcept {
		a = b;
	}
	static C *assign( C *p, std::size_t, C ) {
		return p;
	}
	static C *copy( C *p, C const *q, std::size_t n ) {
		return static_cast<C *>( __builtin_memcpy( p, q, n * sizeof( C ) ) );
	}
	static C *move( C *p, C const *q, std::size_t n ) {
		return static_cast<C *>( __builtin_memmove( p, q, n * sizeof( C ) ) );
	}
};
template<>
struct std::char_traits<Char2> : Traits<Char2> {};
template<>
struct std::char_traits<Char4> : Traits<Char4> {};
DRIVER( read_char2 )( ) {
	read_whole<Char2>( );
}
DRIVER( read_char4 )( ) {
	read_whole<Char4>( );
}
DRIVER( read_or_terminate )( ) {
	FSTART( );
	try {
		auto r = daw::read_file( the_path, daw::terminate_on_read_file_error );
		CHECK( n_file == 0, "every stream is closed" );
		CHECK( not size_failed and not open_failed and not short_read, "never returns after a failure" );
		CHECK( r.size( ) == the_size, "everything the file has" );
		REACH( "read" );
	} catch( ... ) {
		CHECK( n_file == 0, "every stream is closed" );
	}
}
