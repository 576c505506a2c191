// P16: visit, visit_nt and visit<Result> call the visitor exactly once, with the
// alternative that is held, for variants of every size; a variant without a value is
// reported; union_pair, poly_var and variant_cast agree with what is held
// vs: min=86
#include "vs.h"
#include <daw/daw_visit.h>
#include <utility>
#include <variant>

template<std::size_t I>
struct alt {
	unsigned v;
};
template<typename>
struct make;
template<std::size_t... Is>
struct make<std::index_sequence<Is...>> {
	using type = std::variant<alt<Is>...>;
};
template<std::size_t N>
using var_n = typename make<std::make_index_sequence<N>>::type;
struct raw {
	unsigned v;
	unsigned char index;
};
template<std::size_t N>
static var_n<N> any_variant( unsigned v, unsigned char index ) {
	static_assert( sizeof( var_n<N> ) == sizeof( raw ) );
	static_assert( std::is_trivially_copyable_v<var_n<N>> );
	raw r{ };
	r.v = v;
	r.index = index;
	var_n<N> x;
	__builtin_memcpy( &x, &r, sizeof( x ) );
	return x;
}
struct seen {
	unsigned *calls;
	unsigned *which;
	unsigned *value;
	template<std::size_t I>
	unsigned operator( )( alt<I> const &a ) const {
		++*calls;
		*which = I;
		*value = a.v;
		return a.v + static_cast<unsigned>( I );
	}
};
template<std::size_t N, int How>
static void visited( unsigned v, unsigned char index ) {
	vs_throws( );
	vs_total( );
	ASSUME( index < N );
	var_n<N> x = any_variant<N>( v, index );
	CHECK( x.index( ) == index, "the state of the driver" );
	unsigned calls = 0, which = ~0U, value = ~v;
	unsigned r = 0;
	seen s{ &calls, &which, &value };
	if constexpr( How == 0 ) {
		r = daw::visit( x, s );
	} else if constexpr( How == 1 ) {
		r = daw::visit_nt( std::as_const( x ), s );
	} else if constexpr( How == 2 ) {
		unsigned long long l = daw::visit<unsigned long long>( x, s );
		CHECK( l == v + index, "the result" );
		r = static_cast<unsigned>( l );
	} else {
		r = daw::visit_nt<unsigned>( std::move( x ), s );
	}
	CHECK( calls == 1, "called once" );
	CHECK( which == index, "with the alternative that is held" );
	CHECK( value == v, "and its value" );
	CHECK( r == v + index, "the result" );
}
// alternatives whose assignment may throw: their variant can lose its value
template<std::size_t I>
struct odd {
	unsigned v;
	odd( ) = default;
	odd( odd const &o ) noexcept( false )
	  : v( o.v ) {}
	odd &operator=( odd const & ) = default;
};
template<typename>
struct make_odd;
template<std::size_t... Is>
struct make_odd<std::index_sequence<Is...>> {
	using type = std::variant<odd<Is>...>;
};
template<std::size_t N, bool Result>
static void valueless( unsigned v ) {
	vs_throws( );
	vs_total( );
	typename make_odd<std::make_index_sequence<N>>::type x;
	static_assert( sizeof( x ) == sizeof( raw ) );
	raw r{ };
	r.v = v;
	r.index = 0xff;
	__builtin_memcpy( static_cast<void *>( &x ), &r, sizeof( x ) );
	CHECK( x.valueless_by_exception( ), "the state of the driver" );
	unsigned calls = 0;
	auto s = [&]( auto const &a ) -> unsigned {
		++calls;
		return a.v;
	};
	bool threw = false;
	try {
		if constexpr( Result ) {
			(void)daw::visit<unsigned long long>( x, s );
		} else {
			(void)daw::visit( x, s );
		}
	} catch( std::bad_variant_access const & ) { threw = true; }
	CHECK( threw and calls == 0, "a variant without a value is reported" );
}
#define VISITED( N )                                               \
	DRIVER( visit_##N )( unsigned v, unsigned char i ) {             \
		visited<N, 0>( v, i );                                         \
	}                                                                \
	DRIVER( visit_nt_##N )( unsigned v, unsigned char i ) {          \
		visited<N, 1>( v, i );                                         \
	}                                                                \
	DRIVER( visit_result_##N )( unsigned v, unsigned char i ) {      \
		visited<N, 2>( v, i );                                         \
	}                                                                \
	DRIVER( visit_nt_result_##N )( unsigned v, unsigned char i ) {   \
		visited<N, 3>( v, i );                                         \
	}
VISITED( 1 ) VISITED( 2 ) VISITED( 3 ) VISITED( 4 ) VISITED( 5 ) VISITED( 6 )
VISITED( 7 ) VISITED( 8 ) VISITED( 9 ) VISITED( 10 ) VISITED( 11 ) VISITED( 12 )
VISITED( 13 ) VISITED( 14 ) VISITED( 15 ) VISITED( 16 ) VISITED( 17 ) VISITED( 20 )
VISITED( 33 )
#define VALUELESS( N )                            \
	DRIVER( valueless_##N )( unsigned v ) {         \
		valueless<N, false>( v );                     \
	}                                               \
	DRIVER( valueless_result_##N )( unsigned v ) {  \
		valueless<N, true>( v );                      \
	}
VALUELESS( 1 ) VALUELESS( 2 ) VALUELESS( 10 ) VALUELESS( 17 )

// the visitor gets the object itself, not a copy
DRIVER( visit_object )( unsigned v, bool second ) {
	vs_throws( );
	vs_total( );
	std::variant<alt<0>, alt<1>> x;
	if( second ) {
		x = alt<1>{ 0 };
	}
	auto set = [&]( auto &a ) {
		a.v = v;
		return static_cast<void const *>( &a );
	};
	void const *p = daw::visit( x, set );
	void const *at = second ? static_cast<void const *>( std::get_if<1>( &x ) )
	                        : static_cast<void const *>( std::get_if<0>( &x ) );
	CHECK( p == at, "the object that is held" );
	CHECK( second ? std::get_if<1>( &x )->v == v : std::get_if<0>( &x )->v == v, "written" );
	void const *q = daw::visit_nt( x, set );
	CHECK( q == at, "the object that is held" );
}
// of several visitors the one for the alternative
DRIVER( visit_several )( unsigned v, unsigned char i ) {
	vs_throws( );
	vs_total( );
	ASSUME( i < 3 );
	auto x = any_variant<3>( v, i );
	unsigned r = daw::visit(
	  x, []( alt<0> const &a ) -> unsigned { return a.v; },
	  []( alt<1> const &a ) -> unsigned { return a.v ^ 1U; },
	  []( alt<2> const &a ) -> unsigned { return a.v ^ 2U; } );
	if( i == 0 ) {
		CHECK( r == v, "the first" );
	} else if( i == 1 ) {
		CHECK( r == ( v ^ 1U ), "the second" );
	} else {
		CHECK( r == ( v ^ 2U ), "the third" );
	}
}
