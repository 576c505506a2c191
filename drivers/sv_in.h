// inputs of the string_view drivers: an arbitrary character range
#pragma once
#include "vs.h"
#include <daw/daw_string_view.h>
#ifndef VS_CHAR
#define VS_CHAR char
#endif
using C = VS_CHAR;
using sv = daw::basic_string_view<C>;
inline constexpr std::size_t npos = sv::npos;
// [p, p+n) is readable, not writable, and nothing else may be touched
#define SV_IN( p, n )     \
	ASSUME( p != nullptr ); \
	VS_LEN( n );            \
	vs_region( p, n * sizeof( C ), false )
// element j of that range stands for every element of it
#define SV_ANY( p, n, j ) \
	ASSUME( j < n );        \
	vs_watch( p + j, sizeof( C ) )
#define IS( v, b, e, what ) CHECK( ( v ).data( ) == ( b ) and ( v ).data_end( ) == ( e ) and ( v ).size( ) == static_cast<std::size_t>( ( e ) - ( b ) ), what )
