// Obligation vocabulary shared by every driver translation unit.
// A driver is never executed: it is compiled to LLVM IR together with the
// library headers from /repo and the analyser (tools/vsan) decides, from the
// IR alone, whether a call of one of the sinks below is reachable.
#pragma once
#include <cassert>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <limits>
#include <new>
#include <type_traits>
#include <utility>

extern "C" {
// the violation sink
__attribute__( ( nomerge, cold ) ) void vs_fail( char const *msg ) noexcept;
// an unknown external action that may throw, and one that may not
void vs_may_throw( );
void vs_opaque( ) noexcept;
// unknown values
bool vs_bool( ) noexcept;
int vs_int( ) noexcept;
std::size_t vs_size( ) noexcept;
// the code behind it must be live: reachability witness
__attribute__( ( nomerge, cold ) ) void vs_reach( char const *msg ) noexcept;
// this driver has to run to completion: no abort, terminate, escaping exception
void vs_total( ) noexcept;
// the address range [p, p+bytes) is all that may be touched through p
void vs_region( void const *p, std::size_t bytes, bool writable ) noexcept;
// an arbitrary but fixed element of read-only storage (declared with vs_region):
// the analysis tells every access apart from it, so that a statement about this
// one element is a statement about all of them
void vs_watch( void const *p, std::size_t bytes ) noexcept;
// an element of writable storage: what is stored there in a loop is remembered
// (pair it with a watched element the loop reads at the same time)
void vs_name( void const *p ) noexcept;
// the allocations of this driver are accounted for: releasing storage twice, with
// the wrong function, or touching it afterwards is a violation
void vs_heap( ) noexcept;
// ... and nothing is left when it returns
void vs_no_leak( ) noexcept;
// an allocation never fails
void vs_alloc_ok( ) noexcept;
// this does not happen: ends the path (for stand-ins of functions with a result)
[[noreturn]] void vs_stop( ) noexcept;
// handlers are told apart by the type of the exception (takes effect for every
// driver of the translation unit); building its message does not fail
void vs_throws( ) noexcept;
// the first n rounds of the loops are looked at one by one
void vs_peel( int n ) noexcept;
// undefined behaviour traps are not obligations of this driver
void vs_allow_ub( ) noexcept;
// p is the address of an object no other pointer refers to
void vs_noalias( void const *p ) noexcept;
}

#define VS_STR2( x ) #x
#define VS_STR( x ) VS_STR2( x )
// obligation: the condition holds whenever control gets here
#define CHECK( cond, what )                                        \
	do {                                                             \
		if( not( cond ) ) {                                            \
			vs_fail( what " [" #cond "]" );                              \
		}                                                              \
	} while( false )
// obligation: control never gets here
#define NEVER( what ) vs_fail( what )
// obligation: control can get here (the analysed code is not vacuous)
#define REACH( what ) vs_reach( what )
// precondition of the driver
#define ASSUME( ... )          \
	do {                         \
		if( not( __VA_ARGS__ ) ) { \
			return;                  \
		}                          \
	} while( false )
#define SUPPOSE( ... )         \
	do {                         \
		if( not( __VA_ARGS__ ) ) { \
			vs_stop( );              \
		}                          \
	} while( false )
// an entry point the analyser looks at
#define DRIVER( name ) extern "C" __attribute__( ( used ) ) void vs_drv_##name
// an unknown allocation-sized quantity: small enough not to wrap an address
#define VS_LEN( n ) ASSUME( ( n ) < ( std::size_t{ 1 } << 61 ) )
