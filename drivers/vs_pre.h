// force-included before everything else: makes "unreachable" claims visible
#pragma once
#include <cstddef>
extern "C" [[noreturn]] void vs_unreachable( ) noexcept;
#define __builtin_unreachable( ) vs_unreachable( )
