// vsan: obligation analyser over LLVM IR.
//
// Input : bitcode of one driver translation unit (driver code + the library
//         headers it instantiates), produced by clang with optimisation passes
//         disabled.
// Output: JSON with, per driver function, every obligation (call of the sink
//         vs_fail) and whether it is discharged.
//
// An obligation is discharged when one of the following analyses shows that the
// sink is unreachable:
//   (A) normalisation: inlining plus LLVM's own dataflow passes (SCCP, GVN, CVP,
//       constraint elimination, ...) remove the sink;
//   (B) relational abstract interpretation (this file): a forward fixpoint over
//       the normalised control flow graph, in a disjunctive domain of linear
//       inequalities over the SSA values, with a cell-based memory domain.
//       Loop heads are handled by a greatest fixpoint over a finite set of
//       template inequalities. Nothing is executed, no path is handed to a
//       solver; unknown operations are over-approximated.
#include <llvm/ADT/SmallPtrSet.h>
#include <llvm/ADT/PostOrderIterator.h>
#include <llvm/Analysis/AliasAnalysis.h>
#include <llvm/Analysis/CGSCCPassManager.h>
#include <llvm/Analysis/LoopAnalysisManager.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/Bitcode/BitcodeReader.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Analysis/AssumptionCache.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/Analysis/ScalarEvolution.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Transforms/Utils/LoopPeel.h>
#include <llvm/Transforms/Utils/ValueMapper.h>
#include <llvm/Support/CommandLine.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Transforms/Utils/CallPromotionUtils.h>
#include <llvm/Transforms/Utils/Cloning.h>
#include <llvm/Transforms/Utils/FunctionComparator.h>

#include <algorithm>
#include <time.h>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <pthread.h>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

using namespace llvm;
using i128 = __int128;

static cl::opt<std::string> InFile( cl::Positional, cl::desc( "input.bc" ), cl::Required );
static cl::opt<std::string> OnlyDrv( "driver", cl::desc( "analyse only this driver" ), cl::init( "" ) );
static cl::opt<bool> DumpIR( "dump-ir", cl::desc( "print the normalised IR" ), cl::init( false ) );
static cl::opt<bool> DumpHeavy( "dump-heavy", cl::desc( "print the fully simplified IR" ), cl::init( false ) );
static cl::opt<bool> Verbose( "trace", cl::desc( "trace" ), cl::init( false ) );
static cl::opt<int> MaxDisj( "max-disjuncts", cl::init( 400 ) );
static cl::opt<int> BriefMs( "brief-ms", cl::desc( "time budget of the first round" ), cl::init( 10000 ) );
static cl::opt<int> BudgetMs( "budget-ms", cl::desc( "time budget per driver and pipeline" ), cl::init( 120000 ) );
static cl::opt<int> BudgetSteps( "budget-steps", cl::desc( "transfer budget per driver and pipeline" ), cl::init( 150000 ) );

//===----------------------------------------------------------------------===//
// linear expressions and facts
//===----------------------------------------------------------------------===//
using Atom = int;
struct AtomInfo {
	i128 lo, hi;
	std::string name;
};
static std::vector<AtomInfo> Atoms;
static Atom newAtom( i128 lo, i128 hi, std::string nm ) {
	Atoms.push_back( { lo, hi, std::move( nm ) } );
	return static_cast<Atom>( Atoms.size( ) ) - 1;
}
static i128 pow2( unsigned w ) {
	return static_cast<i128>( 1 ) << w;
}
static i128 iabs( i128 x ) {
	return x < 0 ? -x : x;
}
static i128 igcd( i128 a, i128 b ) {
	a = iabs( a );
	b = iabs( b );
	while( b ) {
		i128 t = a % b;
		a = b;
		b = t;
	}
	return a;
}
static i128 floordiv( i128 a, i128 b ) {
	i128 q = a / b;
	if( ( a % b != 0 ) && ( ( a < 0 ) != ( b < 0 ) ) ) {
		--q;
	}
	return q;
}
struct LE {
	std::vector<std::pair<Atom, i128>> t; // sorted by atom, no zeros
	i128 c = 0;
	static LE cst( i128 v ) {
		LE r;
		r.c = v;
		return r;
	}
	static LE atom( Atom a ) {
		LE r;
		r.t.push_back( { a, 1 } );
		return r;
	}
	bool isConst( ) const {
		return t.empty( );
	}
	LE add( LE const &o, i128 k = 1 ) const {
		LE r;
		r.c = c + k * o.c;
		size_t i = 0, j = 0;
		while( i < t.size( ) || j < o.t.size( ) ) {
			if( j >= o.t.size( ) || ( i < t.size( ) && t[i].first < o.t[j].first ) ) {
				r.t.push_back( t[i++] );
			} else if( i >= t.size( ) || o.t[j].first < t[i].first ) {
				r.t.push_back( { o.t[j].first, k * o.t[j].second } );
				++j;
			} else {
				i128 v = t[i].second + k * o.t[j].second;
				if( v != 0 ) {
					r.t.push_back( { t[i].first, v } );
				}
				++i;
				++j;
			}
		}
		return r;
	}
	LE plus( i128 k ) const {
		LE r = *this;
		r.c += k;
		return r;
	}
	LE mul( i128 k ) const {
		LE r;
		if( k == 0 ) {
			return r;
		}
		r.c = c * k;
		for( auto const &p : t ) {
			r.t.push_back( { p.first, p.second * k } );
		}
		return r;
	}
	LE neg( ) const {
		return mul( -1 );
	}
	bool operator==( LE const &o ) const {
		return c == o.c && t == o.t;
	}
	i128 coef( Atom a ) const {
		for( auto const &p : t ) {
			if( p.first == a ) {
				return p.second;
			}
		}
		return 0;
	}
	bool has( Atom a ) const {
		return coef( a ) != 0;
	}
	LE subst( Atom a, LE const &e ) const {
		i128 k = coef( a );
		if( k == 0 ) {
			return *this;
		}
		LE r = *this;
		r.t.erase( std::find_if( r.t.begin( ), r.t.end( ), [&]( auto const &p ) { return p.first == a; } ) );
		return r.add( e, k );
	}
};
static std::string i128s( i128 v ) {
	if( v == 0 )
		return "0";
	bool n = v < 0;
	std::string s;
	if( n )
		v = -v;
	while( v ) {
		s.push_back( static_cast<char>( '0' + static_cast<int>( v % 10 ) ) );
		v /= 10;
	}
	if( n )
		s.push_back( '-' );
	std::reverse( s.begin( ), s.end( ) );
	return s;
}
static std::string les( LE const &e ) {
	std::string s;
	for( auto const &p : e.t ) {
		s += ( s.empty( ) ? "" : " + " ) + i128s( p.second ) + "*" + Atoms[p.first].name + "#" + std::to_string( p.first );
	}
	return s + ( s.empty( ) ? "" : " + " ) + i128s( e.c );
}

static void normalise( LE &e ) {
	// e >= 0 ; divide by gcd of coefficients, floor the constant
	if( e.t.empty( ) ) {
		return;
	}
	i128 g = 0;
	for( auto const &p : e.t ) {
		g = igcd( g, p.second );
		if( g == 1 ) {
			return;
		}
	}
	for( auto &p : e.t ) {
		p.second /= g;
	}
	e.c = floordiv( e.c, g );
}

static long long FMQueries = 0, FMSolved = 0;

// Fourier-Motzkin elimination over a dense matrix. Rows: coefficients then
// constant, meaning sum >= 0. Returns true when the rows are certainly
// infeasible over the integers (rational relaxation + gcd tightening).
namespace fm {
	struct Sys {
		int n = 0; // columns without the constant
		std::vector<i128> d;
		int rows = 0;
		i128 *row( int r ) {
			return d.data( ) + static_cast<size_t>( r ) * static_cast<size_t>( n + 1 );
		}
		void push( i128 const *r ) {
			d.insert( d.end( ), r, r + n + 1 );
			++rows;
		}
	};
	static uint64_t hashRow( i128 const *r, int n, int sign ) {
		uint64_t h = 1469598103934665603ull;
		for( int i = 0; i < n; ++i ) {
			i128 v = sign * r[i];
			if( v != 0 ) {
				h = ( h ^ ( static_cast<uint64_t>( v ) + 0x9e3779b97f4a7c15ull * static_cast<uint64_t>( i + 1 ) ) ) * 1099511628211ull;
				h ^= h >> 29;
			}
		}
		return h;
	}
	// tighten, drop duplicates; true = contradiction
	static bool clean( Sys &S ) {
		std::unordered_multimap<uint64_t, int> seen;
		seen.reserve( static_cast<size_t>( S.rows ) * 2 );
		int w = 0;
		int n = S.n;
		for( int i = 0; i < S.rows; ++i ) {
			i128 *r = S.row( i );
			i128 g = 0;
			for( int j = 0; j < n; ++j ) {
				if( r[j] != 0 ) {
					g = g == 1 ? 1 : igcd( g, r[j] );
				}
			}
			if( g == 0 ) {
				if( r[n] < 0 ) {
					return true;
				}
				continue;
			}
			if( g != 1 ) {
				for( int j = 0; j < n; ++j ) {
					r[j] /= g;
				}
				r[n] = floordiv( r[n], g );
			}
			uint64_t h = hashRow( r, n, 1 );
			bool dup = false;
			auto rg = seen.equal_range( h );
			for( auto it = rg.first; it != rg.second; ++it ) {
				i128 *o = S.row( it->second );
				bool same = true;
				for( int j = 0; j < n; ++j ) {
					if( o[j] != r[j] ) {
						same = false;
						break;
					}
				}
				if( same ) {
					if( r[n] < o[n] ) {
						o[n] = r[n];
					}
					dup = true;
					break;
				}
			}
			if( dup ) {
				continue;
			}
			if( w != i ) {
				std::copy( r, r + n + 1, S.row( w ) );
			}
			seen.emplace( h, w );
			++w;
		}
		S.rows = w;
		S.d.resize( static_cast<size_t>( w ) * static_cast<size_t>( n + 1 ) );
		for( int i = 0; i < w; ++i ) {
			i128 *r = S.row( i );
			auto rg = seen.equal_range( hashRow( r, n, -1 ) );
			for( auto it = rg.first; it != rg.second; ++it ) {
				i128 *o = S.row( it->second );
				bool opp = true;
				for( int j = 0; j < n; ++j ) {
					if( o[j] != -r[j] ) {
						opp = false;
						break;
					}
				}
				if( opp && o[n] + r[n] < 0 ) {
					return true;
				}
			}
		}
		return false;
	}
	static bool solve( Sys S ) {
		i128 const LIM = static_cast<i128>( 1 ) << 110;
		int n = S.n;
		if( clean( S ) ) {
			return true;
		}
		while( true ) {
			// equality with a unit coefficient: substitute
			{
				std::unordered_multimap<uint64_t, int> seen;
				for( int i = 0; i < S.rows; ++i ) {
					seen.emplace( hashRow( S.row( i ), n, 1 ), i );
				}
				int er = -1, pick = -1;
				for( int i = 0; i < S.rows && er < 0; ++i ) {
					i128 *r = S.row( i );
					auto rg = seen.equal_range( hashRow( r, n, -1 ) );
					for( auto it = rg.first; it != rg.second; ++it ) {
						i128 *o = S.row( it->second );
						bool opp = o[n] + r[n] == 0;
						for( int j = 0; opp && j < n; ++j ) {
							opp = o[j] == -r[j];
						}
						if( !opp ) {
							continue;
						}
						for( int j = 0; j < n; ++j ) {
							if( r[j] == 1 || r[j] == -1 ) {
								er = i;
								pick = j;
								break;
							}
						}
						break;
					}
				}
				if( er >= 0 ) {
					std::vector<i128> eq( S.row( er ), S.row( er ) + n + 1 );
					i128 pc = eq[static_cast<size_t>( pick )];
					for( int i = 0; i < S.rows; ++i ) {
						i128 *r = S.row( i );
						i128 k = r[pick];
						if( k == 0 ) {
							continue;
						}
						// r - (k/pc) eq, pc = +-1
						i128 m = k * pc;
						bool big = iabs( m ) > ( static_cast<i128>( 1 ) << 60 );
						for( int j = 0; j <= n && !big; ++j ) {
							big = iabs( eq[static_cast<size_t>( j )] ) > ( static_cast<i128>( 1 ) << 62 ) * 4 && iabs( m ) > 1024;
						}
						if( big ) {
							// drop the row (sound)
							for( int j = 0; j <= n; ++j ) {
								r[j] = 0;
							}
							continue;
						}
						for( int j = 0; j <= n; ++j ) {
							r[j] -= m * eq[static_cast<size_t>( j )];
						}
					}
					if( clean( S ) ) {
						return true;
					}
					continue;
				}
			}
			std::vector<int> cp( static_cast<size_t>( n ), 0 ), cn( static_cast<size_t>( n ), 0 );
			for( int i = 0; i < S.rows; ++i ) {
				i128 *r = S.row( i );
				for( int j = 0; j < n; ++j ) {
					if( r[j] > 0 ) {
						++cp[static_cast<size_t>( j )];
					} else if( r[j] < 0 ) {
						++cn[static_cast<size_t>( j )];
					}
				}
			}
			int best = -1;
			long bc = 0;
			for( int j = 0; j < n; ++j ) {
				long p = cp[static_cast<size_t>( j )], q = cn[static_cast<size_t>( j )];
				if( p + q == 0 ) {
					continue;
				}
				long c = p * q - p - q;
				if( best < 0 || c < bc ) {
					best = j;
					bc = c;
				}
			}
			if( best < 0 ) {
				return false;
			}
			long np = cp[static_cast<size_t>( best )], nn = cn[static_cast<size_t>( best )];
			if( np * nn + S.rows - np - nn > 1500 ) {
				return false; // give up: not shown infeasible
			}
			Sys R;
			R.n = n;
			std::vector<int> P, N;
			for( int i = 0; i < S.rows; ++i ) {
				i128 k = S.row( i )[best];
				if( k > 0 ) {
					P.push_back( i );
				} else if( k < 0 ) {
					N.push_back( i );
				} else {
					R.push( S.row( i ) );
				}
			}
			std::vector<i128> t( static_cast<size_t>( n + 1 ) );
			for( int pi : P ) {
				for( int ni : N ) {
					i128 *p = S.row( pi ), *q = S.row( ni );
					i128 kp = p[best], kn = -q[best];
					i128 g = igcd( kp, kn );
					i128 mp = kn / g, mn = kp / g;
					if( mp > ( static_cast<i128>( 1 ) << 60 ) || mn > ( static_cast<i128>( 1 ) << 60 ) ) {
						continue;
					}
					bool big = false;
					for( int j = 0; j <= n; ++j ) {
						if( p[j] != 0 && iabs( p[j] ) > LIM / mp ) {
							big = true;
						}
						if( q[j] != 0 && iabs( q[j] ) > LIM / mn ) {
							big = true;
						}
					}
					if( big ) {
						continue; // dropping a consequence is sound
					}
					for( int j = 0; j <= n; ++j ) {
						t[static_cast<size_t>( j )] = p[j] * mp + q[j] * mn;
					}
					R.push( t.data( ) );
				}
			}
			S = std::move( R );
			if( clean( S ) ) {
				return true;
			}
		}
	}
} // namespace fm

static std::unordered_map<uint64_t, std::vector<std::pair<uint64_t, bool>>> FMCache;

static uint64_t mix( uint64_t h, uint64_t v ) {
	h ^= v + 0x9e3779b97f4a7c15ull + ( h << 6 ) + ( h >> 2 );
	h *= 0xff51afd7ed558ccdull;
	h ^= h >> 32;
	return h;
}
// Is the conjunction of facts (each >= 0) and the goal infeasible over the
// integers?  true = certainly infeasible.
static bool infeasible( std::vector<LE> const &factsIn, LE const *goal = nullptr ) {
	++FMQueries;
	std::vector<LE const *> cs;
	std::vector<Atom> rel; // sorted
	static thread_local std::vector<char> mark;
	if( mark.size( ) < Atoms.size( ) ) {
		mark.resize( Atoms.size( ) + 256, 0 );
	}
	auto addAtoms = [&]( LE const &e ) {
		for( auto const &p : e.t ) {
			if( !mark[static_cast<size_t>( p.first )] ) {
				mark[static_cast<size_t>( p.first )] = 1;
				rel.push_back( p.first );
			}
		}
	};
	auto unmark = [&] {
		for( Atom a : rel ) {
			mark[static_cast<size_t>( a )] = 0;
		}
	};
	for( auto const &f : factsIn ) {
		if( f.t.empty( ) && f.c < 0 ) {
			return true;
		}
	}
	std::vector<char> used( factsIn.size( ), 0 );
	if( goal ) {
		if( goal->t.empty( ) ) {
			return goal->c < 0;
		}
		cs.push_back( goal );
		addAtoms( *goal );
	} else {
		for( auto const &f : factsIn ) {
			addAtoms( f );
		}
	}
	bool ch = true;
	while( ch ) {
		ch = false;
		for( size_t i = 0; i < factsIn.size( ); ++i ) {
			if( used[i] ) {
				continue;
			}
			bool touch = false;
			for( auto const &p : factsIn[i].t ) {
				if( mark[static_cast<size_t>( p.first )] ) {
					touch = true;
					break;
				}
			}
			if( touch ) {
				used[i] = 1;
				ch = true;
				cs.push_back( &factsIn[i] );
				addAtoms( factsIn[i] );
			}
		}
	}
	unmark( );
	std::sort( rel.begin( ), rel.end( ) );
	// cache: order-independent hash of the rows, goal separately
	auto rowHash = [&]( LE const &e, uint64_t seed ) {
		uint64_t h = seed;
		for( auto const &p : e.t ) {
			h = mix( h, static_cast<uint64_t>( p.first ) );
			h = mix( h, static_cast<uint64_t>( p.second ) );
			h = mix( h, static_cast<uint64_t>( p.second >> 64 ) );
		}
		h = mix( h, static_cast<uint64_t>( e.c ) );
		return mix( h, static_cast<uint64_t>( e.c >> 64 ) );
	};
	uint64_t h1 = 0, h2 = 0;
	for( auto const *e : cs ) {
		h1 += rowHash( *e, 17 );
		h2 += rowHash( *e, 0xabcdef );
	}
	auto &slot = FMCache[h1];
	for( auto const &p : slot ) {
		if( p.first == h2 ) {
			return p.second;
		}
	}
	++FMSolved;
	fm::Sys S;
	S.n = static_cast<int>( rel.size( ) );
	std::vector<i128> t( rel.size( ) + 1 );
	auto col = [&]( Atom a ) { return static_cast<size_t>( std::lower_bound( rel.begin( ), rel.end( ), a ) - rel.begin( ) ); };
	for( auto const *e : cs ) {
		std::fill( t.begin( ), t.end( ), 0 );
		for( auto const &p : e->t ) {
			t[col( p.first )] = p.second;
		}
		t[rel.size( )] = e->c;
		S.push( t.data( ) );
	}
	for( size_t i = 0; i < rel.size( ); ++i ) {
		std::fill( t.begin( ), t.end( ), 0 );
		t[i] = 1;
		t[rel.size( )] = -Atoms[static_cast<size_t>( rel[i] )].lo;
		S.push( t.data( ) );
		t[i] = -1;
		t[rel.size( )] = Atoms[static_cast<size_t>( rel[i] )].hi;
		S.push( t.data( ) );
	}
	bool r = fm::solve( std::move( S ) );
	FMCache[h1].push_back( { h2, r } );
	return r;
}

//===----------------------------------------------------------------------===//
// abstract state
//===----------------------------------------------------------------------===//
struct BoolE { // lazy comparison: kind 0: le==0, 1: le!=0, 2: le>=0
	int kind;
	LE e;
};
struct Val {
	enum K { Num, Bool, Agg, Unk } k = Unk;
	LE n;
	BoolE b;
	std::vector<Val> a;
	static Val num( LE e ) {
		Val v;
		v.k = Num;
		v.n = std::move( e );
		return v;
	}
	static Val boolean( int kind, LE e ) {
		Val v;
		v.k = Bool;
		v.b = { kind, std::move( e ) };
		return v;
	}
};
struct Cell {
	Atom base;
	i128 off;
	unsigned size; // bytes
	bool operator<( Cell const &o ) const {
		return std::tie( base, off, size ) < std::tie( o.base, o.off, o.size );
	}
};
struct Region {
	LE start;
	LE bytes;
	bool writable;
};
struct TraceNode {
	std::shared_ptr<TraceNode> prev;
	Instruction const *br;
	int which;
};
struct State {
	std::map<Value const *, Val> env;
	std::vector<LE> facts;
	std::map<Cell, LE> mem;
	struct Sym {
		LE p;
		unsigned size;
		LE v;
		bool rw = false; // of writable storage: v does not say what it holds
		bool operator==( Sym const &o ) const {
			return p == o.p && size == o.size && v == o.v;
		}
	};
	std::vector<Sym> sym; // contents at addresses with a non-constant offset
	std::vector<Sym> watch;         // watched elements of read-only storage
	std::map<Atom, Region> regions; // by base atom
	std::set<Atom> escaped;         // identified objects whose address escaped
	std::map<Atom, char> heap;      // live allocations and how they were made
	bool heapLost = false;          // the set of live allocations is unknown
	std::shared_ptr<TraceNode> trace;

	bool entails( LE const &g ) const { // g >= 0
		if( g.t.empty( ) ) {
			return g.c >= 0;
		}
		// quick interval test
		i128 lo = g.c;
		for( auto const &p : g.t ) {
			lo += p.second > 0 ? p.second * Atoms[p.first].lo : p.second * Atoms[p.first].hi;
		}
		if( lo >= 0 ) {
			return true;
		}
		LE ng = g.neg( ).plus( -1 );
		return infeasible( facts, &ng );
	}
	bool entailsEq( LE const &g ) const {
		if( g.t.empty( ) ) {
			return g.c == 0;
		}
		return entails( g ) && entails( g.neg( ) );
	}
	// returns false if the state became infeasible
	bool assumeGe( LE g ) {
		normalise( g );
		if( g.t.empty( ) ) {
			return g.c >= 0;
		}
		for( auto const &f : facts ) {
			if( f.t == g.t && f.c <= g.c ) {
				return true;
			}
		}
		if( infeasible( facts, &g ) ) {
			return false;
		}
		// what is now implied by the same terms is of no more use
		facts.erase( std::remove_if( facts.begin( ), facts.end( ), [&]( LE const &f ) { return f.t == g.t; } ), facts.end( ) );
		facts.push_back( std::move( g ) );
		return true;
	}
};
using States = std::vector<State>;

struct Budget {
	std::int64_t end = 0;
	// what this process has computed for, whatever else the machine is doing
	static std::int64_t now( ) {
		timespec t{ };
		clock_gettime( CLOCK_PROCESS_CPUTIME_ID, &t );
		return t.tv_sec * 1000LL + t.tv_nsec / 1000000;
	}
	bool out( ) const {
		return now( ) > end;
	}
};
struct GiveUp {};

// identified objects: atoms standing for the address of an alloca, a global or a
// fresh allocation (address distinct from every other object)
static std::set<Atom> Identified;
static bool HeapOn = false, AllocOk = false, NoLeak = false; // per driver

struct Finding {
	std::string msg;
	std::string kind; // check, access
	std::string where;
	std::vector<std::string> path;
};

static std::string locOf( Instruction const *I ) {
	if( !I ) {
		return "";
	}
	DebugLoc const &dl = I->getDebugLoc( );
	if( !dl ) {
		return "";
	}
	std::string s;
	auto *L = dl.get( );
	auto fn = [&]( DILocation *l ) {
		std::string n;
		if( auto *sp = l->getScope( )->getSubprogram( ) ) {
			n = sp->getName( ).str( );
		}
		return l->getFilename( ).str( ) + ":" + std::to_string( l->getLine( ) ) + " (" + n + ")";
	};
	s = fn( L );
	return s;
}
// innermost location, plus the innermost frame inside the library under test
static std::string locChain( Instruction const *I ) {
	DebugLoc const &dl = I->getDebugLoc( );
	if( !dl ) {
		return "";
	}
	std::string out;
	for( DILocation *l = dl.get( ); l; l = l->getInlinedAt( ) ) {
		std::string n;
		if( auto *sp = l->getScope( )->getSubprogram( ) ) {
			n = sp->getName( ).str( );
		}
		std::string f = l->getFilename( ).str( );
		if( f.find( "/daw/" ) != std::string::npos || f.find( "drivers" ) != std::string::npos ) {
			auto p = f.rfind( "include/daw/" );
			if( p != std::string::npos ) {
				f = f.substr( p );
			} else {
				p = f.rfind( '/' );
				if( p != std::string::npos ) {
					f = f.substr( p + 1 );
				}
			}
			out += ( out.empty( ) ? "" : " <- " ) + f + ":" + std::to_string( l->getLine( ) ) + " " + n;
		}
	}
	return out;
}

class Interp {
	Function &F;
	DataLayout const &DL;
	DominatorTree DT;
	LoopInfo LI;
	Budget bud;
	bool reporting = true;
	int reportDepth = 0;

public:
	std::vector<Finding> findings;
	std::set<std::string> reached; // vs_reach messages reached
	std::set<Instruction const *> failSites;
	bool returned = false;
	long steps = 0;
	long nAccess = 0;

	Interp( Function &f, int ms )
	  : F( f )
	  , DL( f.getParent( )->getDataLayout( ) )
	  , DT( f )
	  , LI( DT ) {
		bud.end = Budget::now( ) + ms;
		computeLiveness( );
	}
	std::map<BasicBlock const *, std::set<Value const *>> liveIn;
	void computeLiveness( ) {
		std::vector<BasicBlock *> po;
		for( auto *B : post_order( &F ) ) {
			po.push_back( B );
		}
		std::map<BasicBlock const *, std::set<Value const *>> gen, def;
		for( auto *B : po ) {
			auto &g = gen[B];
			auto &d = def[B];
			for( auto &I : *B ) {
				if( isa<DbgInfoIntrinsic>( &I ) ) {
					continue;
				}
				if( !isa<PHINode>( &I ) ) {
					for( Value *O : I.operands( ) ) {
						if( ( isa<Instruction>( O ) || isa<Argument>( O ) ) && !d.count( O ) ) {
							g.insert( O );
						}
					}
				}
				d.insert( &I );
			}
		}
		bool ch = true;
		while( ch ) {
			ch = false;
			for( auto *B : po ) {
				std::set<Value const *> in = gen[B];
				for( auto *Sc : successors( B ) ) {
					for( Value const *v : liveIn[Sc] ) {
						if( !def[B].count( v ) ) {
							in.insert( v );
						}
					}
					for( auto &P : Sc->phis( ) ) {
						Value *v = P.getIncomingValueForBlock( B );
						if( ( isa<Instruction>( v ) || isa<Argument>( v ) ) && !def[B].count( v ) ) {
							in.insert( v );
						}
					}
				}
				auto &cur = liveIn[B];
				if( in.size( ) != cur.size( ) ) {
					cur = std::move( in );
					ch = true;
				}
			}
		}
	}
	static void valAtoms( Val const &v, std::set<Atom> &out ) {
		if( v.k == Val::Num ) {
			for( auto const &t : v.n.t ) {
				out.insert( t.first );
			}
		} else if( v.k == Val::Bool ) {
			for( auto const &t : v.b.e.t ) {
				out.insert( t.first );
			}
		}
		for( auto const &x : v.a ) {
			valAtoms( x, out );
		}
	}
	// forget what the rest of the function cannot observe
	void prune( State &S, BasicBlock const *to, std::set<Atom> const *keep = nullptr ) {
		auto const &live = liveIn[to];
		for( auto it = S.env.begin( ); it != S.env.end( ); ) {
			bool ok = live.count( it->first );
			if( !ok ) {
				if( auto *P = dyn_cast<PHINode>( it->first ) ) {
					ok = P->getParent( ) == to && !P->use_empty( );
				}
			}
			it = ok ? std::next( it ) : S.env.erase( it );
		}
		std::set<Atom> root = keepAtoms;
		if( keep ) {
			root.insert( keep->begin( ), keep->end( ) );
		}
		for( auto const &y : S.watch ) {
			for( auto const &t : y.p.t ) {
				root.insert( t.first );
			}
			for( auto const &t : y.v.t ) {
				root.insert( t.first );
			}
		}
		for( auto const &e : S.env ) {
			valAtoms( e.second, root );
		}
		// memory: objects nobody can name any more
		{
			std::set<Atom> vis = root;
			bool ch = true;
			std::vector<char> taken;
			auto visible = [&]( Atom b ) { return vis.count( b ) || !Identified.count( b ) || S.escaped.count( b ) || globalBase.count( b ); };
			std::set<Atom> bases;
			while( ch ) {
				ch = false;
				for( auto const &m : S.mem ) {
					if( visible( m.first.base ) && ( bases.insert( m.first.base ).second || true ) ) {
						for( auto const &t : m.second.t ) {
							if( vis.insert( t.first ).second ) {
								ch = true;
							}
						}
					}
				}
			}
			std::vector<char> kept( S.sym.size( ), 0 );
			for( bool more = true; more; ) {
				more = false;
				for( size_t i = 0; i < S.sym.size( ); ++i ) {
					if( kept[i] ) {
						continue;
					}
					// only useful while the address can be formed again
					bool ok = true;
					for( int round = 0; round < 4; ++round ) {
						Atom dead = -1;
						for( auto const &t : S.sym[i].p.t ) {
							if( !vis.count( t.first ) ) {
								dead = t.first;
								break;
							}
						}
						ok = dead < 0;
						if( ok ) {
							break;
						}
						// rewrite the address over the surviving unknowns
						bool sub = false;
						for( auto const &f : S.facts ) {
							i128 c = 0;
							bool rest = true;
							for( auto const &t : f.t ) {
								if( t.first == dead ) {
									c = t.second;
								} else {
									rest = rest && vis.count( t.first );
								}
							}
							if( ( c != 1 && c != -1 ) || !rest ) {
								continue;
							}
							LE nf = f.neg( );
							bool eq = false;
							for( auto const &g : S.facts ) {
								if( g.t == nf.t && g.c <= nf.c ) {
									eq = g.c == nf.c;
									break;
								}
							}
							if( !eq ) {
								continue;
							}
							// c*dead + rest == 0
							LE r = f.add( LE::atom( dead ), -c );
							i128 k0 = 0;
							for( auto const &t : S.sym[i].p.t ) {
								if( t.first == dead ) {
									k0 = t.second;
								}
							}
							LE np = S.sym[i].p.add( LE::atom( dead ), -k0 ).add( r, -c * k0 );
							S.sym[i].p = np;
							sub = true;
							break;
						}
						if( !sub ) {
							break;
						}
					}
					if( ok ) {
						kept[i] = 1;
						more = true;
						for( auto const &t : S.sym[i].v.t ) {
							vis.insert( t.first );
						}
					}
				}
			}
			for( size_t i = S.sym.size( ); i-- > 0; ) {
				if( !kept[i] ) {
					S.sym.erase( S.sym.begin( ) + static_cast<std::ptrdiff_t>( i ) );
				}
			}
			for( auto it = S.mem.begin( ); it != S.mem.end( ); ) {
				it = visible( it->first.base ) ? std::next( it ) : S.mem.erase( it );
			}
			for( auto it = S.regions.begin( ); it != S.regions.end( ); ) {
				it = visible( it->first ) ? std::next( it ) : S.regions.erase( it );
			}
			root.swap( vis );
		}
		for( auto const &r : S.regions ) {
			root.insert( r.first );
			for( auto const &t : r.second.start.t ) {
				root.insert( t.first );
			}
			for( auto const &t : r.second.bytes.t ) {
				root.insert( t.first );
			}
		}
		projectFacts( S.facts, root );
	}
	std::set<BasicBlock *> heapLoops; // allocate or release in the body
	void reportLater( State const &S, BasicBlock *H ) {
		report( S, "access", "allocations and releases of a loop do not balance", H->getTerminator( ) );
	}
	std::set<Atom> keepAtoms; // loop header unknowns of the enclosing loops
	std::set<Atom> globalBase;
	static void projectFacts( std::vector<LE> &facts, std::set<Atom> const &root ) {
		// connected components without a root say nothing about the rest
		std::set<Atom> con = root;
		bool ch = true;
		while( ch ) {
			ch = false;
			for( auto const &f : facts ) {
				bool t = false;
				for( auto const &p : f.t ) {
					t = t || con.count( p.first );
				}
				if( t ) {
					for( auto const &p : f.t ) {
						ch = con.insert( p.first ).second || ch;
					}
				}
			}
		}
		std::set<Atom> dead;
		std::vector<LE> nf;
		for( auto &f : facts ) {
			if( f.t.empty( ) ) {
				continue;
			}
			if( con.count( f.t[0].first ) ) {
				for( auto const &p : f.t ) {
					if( !root.count( p.first ) ) {
						dead.insert( p.first );
					}
				}
				nf.push_back( std::move( f ) );
			}
		}
		facts.swap( nf );
		bool prog = true;
		while( prog && !dead.empty( ) ) {
			prog = false;
			for( auto it = dead.begin( ); it != dead.end( ); ) {
				Atom a = *it;
				std::vector<LE> pos, neg;
				bool unit = true;
				for( auto const &f : facts ) {
					i128 c = f.coef( a );
					if( c > 0 ) {
						pos.push_back( f );
					} else if( c < 0 ) {
						neg.push_back( f );
					}
					if( iabs( c ) > 1 ) {
						unit = false;
					}
				}
				if( pos.empty( ) && neg.empty( ) ) {
					it = dead.erase( it );
					continue;
				}
				pos.push_back( LE::atom( a ).plus( -Atoms[static_cast<size_t>( a )].lo ) );
				neg.push_back( LE::atom( a ).neg( ).plus( Atoms[static_cast<size_t>( a )].hi ) );
				size_t before = pos.size( ) + neg.size( ) - 2;
				if( !unit || ( pos.size( ) - 1 ) * ( neg.size( ) - 1 ) > before + 1 ) {
					++it;
					continue;
				}
				std::vector<LE> out;
				for( auto const &f : facts ) {
					if( f.coef( a ) == 0 ) {
						out.push_back( f );
					}
				}
				for( size_t i = 0; i < pos.size( ); ++i ) {
					for( size_t j = 0; j < neg.size( ); ++j ) {
						LE r = pos[i].add( neg[j] );
						normalise( r );
						if( r.t.empty( ) ) {
							continue;
						}
						// implied by the intervals alone?
						i128 lo = r.c;
						for( auto const &p : r.t ) {
							lo += p.second > 0 ? p.second * Atoms[static_cast<size_t>( p.first )].lo : p.second * Atoms[static_cast<size_t>( p.first )].hi;
						}
						if( lo >= 0 ) {
							continue;
						}
						bool dup = false;
						for( auto &o : out ) {
							if( o.t == r.t ) {
								dup = true;
								if( r.c < o.c ) {
									o.c = r.c;
								}
							}
						}
						if( !dup ) {
							out.push_back( r );
						}
					}
				}
				facts.swap( out );
				it = dead.erase( it );
				prog = true;
			}
		}
	}
	static bool sameVal( Val const &a, Val const &b ) {
		if( a.k != b.k ) {
			return false;
		}
		switch( a.k ) {
		case Val::Num:
			return a.n == b.n;
		case Val::Bool:
			return a.b.kind == b.b.kind && a.b.e == b.b.e;
		case Val::Agg:
			if( a.a.size( ) != b.a.size( ) ) {
				return false;
			}
			for( size_t i = 0; i < a.a.size( ); ++i ) {
				if( !sameVal( a.a[i], b.a[i] ) ) {
					return false;
				}
			}
			return true;
		default:
			return true;
		}
	}
	// A covers B: same values, A's facts are all implied by B's
	static bool covers( State const &A, State const &B ) {
		if( A.env.size( ) != B.env.size( ) || A.mem.size( ) > B.mem.size( ) || A.regions.size( ) != B.regions.size( ) || A.watch.size( ) != B.watch.size( ) || A.heap != B.heap || A.heapLost != B.heapLost ) {
			return false;
		}
		for( auto i = A.env.begin( ), j = B.env.begin( ); i != A.env.end( ); ++i, ++j ) {
			if( i->first != j->first || !sameVal( i->second, j->second ) ) {
				return false;
			}
		}
		for( auto const &m : A.mem ) {
			auto it = B.mem.find( m.first );
			if( it == B.mem.end( ) || !( it->second == m.second ) ) {
				return false;
			}
		}
		for( auto const &r : A.regions ) {
			auto it = B.regions.find( r.first );
			if( it == B.regions.end( ) || !( it->second.start == r.second.start ) || !( it->second.bytes == r.second.bytes ) || it->second.writable != r.second.writable ) {
				return false;
			}
		}
		for( auto a : B.escaped ) {
			if( !A.escaped.count( a ) ) {
				return false;
			}
		}
		for( auto const &y : A.sym ) {
			if( std::find( B.sym.begin( ), B.sym.end( ), y ) == B.sym.end( ) ) {
				return false;
			}
		}
		for( auto const &f : A.facts ) {
			bool found = false;
			for( auto const &g : B.facts ) {
				if( f.t == g.t && g.c <= f.c ) {
					found = true;
					break;
				}
			}
			if( !found && !B.entails( f ) ) {
				return false;
			}
		}
		return true;
	}

	unsigned width( Type *T ) const {
		if( T->isPointerTy( ) ) {
			return 64;
		}
		if( auto *I = dyn_cast<IntegerType>( T ) ) {
			return I->getBitWidth( );
		}
		return 0;
	}
	Val fresh( Type *T, std::string nm ) {
		unsigned w = width( T );
		if( w >= 1 && w <= 64 ) {
			return Val::num( LE::atom( newAtom( 0, pow2( w ) - 1, std::move( nm ) ) ) );
		}
		Val v;
		if( auto *ST = dyn_cast<StructType>( T ) ) {
			v.k = Val::Agg;
			for( auto *E : ST->elements( ) ) {
				v.a.push_back( fresh( E, nm ) );
			}
		}
		return v;
	}
	std::map<Value const *, Atom> globalAtoms;
	Atom globalAtom( Value const *V ) {
		auto it = globalAtoms.find( V );
		if( it != globalAtoms.end( ) ) {
			return it->second;
		}
		Atom a = newAtom( 4096, pow2( 47 ), V->hasName( ) ? V->getName( ).str( ) : "g" );
		globalAtoms[V] = a;
		if( isa<GlobalValue>( V ) ) {
			globalBase.insert( a );
		}
		if( isa<GlobalVariable>( V ) || isa<Function>( V ) || isa<AllocaInst>( V ) ) {
			Identified.insert( a );
		}
		// how large the object is
		if( auto *AI = dyn_cast<AllocaInst>( V ) ) {
			if( auto sz = AI->getAllocationSize( DL ) ) {
				objSize[a] = static_cast<i128>( sz->getFixedValue( ) );
			}
		} else if( auto *GV = dyn_cast<GlobalVariable>( V ) ) {
			if( GV->hasDefinitiveInitializer( ) && GV->getValueType( )->isSized( ) ) {
				objSize[a] = static_cast<i128>( DL.getTypeAllocSize( GV->getValueType( ) ).getFixedValue( ) );
			}
		}
		return a;
	}
	std::map<Atom, i128> objSize;
	Val evalConst( State &S, Constant const *C ) {
		if( auto *CI = dyn_cast<ConstantInt>( C ) ) {
			if( CI->getBitWidth( ) <= 64 ) {
				return Val::num( LE::cst( static_cast<i128>( CI->getZExtValue( ) ) ) );
			}
			return Val{ };
		}
		if( isa<ConstantPointerNull>( C ) ) {
			return Val::num( LE::cst( 0 ) );
		}
		if( auto *GV = dyn_cast<GlobalValue>( C ) ) {
			return Val::num( LE::atom( globalAtom( GV ) ) );
		}
		if( auto *CE = dyn_cast<ConstantExpr>( C ) ) {
			if( CE->getOpcode( ) == Instruction::IntToPtr || CE->getOpcode( ) == Instruction::PtrToInt || CE->getOpcode( ) == Instruction::BitCast ) {
				unsigned ow = width( CE->getOperand( 0 )->getType( ) ), nw = width( CE->getType( ) );
				if( ow && ow <= 64 && nw >= ow ) {
					return evalConst( S, CE->getOperand( 0 ) );
				}
			}
			if( CE->getOpcode( ) == Instruction::ICmp ) {
				Val a = evalConst( S, CE->getOperand( 0 ) ), b = evalConst( S, CE->getOperand( 1 ) );
				if( a.k == Val::Num && b.k == Val::Num ) {
					return cmp( S, static_cast<CmpInst::Predicate>( CE->getPredicate( ) ), a.n, b.n );
				}
			}
			if( auto *G = dyn_cast<GEPOperator>( CE ) ) {
				Val b = evalConst( S, cast<Constant>( G->getPointerOperand( ) ) );
				APInt off( 64, 0 );
				if( b.k == Val::Num && G->accumulateConstantOffset( DL, off ) ) {
					return Val::num( b.n.plus( off.getSExtValue( ) ) );
				}
			}
		}
		if( auto *CS = dyn_cast<ConstantStruct>( C ) ) {
			Val v;
			v.k = Val::Agg;
			for( unsigned i = 0; i < CS->getNumOperands( ); ++i ) {
				v.a.push_back( evalConst( S, CS->getOperand( i ) ) );
			}
			return v;
		}
		if( isa<UndefValue>( C ) || C->isNullValue( ) ) {
			bool und = isa<UndefValue>( C );
			if( auto *ST = dyn_cast<StructType>( C->getType( ) ) ) {
				Val v;
				v.k = Val::Agg;
				for( auto *E : ST->elements( ) ) {
					unsigned w = width( E );
					if( und ) {
						v.a.push_back( fresh( E, "undef" ) );
					} else {
						v.a.push_back( w ? Val::num( LE::cst( 0 ) ) : Val{ } );
					}
				}
				return v;
			}
			if( und ) {
				return fresh( C->getType( ), "undef" );
			}
		}
		return fresh( C->getType( ), "const" );
	}
	Val eval( State &S, Value const *V ) {
		if( auto *C = dyn_cast<Constant>( V ) ) {
			return evalConst( S, C );
		}
		auto it = S.env.find( V );
		if( it != S.env.end( ) ) {
			return it->second;
		}
		Val v = fresh( V->getType( ), V->hasName( ) ? V->getName( ).str( ) : "v" );
		S.env[V] = v;
		return v;
	}
	// assume boolean; may split
	void assumeBool( State S, Val const &v, bool want, States &out ) {
		if( v.k == Val::Num ) {
			LE g = want ? v.n.plus( -1 ) : v.n.neg( );
			if( S.assumeGe( g ) ) {
				out.push_back( std::move( S ) );
			}
			return;
		}
		if( v.k == Val::Bool ) {
			int kind = v.b.kind;
			LE const &e = v.b.e;
			if( kind == 2 ) {
				if( S.assumeGe( want ? e : e.neg( ).plus( -1 ) ) ) {
					out.push_back( std::move( S ) );
				}
				return;
			}
			bool eq = ( kind == 0 ) == want;
			if( eq ) {
				if( S.assumeGe( e ) && S.assumeGe( e.neg( ) ) ) {
					out.push_back( std::move( S ) );
				}
			} else {
				if( e.isConst( ) ) {
					if( e.c != 0 ) {
						out.push_back( std::move( S ) );
					}
					return;
				}
				State S2 = S;
				if( S.assumeGe( e.plus( -1 ) ) ) {
					out.push_back( std::move( S ) );
				}
				if( S2.assumeGe( e.neg( ).plus( -1 ) ) ) {
					out.push_back( std::move( S2 ) );
				}
			}
			return;
		}
		out.push_back( std::move( S ) );
	}
	// force a value to be a linear expression (splits on lazy booleans)
	void forceNum( State S, Val const &v, Type *T, std::function<void( State, LE )> k ) {
		if( v.k == Val::Num ) {
			k( std::move( S ), v.n );
			return;
		}
		if( v.k == Val::Bool ) {
			States a, b;
			assumeBool( S, v, true, a );
			assumeBool( std::move( S ), v, false, b );
			for( auto &s : a ) {
				k( std::move( s ), LE::cst( 1 ) );
			}
			for( auto &s : b ) {
				k( std::move( s ), LE::cst( 0 ) );
			}
			return;
		}
		Val f = fresh( T, "unk" );
		if( f.k == Val::Num ) {
			k( std::move( S ), f.n );
		} else {
			k( std::move( S ), LE::atom( newAtom( 0, pow2( 64 ) - 1, "wide" ) ) );
		}
	}
	// reduce an expression into [0,2^w)
	void wrap( State S, LE e, unsigned w, std::function<void( State, LE )> k ) {
		i128 M = pow2( w );
		if( e.isConst( ) ) {
			i128 v = e.c % M;
			if( v < 0 ) {
				v += M;
			}
			k( std::move( S ), LE::cst( v ) );
			return;
		}
		bool lo = S.entails( e );
		bool hi = S.entails( e.neg( ).plus( M - 1 ) );
		if( lo && hi ) {
			k( std::move( S ), std::move( e ) );
			return;
		}
		// at most one wrap each side?
		bool lo1 = lo || S.entails( e.plus( M ) );
		bool hi1 = hi || S.entails( e.neg( ).plus( 2 * M - 1 ) );
		if( lo1 && hi1 ) {
			{
				State s = S;
				if( s.assumeGe( e ) && s.assumeGe( e.neg( ).plus( M - 1 ) ) ) {
					k( std::move( s ), e );
				}
			}
			if( !lo ) {
				State s = S;
				if( s.assumeGe( e.neg( ).plus( -1 ) ) ) {
					k( std::move( s ), e.plus( M ) );
				}
			}
			if( !hi ) {
				State s = S;
				if( s.assumeGe( e.plus( -M ) ) ) {
					k( std::move( s ), e.plus( -M ) );
				}
			}
			return;
		}
		k( std::move( S ), LE::atom( newAtom( 0, M - 1, "wrap" ) ) );
	}
	// c times a, where a may stand for a negative number
	void times( State S, LE const &a, i128 c, unsigned w, std::function<void( State, LE )> k ) {
		i128 M = pow2( w );
		LE e = a.mul( c );
		auto near = [M]( State const &s, LE const &x ) { return s.entails( x.plus( M ) ) && s.entails( x.neg( ).plus( 2 * M - 1 ) ); };
		if( !a.isConst( ) && !near( S, e ) ) {
			std::vector<std::pair<State, LE>> parts;
			bool all = true;
			toSigned( S, a, w, [&]( State s, LE x ) {
				x = x.mul( c );
				all = all && near( s, x );
				parts.push_back( { std::move( s ), std::move( x ) } );
			} );
			if( all ) {
				for( auto &p : parts ) {
					wrap( std::move( p.first ), p.second, w, k );
				}
				return;
			}
		}
		wrap( std::move( S ), std::move( e ), w, std::move( k ) );
	}
	// signed view of e in [0,2^w)
	void toSigned( State S, LE e, unsigned w, std::function<void( State, LE )> k ) {
		i128 H = pow2( w - 1 );
		if( S.entails( e.neg( ).plus( H - 1 ) ) ) {
			k( std::move( S ), e );
			return;
		}
		if( S.entails( e.plus( -H ) ) ) {
			k( std::move( S ), e.plus( -2 * H ) );
			return;
		}
		State s2 = S;
		if( S.assumeGe( e.neg( ).plus( H - 1 ) ) ) {
			k( std::move( S ), e );
		}
		if( s2.assumeGe( e.plus( -H ) ) ) {
			k( std::move( s2 ), e.plus( -2 * H ) );
		}
	}
	void divmod( State S, LE e, i128 d, std::function<void( State, LE, LE )> k ) {
		// e >= 0
		if( d == 1 ) {
			k( std::move( S ), e, LE::cst( 0 ) );
			return;
		}
		if( e.isConst( ) ) {
			k( std::move( S ), LE::cst( e.c / d ), LE::cst( e.c % d ) );
			return;
		}
		if( S.entails( e.neg( ).plus( d - 1 ) ) ) {
			k( std::move( S ), LE::cst( 0 ), e );
			return;
		}
		bool divisible = e.c % d == 0;
		for( auto const &p : e.t ) {
			if( p.second % d != 0 ) {
				divisible = false;
			}
		}
		if( divisible ) {
			LE q;
			q.c = e.c / d;
			for( auto const &p : e.t ) {
				q.t.push_back( { p.first, p.second / d } );
			}
			k( std::move( S ), q, LE::cst( 0 ) );
			return;
		}
		// small quotient: split exactly
		i128 hi = e.c;
		for( auto const &p : e.t ) {
			hi += p.second > 0 ? p.second * Atoms[p.first].hi : p.second * Atoms[p.first].lo;
		}
		if( hi / d <= 1 || S.entails( e.neg( ).plus( 2 * d - 1 ) ) ) {
			State s2 = S;
			if( S.assumeGe( e.neg( ).plus( d - 1 ) ) ) {
				k( std::move( S ), LE::cst( 0 ), e );
			}
			if( s2.assumeGe( e.plus( -d ) ) ) {
				k( std::move( s2 ), LE::cst( 1 ), e.plus( -d ) );
			}
			return;
		}
		// reuse a previous decomposition of the same expression
		Atom q = newAtom( 0, hi / d, "quot" );
		LE r = e.add( LE::atom( q ), -d );
		if( S.assumeGe( r ) && S.assumeGe( r.neg( ).plus( d - 1 ) ) ) {
			k( std::move( S ), LE::atom( q ), r );
		}
	}

	//--- memory -------------------------------------------------------------
	// split pointer expression into base atom and remaining offset
	bool baseOf( LE const &p, Atom &base, LE &off, State const &S ) {
		// choose an atom with coefficient 1 that is a region base or identified
		Atom best = -1;
		for( auto const &t : p.t ) {
			if( t.second == 1 && ( S.regions.count( t.first ) || Identified.count( t.first ) ) ) {
				if( best >= 0 ) {
					return false;
				}
				best = t.first;
			}
		}
		if( best < 0 ) {
			int n = 0;
			for( auto const &t : p.t ) {
				if( t.second == 1 && Atoms[t.first].hi > pow2( 32 ) ) {
					best = t.first;
					++n;
				}
			}
			if( n != 1 || p.t.size( ) != 1 ) {
				return false;
			}
		}
		base = best;
		off = p.add( LE::atom( best ), -1 );
		return true;
	}
	void checkAccess( State &S, LE const &p, LE const &bytes, bool write, Instruction const *I ) {
		Atom b;
		LE off;
		if( !baseOf( p, b, off, S ) ) {
			return;
		}
		auto it = S.regions.find( b );
		if( it == S.regions.end( ) ) {
			auto o = objSize.find( b );
			if( o == objSize.end( ) || ( bytes.isConst( ) && bytes.c == 0 ) || ( S.entails( off ) && S.entails( off.add( bytes ).neg( ).plus( o->second ) ) ) ) {
				return;
			}
			State z = S;
			if( !bytes.isConst( ) && ( !z.assumeGe( bytes.plus( -1 ) ) || ( z.entails( off ) && z.entails( off.add( bytes ).neg( ).plus( o->second ) ) ) ) ) {
				return;
			}
			if( Verbose ) {
				errs( ) << "OBJECT access fail off=" << les( off ) << " bytes=" << les( bytes ) << " size=" << static_cast<long>( o->second ) << "\n";
				for( auto &f : S.facts )
					errs( ) << "   " << les( f ) << " >= 0\n";
			}
			report( S, "access", write ? "write outside the object" : "read outside the object", I );
			return;
		}
		if( reporting ) {
			++nAccess;
		}
		LE lo = p.add( it->second.start, -1 );
		LE hi = it->second.start.add( it->second.bytes ).add( p, -1 ).add( bytes, -1 );
		if( write && !it->second.writable ) {
			report( S, "access", "write to read-only storage", I );
			return;
		}
		if( bytes.isConst( ) && bytes.c == 0 ) {
			return;
		}
		if( !S.entails( lo ) || !S.entails( hi ) ) {
			// zero-length block operations touch nothing
			if( !bytes.isConst( ) ) {
				State z = S;
				if( z.assumeGe( bytes.plus( -1 ) ) ) {
					if( z.entails( lo ) && z.entails( hi ) ) {
						return;
					}
				} else {
					return;
				}
			}
			if( Verbose ) {
				errs( ) << "ACCESS fail p=" << les( p ) << " start=" << les( it->second.start ) << " bytes=" << les( it->second.bytes ) << "\n";
				for( auto &f : S.facts )
					errs( ) << "   " << les( f ) << " >= 0\n";
			}
			report( S, "access", write ? "write outside the permitted storage" : "read outside the permitted storage", I );
		}
	}
	bool mayAlias( State const &S, Atom a, Atom b ) {
		if( a == b ) {
			return true;
		}
		bool ia = Identified.count( a ), ib = Identified.count( b );
		if( ia && ib ) {
			return false;
		}
		if( ia && !S.escaped.count( a ) ) {
			return false;
		}
		if( ib && !S.escaped.count( b ) ) {
			return false;
		}
		if( S.regions.count( a ) && S.regions.count( b ) ) {
			return false; // drivers declare disjoint storage
		}
		return true;
	}
	// addr/len describe the written range when known (len < 0: unknown length)
	void clobber( State &S, bool known, Atom base, bool konst, i128 off, i128 size, LE const *addr = nullptr, LE const *len = nullptr ) {
		auto disjoint = [&]( LE const &p, i128 n ) {
			if( !addr || !len ) {
				return false;
			}
			return S.entails( addr->add( p, -1 ).plus( -n ) ) || S.entails( p.add( *addr, -1 ).add( *len, -1 ) );
		};
		auto immutable = [&]( Atom b ) {
			auto it = S.regions.find( b );
			return it != S.regions.end( ) && !it->second.writable;
		};
		if( known && immutable( base ) ) {
			return; // already reported as a forbidden write
		}
		for( size_t i = S.sym.size( ); i-- > 0; ) {
			Atom b;
			LE o;
			bool kill = true;
			if( baseOf( S.sym[i].p, b, o, S ) ) {
				if( immutable( b ) ) {
					continue;
				}
				if( !known ) {
					kill = isEscaped( S, b );
				} else if( b == base ) {
					kill = !disjoint( S.sym[i].p, S.sym[i].size );
				} else {
					kill = mayAlias( S, b, base );
				}
			}
			if( kill ) {
				S.sym.erase( S.sym.begin( ) + static_cast<std::ptrdiff_t>( i ) );
			}
		}
		for( auto it = S.mem.begin( ); it != S.mem.end( ); ) {
			bool kill;
			if( immutable( it->first.base ) ) {
				kill = false;
			} else if( !known ) {
				kill = !Identified.count( it->first.base ) || S.escaped.count( it->first.base );
			} else if( it->first.base == base ) {
				if( konst ) {
					kill = !( off + size <= it->first.off || it->first.off + it->first.size <= off );
				} else {
					kill = !disjoint( LE::atom( base ).plus( it->first.off ), it->first.size );
				}
			} else {
				kill = mayAlias( S, it->first.base, base );
			}
			if( kill ) {
				it = S.mem.erase( it );
			} else {
				++it;
			}
		}
	}
	void escapeExpr( State &S, LE const &e ) {
		for( auto const &t : e.t ) {
			if( Identified.count( t.first ) && S.escaped.insert( t.first ).second ) {
				// everything reachable from it escapes as well
				std::vector<LE> vals;
				for( auto const &m : S.mem ) {
					if( m.first.base == t.first ) {
						vals.push_back( m.second );
					}
				}
				for( auto const &v : vals ) {
					escapeExpr( S, v );
				}
			}
		}
	}
	void escapeVal( State &S, Val const &v ) {
		if( v.k == Val::Num ) {
			escapeExpr( S, v.n );
		}
		for( auto const &x : v.a ) {
			escapeVal( S, x );
		}
	}
	bool isEscaped( State const &S, Atom b ) const {
		return !Identified.count( b ) || S.escaped.count( b );
	}
	// addresses the driver has named: contents stored there are kept under that name
	std::vector<LE> names;
	void store( State &S, LE const &p0, Val const &v, unsigned size, Instruction const *I ) {
		LE p = p0;
		for( auto const &nm : names ) {
			LE d = p.add( nm, -1 );
			if( !d.isConst( ) && S.entailsEq( d ) ) {
				p = nm;
				break;
			}
		}
		checkAccess( S, p, LE::cst( size ), true, I );
		Atom b;
		LE off;
		if( !baseOf( p, b, off, S ) ) {
			clobber( S, false, 0, false, 0, 0 );
			if( v.k == Val::Num ) {
				escapeExpr( S, v.n );
			}
			return;
		}
		bool kc = off.isConst( );
		LE const len = LE::cst( size );
		clobber( S, true, b, kc, kc ? off.c : 0, size, &p, &len );
		if( isEscaped( S, b ) ) {
			escapeVal( S, v );
		}
		if( kc && v.k == Val::Num ) {
			S.mem[Cell{ b, off.c, size }] = v.n;
		} else if( v.k == Val::Num ) {
			if( S.sym.size( ) >= 24 ) {
				S.sym.erase( S.sym.begin( ) );
			}
			S.sym.push_back( { p, size, v.n } );
		}
	}
	// is the accessed element the watched one, before it, or behind it?
	void splitWatch( State S, LE const &p, unsigned size, size_t i, std::function<void( State )> const &k ) {
		for( ; i < S.watch.size( ); ++i ) {
			auto const y = S.watch[i];
			if( y.size != size ) {
				continue;
			}
			LE d = p.add( y.p, -1 );
			if( d.isConst( ) ) {
				continue;
			}
			Atom b1, b2;
			LE o1, o2;
			if( !baseOf( p, b1, o1, S ) || !baseOf( y.p, b2, o2, S ) || b1 != b2 ) {
				continue;
			}
			if( S.entails( d.plus( -1 ) ) || S.entails( d.neg( ).plus( -1 ) ) ) {
				continue;
			}
			State lo = S, hi = S;
			if( lo.assumeGe( d.neg( ).plus( -1 ) ) ) {
				splitWatch( std::move( lo ), p, size, i + 1, k );
			}
			if( hi.assumeGe( d.plus( -1 ) ) ) {
				splitWatch( std::move( hi ), p, size, i + 1, k );
			}
			if( !S.assumeGe( d ) || !S.assumeGe( d.neg( ) ) ) {
				return;
			}
		}
		k( std::move( S ) );
	}
	// not( lo <= w < hi and value == c )
	void notIn( State S, LE const &w, LE const &lo, LE const &hi, LE const &v, LE const &c, std::function<void( State )> const &k ) {
		State a = S, b = S, x = S;
		if( a.assumeGe( lo.add( w, -1 ).plus( -1 ) ) ) {
			k( std::move( a ) );
		}
		if( b.assumeGe( w.add( lo, -1 ) ) && b.assumeGe( w.add( hi, -1 ) ) ) {
			k( std::move( b ) );
		}
		if( x.assumeGe( w.add( lo, -1 ) ) && x.assumeGe( hi.add( w, -1 ).plus( -1 ) ) ) {
			State y = x;
			if( x.assumeGe( v.add( c, -1 ).plus( -1 ) ) ) {
				k( std::move( x ) );
			}
			if( y.assumeGe( c.add( v, -1 ).plus( -1 ) ) ) {
				k( std::move( y ) );
			}
		}
	}
	// no watched byte of [lo, hi) has the value c
	void noWatched( State S, LE const &lo, LE const &hi, LE const &c, size_t i, std::function<void( State )> const &k ) {
		if( i >= S.watch.size( ) ) {
			k( std::move( S ) );
			return;
		}
		auto const y = S.watch[i];
		if( y.size != 1 || y.rw ) {
			noWatched( std::move( S ), lo, hi, c, i + 1, k );
			return;
		}
		notIn( std::move( S ), y.p, lo, hi, y.v, c, [&]( State s ) { noWatched( std::move( s ), lo, hi, c, i + 1, k ); } );
	}
	// [p, p+n) and [q, q+n) hold the same bytes: transfer what is known about watched ones
	void sameBytes( State S, LE const &p, LE const &q, LE const &n, size_t i, std::function<void( State )> const &k ) {
		if( i >= 2 * S.watch.size( ) ) {
			k( std::move( S ) );
			return;
		}
		auto const y = S.watch[i / 2];
		if( y.rw ) {
			sameBytes( std::move( S ), p, q, n, i + 1, k );
			return;
		}
		LE const &f = i % 2 ? q : p;
		LE const &o = i % 2 ? p : q;
		State a = S, b = S;
		if( a.assumeGe( f.add( y.p, -1 ).plus( -1 ) ) ) {
			sameBytes( std::move( a ), p, q, n, i + 1, k );
		}
		if( b.assumeGe( y.p.add( f, -1 ).add( n, -1 ).plus( y.size - 1 ) ) ) {
			sameBytes( std::move( b ), p, q, n, i + 1, k );
		}
		if( !S.assumeGe( y.p.add( f, -1 ) ) || !S.assumeGe( f.add( n ).add( y.p, -1 ).plus( -static_cast<i128>( y.size ) ) ) ) {
			return;
		}
		LE at = o.add( y.p ).add( f, -1 );
		for( auto const &z : S.watch ) {
			if( !z.rw && z.size == y.size && ( z.p == at || S.entailsEq( z.p.add( at, -1 ) ) ) ) {
				LE d = z.v.add( y.v, -1 );
				if( !S.assumeGe( d ) || !S.assumeGe( d.neg( ) ) ) {
					return;
				}
				sameBytes( std::move( S ), p, q, n, i + 1, k );
				return;
			}
		}
		for( auto const &z : S.sym ) {
			if( !z.rw && z.size == y.size && ( z.p == at || S.entailsEq( z.p.add( at, -1 ) ) ) ) {
				LE d = z.v.add( y.v, -1 );
				if( !S.assumeGe( d ) || !S.assumeGe( d.neg( ) ) ) {
					return;
				}
				sameBytes( std::move( S ), p, q, n, i + 1, k );
				return;
			}
		}
		Atom bb;
		LE oo;
		if( S.sym.size( ) < 24 && baseOf( at, bb, oo, S ) && !oo.isConst( ) ) {
			S.sym.push_back( { at, y.size, y.v } );
		}
		sameBytes( std::move( S ), p, q, n, i + 1, k );
	}
	Val load( State &S, LE const &p, Type *T, unsigned size, Instruction const *I ) {
		checkAccess( S, p, LE::cst( size ), false, I );
		Atom b;
		LE off;
		if( width( T ) == 0 || width( T ) > 64 ) {
			return fresh( T, "ld" );
		}
		if( !baseOf( p, b, off, S ) ) {
			return fresh( T, "ld" );
		}
		if( width( T ) == 8 * size ) {
			for( auto const &y : S.watch ) {
				if( !y.rw && y.size == size && ( y.p == p || S.entailsEq( y.p.add( p, -1 ) ) ) ) {
					return Val::num( y.v );
				}
			}
			for( size_t i = S.sym.size( ); i-- > 0; ) {
				if( S.sym[i].size == size && ( S.sym[i].p == p || S.entailsEq( S.sym[i].p.add( p, -1 ) ) ) ) {
					return Val::num( S.sym[i].v );
				}
			}
			if( !off.isConst( ) ) {
				for( auto const &m : S.mem ) {
					if( m.first.base == b && m.first.size == size && S.entailsEq( off.plus( -m.first.off ) ) ) {
						return Val::num( m.second );
					}
				}
				Val v = fresh( T, "ld" );
				if( S.sym.size( ) < 24 ) {
					S.sym.push_back( { p, size, v.n } );
				}
				return v;
			}
		}
		if( !off.isConst( ) ) {
			return fresh( T, "ld" );
		}
		Cell c{ b, off.c, size };
		auto it = S.mem.find( c );
		if( it != S.mem.end( ) ) {
			unsigned w = width( T );
			LE e = it->second;
			if( w < 8 * size ) {
				i128 M = pow2( w );
				if( !S.entails( e.neg( ).plus( M - 1 ) ) ) {
					return fresh( T, "ld" );
				}
			}
			return Val::num( e );
		}
		// part of, or put together from, constants that are known
		if( width( T ) == 8 * size ) {
			i128 val = 0;
			unsigned have = 0;
			for( auto const &m : S.mem ) {
				if( m.first.base != b || !m.second.isConst( ) ) {
					continue;
				}
				if( m.first.off <= off.c && off.c + size <= m.first.off + m.first.size ) {
					return Val::num( LE::cst( ( m.second.c >> ( 8 * static_cast<int>( off.c - m.first.off ) ) ) & ( pow2( static_cast<int>( 8 * size ) ) - 1 ) ) );
				}
				if( m.first.off == off.c + have && have + m.first.size <= size ) {
					val += m.second.c << ( 8 * have );
					have += m.first.size;
				}
			}
			if( have == size ) {
				return Val::num( LE::cst( val ) );
			}
		}
		// constant global initialiser
		for( auto const &g : globalAtoms ) {
			if( g.second == b ) {
				if( auto *GV = dyn_cast<GlobalVariable>( g.first ) ) {
					if( GV->isConstant( ) && GV->hasDefinitiveInitializer( ) ) {
						if( auto *C = ConstantFoldLoadFromConst( GV, T, off.c ) ) {
							return evalConst( S, C );
						}
					}
				}
				break;
			}
		}
		Val v = fresh( T, "ld" );
		if( v.k == Val::Num ) {
			// remember, so that a second load gives the same value
			S.mem[c] = v.n;
		}
		return v;
	}
	// a byte of a constant
	std::optional<i128> constByte( Atom b, i128 off ) {
		for( auto const &g : globalAtoms ) {
			if( g.second == b ) {
				if( auto *GV = dyn_cast<GlobalVariable>( g.first ) ) {
					if( GV->isConstant( ) && GV->hasDefinitiveInitializer( ) ) {
						if( auto *C = dyn_cast_or_null<ConstantInt>( ConstantFoldLoadFromConst( GV, Type::getInt8Ty( GV->getContext( ) ), off ) ) ) {
							return static_cast<i128>( C->getZExtValue( ) );
						}
					}
				}
				break;
			}
		}
		return std::nullopt;
	}
	Constant *ConstantFoldLoadFromConst( GlobalVariable const *GV, Type *T, i128 off );

	//--- reporting ----------------------------------------------------------
	void report( State const &S, std::string kind, std::string msg, Instruction const *I ) {
		if( !reporting ) {
			return;
		}
		Finding f;
		f.kind = kind;
		f.msg = msg;
		f.where = locChain( I );
		for( auto *t = S.trace.get( ); t; t = t->prev.get( ) ) {
			std::string l = locChain( t->br );
			if( !l.empty( ) ) {
				f.path.push_back( l + ( t->which == 0 ? " [true]" : t->which == 1 ? " [false]" : " [unwind/case]" ) );
			}
			if( f.path.size( ) > 40 ) {
				break;
			}
		}
		std::reverse( f.path.begin( ), f.path.end( ) );
		// one report per (kind,msg,where)
		for( auto const &g : findings ) {
			if( g.kind == f.kind && g.msg == f.msg && g.where == f.where ) {
				return;
			}
		}
		findings.push_back( std::move( f ) );
	}

	//--- instruction transfer -------------------------------------------------
	using K = std::function<void( State )>;
	void bind( State S, Instruction const *I, LE e, K const &k ) {
		S.env[I] = Val::num( std::move( e ) );
		k( std::move( S ) );
	}
	static std::string cstr( Value const *V ) {
		V = V->stripPointerCasts( );
		if( auto *GV = dyn_cast<GlobalVariable>( V ) ) {
			if( GV->hasInitializer( ) ) {
				if( auto *CD = dyn_cast<ConstantDataArray>( GV->getInitializer( ) ) ) {
					if( CD->isString( ) ) {
						auto s = CD->getAsString( ).str( );
						while( !s.empty( ) && s.back( ) == 0 ) {
							s.pop_back( );
						}
						return s;
					}
				}
			}
		}
		return "?";
	}
	// the object exists now: its address is nobody else's
	std::set<Atom> everHeap;
	bool live( State const &S, Atom a ) {
		return !everHeap.count( a ) || ( !S.heapLost && S.heap.count( a ) );
	}
	Val cmp( State &S, CmpInst::Predicate P, LE const &a, LE const &b ) {
		LE d = a.add( b, -1 );
		if( ( P == CmpInst::ICMP_EQ || P == CmpInst::ICMP_NE ) && d.c == 0 && d.t.size( ) == 2 && d.t[0].second == -d.t[1].second && ( d.t[0].second == 1 || d.t[0].second == -1 ) && Identified.count( d.t[0].first ) &&
		    Identified.count( d.t[1].first ) && live( S, d.t[0].first ) && live( S, d.t[1].first ) ) {
			return Val::num( LE::cst( P == CmpInst::ICMP_NE ) ); // two objects
		}
		switch( P ) {
		case CmpInst::ICMP_EQ:
			return Val::boolean( 0, d );
		case CmpInst::ICMP_NE:
			return Val::boolean( 1, d );
		case CmpInst::ICMP_UGE:
		case CmpInst::ICMP_SGE:
			return Val::boolean( 2, d );
		case CmpInst::ICMP_UGT:
		case CmpInst::ICMP_SGT:
			return Val::boolean( 2, d.plus( -1 ) );
		case CmpInst::ICMP_ULE:
		case CmpInst::ICMP_SLE:
			return Val::boolean( 2, d.neg( ) );
		default:
			return Val::boolean( 2, d.neg( ).plus( -1 ) );
		}
	}
	Val boolNot( Val v ) {
		if( v.k == Val::Num ) {
			v.n = v.n.neg( ).plus( 1 );
		} else if( v.k == Val::Bool ) {
			if( v.b.kind == 2 ) {
				v.b.e = v.b.e.neg( ).plus( -1 );
			} else {
				v.b.kind = 1 - v.b.kind;
			}
		}
		return v;
	}
	static char allocKind( StringRef N ) {
		if( N == "_Znwm" || N.starts_with( "_ZnwmSt" ) ) {
			return 'n';
		}
		if( N == "_Znam" || N.starts_with( "_ZnamSt" ) ) {
			return 'a';
		}
		return N == "malloc" || N == "calloc" || N == "aligned_alloc" ? 'm' : 0;
	}
	static char freeKind( StringRef N ) {
		if( N.starts_with( "_ZdlPv" ) ) {
			return 'n';
		}
		if( N.starts_with( "_ZdaPv" ) ) {
			return 'a';
		}
		return N == "free" ? 'm' : 0;
	}
	static bool isNew( CallBase const *CB ) {
		auto *F = CB->getCalledFunction( );
		char c = F ? allocKind( F->getName( ) ) : 0;
		return c == 'n' || c == 'a';
	}
	void release( State S, LE const &p, char kind, Instruction *I, K const &k ) {
		if( S.heapLost ) {
			k( std::move( S ) );
			return;
		}
		auto drop = [&]( State s, Atom a ) {
			if( s.heap[a] != kind ) {
				report( s, "access", "storage is released with the wrong function", I );
			}
			s.heap.erase( a );
			// nothing may touch it any more
			if( auto it = s.regions.find( a ); it != s.regions.end( ) ) {
				it->second.bytes = LE::cst( 0 );
			}
			k( std::move( s ) );
		};
		for( auto const &h : S.heap ) {
			LE d = p.add( LE::atom( h.first ), -1 );
			if( d.t.empty( ) && d.c == 0 ) {
				Atom a = h.first;
				drop( std::move( S ), a );
				return;
			}
		}
		State n = S;
		if( n.assumeGe( p.neg( ) ) ) {
			(void)n.assumeGe( p );
			k( std::move( n ) );
		}
		if( !S.assumeGe( p.plus( -1 ) ) ) {
			return;
		}
		for( auto const &h : S.heap ) {
			State s = S;
			LE d = p.add( LE::atom( h.first ), -1 );
			Atom b;
			LE o;
			if( baseOf( p, b, o, S ) && b != h.first && Identified.count( b ) ) {
				continue;
			}
			if( s.assumeGe( d ) && s.assumeGe( d.neg( ) ) ) {
				drop( std::move( s ), h.first );
			}
		}
		report( S, "access", "releases storage that is not allocated", I );
	}
	// returns true when the instruction ends the path
	void exec( State S, Instruction *I, K const &k ) {
		++steps;
		if( steps > BudgetSteps || ( ( steps & 63 ) == 0 && bud.out( ) ) ) {
			throw GiveUp{ };
		}
		if( isa<DbgInfoIntrinsic>( I ) ) {
			k( std::move( S ) );
			return;
		}
		Type *T = I->getType( );
		unsigned w = width( T );
		if( auto *BO = dyn_cast<BinaryOperator>( I ) ) {
			if( w == 0 || w > 64 ) {
				S.env[I] = fresh( T, "bin" );
				k( std::move( S ) );
				return;
			}
			Val va = eval( S, BO->getOperand( 0 ) ), vb = eval( S, BO->getOperand( 1 ) );
			if( w == 1 && BO->getOpcode( ) == Instruction::Xor ) {
				if( vb.k == Val::Num && vb.n.isConst( ) ) {
					S.env[I] = vb.n.c ? boolNot( va ) : va;
					k( std::move( S ) );
					return;
				}
			}
			if( w == 1 && ( BO->getOpcode( ) == Instruction::And || BO->getOpcode( ) == Instruction::Or ) ) {
				// short circuit: only split on what is needed
				bool isAnd = BO->getOpcode( ) == Instruction::And;
				States t, f;
				assumeBool( S, va, true, t );
				assumeBool( std::move( S ), va, false, f );
				for( auto &s : isAnd ? f : t ) {
					s.env[I] = Val::num( LE::cst( isAnd ? 0 : 1 ) );
					k( std::move( s ) );
				}
				for( auto &s : isAnd ? t : f ) {
					s.env[I] = vb;
					k( std::move( s ) );
				}
				return;
			}
			forceNum( std::move( S ), va, T, [&]( State S1, LE a ) {
				forceNum( std::move( S1 ), vb, T, [&]( State S2, LE b ) { binop( std::move( S2 ), BO, a, b, w, k ); } );
			} );
			return;
		}
		if( auto *C = dyn_cast<ICmpInst>( I ) ) {
			unsigned ow = width( C->getOperand( 0 )->getType( ) );
			if( ow == 0 || ow > 64 || w != 1 ) {
				S.env[I] = fresh( T, "cmp" );
				k( std::move( S ) );
				return;
			}
			Val va = eval( S, C->getOperand( 0 ) ), vb = eval( S, C->getOperand( 1 ) );
			auto P = C->getPredicate( );
			forceNum( std::move( S ), va, C->getOperand( 0 )->getType( ), [&]( State S1, LE a ) {
				forceNum( std::move( S1 ), vb, C->getOperand( 1 )->getType( ), [&]( State S2, LE b ) {
					if( C->isSigned( ) ) {
						toSigned( std::move( S2 ), a, ow, [&]( State S3, LE sa ) {
							toSigned( std::move( S3 ), b, ow, [&]( State S4, LE sb ) {
								S4.env[I] = cmp( S4, P, sa, sb );
								k( std::move( S4 ) );
							} );
						} );
					} else {
						S2.env[I] = cmp( S2, P, a, b );
						k( std::move( S2 ) );
					}
				} );
			} );
			return;
		}
		if( auto *SI = dyn_cast<SelectInst>( I ) ) {
			Val c = eval( S, SI->getCondition( ) );
			if( width( SI->getCondition( )->getType( ) ) != 1 ) {
				S.env[I] = fresh( T, "sel" );
				k( std::move( S ) );
				return;
			}
			Val tv = eval( S, SI->getTrueValue( ) ), fv = eval( S, SI->getFalseValue( ) );
			States t, f;
			assumeBool( S, c, true, t );
			assumeBool( std::move( S ), c, false, f );
			for( auto &s : t ) {
				s.env[I] = tv;
				k( std::move( s ) );
			}
			for( auto &s : f ) {
				s.env[I] = fv;
				k( std::move( s ) );
			}
			return;
		}
		if( auto *CI = dyn_cast<CastInst>( I ) ) {
			Value *O = CI->getOperand( 0 );
			unsigned ow = width( O->getType( ) );
			if( w == 0 || ow == 0 || w > 64 || ow > 64 ) {
				S.env[I] = fresh( T, "cast" );
				k( std::move( S ) );
				return;
			}
			Val v = eval( S, O );
			switch( CI->getOpcode( ) ) {
			case Instruction::ZExt:
			case Instruction::PtrToInt:
			case Instruction::IntToPtr:
			case Instruction::BitCast:
			case Instruction::Trunc:
				forceNum( std::move( S ), v, O->getType( ), [&]( State S1, LE e ) {
					if( w < ow ) {
						divmod( std::move( S1 ), e, pow2( w ), [&]( State S2, LE, LE r ) { bind( std::move( S2 ), I, r, k ); } );
					} else {
						bind( std::move( S1 ), I, e, k );
					}
				} );
				return;
			case Instruction::SExt:
				forceNum( std::move( S ), v, O->getType( ), [&]( State S1, LE e ) {
					toSigned( std::move( S1 ), e, ow, [&]( State S2, LE s ) {
						// back to unsigned of width w
						if( S2.entails( s ) ) {
							bind( std::move( S2 ), I, s, k );
						} else {
							bind( std::move( S2 ), I, s.plus( pow2( w ) ), k );
						}
					} );
				} );
				return;
			default:
				S.env[I] = fresh( T, "cast" );
				k( std::move( S ) );
				return;
			}
		}
		if( auto *G = dyn_cast<GetElementPtrInst>( I ) ) {
			gep( std::move( S ), G, k );
			return;
		}
		if( auto *FZ = dyn_cast<FreezeInst>( I ) ) {
			S.env[I] = eval( S, FZ->getOperand( 0 ) );
			k( std::move( S ) );
			return;
		}
		if( auto *L = dyn_cast<LoadInst>( I ) ) {
			Val p = eval( S, L->getPointerOperand( ) );
			if( p.k != Val::Num || L->isVolatile( ) || L->isAtomic( ) ) {
				if( p.k == Val::Num ) {
					checkAccess( S, p.n, LE::cst( static_cast<i128>( DL.getTypeStoreSize( T ) ) ), false, L );
				}
				S.env[I] = fresh( T, "ld" );
				k( std::move( S ) );
				return;
			}
			unsigned sz = static_cast<unsigned>( DL.getTypeStoreSize( T ) );
			splitWatch( std::move( S ), p.n, sz, 0, [&]( State S1 ) {
				S1.env[I] = load( S1, p.n, T, sz, I );
				k( std::move( S1 ) );
			} );
			return;
		}
		if( auto *St = dyn_cast<StoreInst>( I ) ) {
			Val p = eval( S, St->getPointerOperand( ) ), v = eval( S, St->getValueOperand( ) );
			unsigned sz = static_cast<unsigned>( DL.getTypeStoreSize( St->getValueOperand( )->getType( ) ) );
			if( p.k != Val::Num ) {
				clobber( S, false, 0, false, 0, 0 );
				k( std::move( S ) );
				return;
			}
			if( v.k == Val::Bool ) {
				LE pn = p.n;
				forceNum( std::move( S ), v, St->getValueOperand( )->getType( ), [&]( State S1, LE e ) {
					store( S1, pn, Val::num( e ), sz, I );
					k( std::move( S1 ) );
				} );
				return;
			}
			bool rw = false;
			for( auto const &y : S.watch ) {
				rw = rw || y.rw;
			}
			if( rw ) {
				splitWatch( std::move( S ), p.n, sz, 0, [&]( State S1 ) {
					store( S1, p.n, v, sz, I );
					k( std::move( S1 ) );
				} );
				return;
			}
			store( S, p.n, v, sz, I );
			k( std::move( S ) );
			return;
		}
		if( auto *EV = dyn_cast<ExtractValueInst>( I ) ) {
			Val v = eval( S, EV->getAggregateOperand( ) );
			for( unsigned ix : EV->indices( ) ) {
				if( v.k == Val::Agg && ix < v.a.size( ) ) {
					Val n = v.a[ix];
					v = n;
				} else {
					v = Val{ };
				}
			}
			if( v.k == Val::Unk ) {
				v = fresh( T, "ev" );
			}
			S.env[I] = v;
			k( std::move( S ) );
			return;
		}
		if( auto *IV = dyn_cast<InsertValueInst>( I ) ) {
			Val v = eval( S, IV->getAggregateOperand( ) );
			Val x = eval( S, IV->getInsertedValueOperand( ) );
			if( auto *ST = dyn_cast<StructType>( T ); ST && v.k != Val::Agg ) {
				v = Val{ };
				v.k = Val::Agg;
				for( auto *ET : ST->elements( ) ) {
					v.a.push_back( fresh( ET, "iv" ) );
				}
			}
			if( v.k == Val::Agg && IV->getNumIndices( ) == 1 && IV->getIndices( )[0] < v.a.size( ) ) {
				v.a[IV->getIndices( )[0]] = x;
			} else {
				v = fresh( T, "iv" );
			}
			S.env[I] = v;
			k( std::move( S ) );
			return;
		}
		if( auto *AI = dyn_cast<AllocaInst>( I ) ) {
			S.env[I] = Val::num( LE::atom( globalAtom( AI ) ) );
			k( std::move( S ) );
			return;
		}
		if( auto *CB = dyn_cast<CallBase>( I ) ) {
			call( std::move( S ), CB, k );
			return;
		}
		if( isa<FenceInst>( I ) ) {
			k( std::move( S ) );
			return;
		}
		if( I->mayWriteToMemory( ) ) {
			clobber( S, false, 0, false, 0, 0 );
		}
		if( !T->isVoidTy( ) ) {
			S.env[I] = fresh( T, "op" );
		}
		k( std::move( S ) );
	}
	using K2 = std::function<void( State, LE )>;
	// a, b >= 0: identity below b, once around up to 2 b, else r < b and r <= a - 2 b
	void urem( State S, LE a, LE b, i128 M, K2 const &f ) {
		{
			State s = S;
			if( s.assumeGe( b.add( a, -1 ).plus( -1 ) ) ) {
				f( std::move( s ), a );
			}
		}
		if( !S.assumeGe( a.add( b, -1 ) ) ) {
			return;
		}
		{
			State s = S;
			if( s.assumeGe( b.mul( 2 ).add( a, -1 ).plus( -1 ) ) ) {
				f( std::move( s ), a.add( b, -1 ) );
			}
		}
		if( S.assumeGe( a.add( b, -2 ) ) ) {
			Atom r = newAtom( 0, M - 1, "urem" );
			if( S.assumeGe( b.add( LE::atom( r ), -1 ).plus( -1 ) ) && S.assumeGe( a.add( b, -2 ).add( LE::atom( r ), -1 ) ) ) {
				f( std::move( S ), LE::atom( r ) );
			}
		}
	}
	void binop( State S, BinaryOperator *BO, LE a, LE b, unsigned w, K const &k ) {
		i128 M = pow2( w );
		switch( BO->getOpcode( ) ) {
		case Instruction::Add:
			// a + (2^w - c) is a - c
			if( b.isConst( ) && b.c >= M / 2 ) {
				wrap( std::move( S ), a.plus( b.c - M ), w, [&]( State s, LE e ) { bind( std::move( s ), BO, e, k ); } );
			} else {
				wrap( std::move( S ), a.add( b ), w, [&]( State s, LE e ) { bind( std::move( s ), BO, e, k ); } );
			}
			return;
		case Instruction::Sub:
			wrap( std::move( S ), a.add( b, -1 ), w, [&]( State s, LE e ) { bind( std::move( s ), BO, e, k ); } );
			return;
		case Instruction::Mul:
			if( a.isConst( ) ) {
				std::swap( a, b );
			}
			if( b.isConst( ) ) {
				i128 c = b.c;
				if( c >= M / 2 ) {
					c -= M;
				}
				if( iabs( c ) < pow2( 40 ) ) {
					times( std::move( S ), a, c, w, [&]( State s, LE e ) { bind( std::move( s ), BO, e, k ); } );
					return;
				}
			}
			break;
		case Instruction::Shl:
			if( b.isConst( ) && b.c < w && b.c < 40 ) {
				times( std::move( S ), a, pow2( static_cast<unsigned>( b.c ) ), w, [&]( State s, LE e ) { bind( std::move( s ), BO, e, k ); } );
				return;
			}
			break;
		case Instruction::LShr:
			if( b.isConst( ) && b.c < w ) {
				divmod( std::move( S ), a, pow2( static_cast<unsigned>( b.c ) ), [&]( State s, LE q, LE ) { bind( std::move( s ), BO, q, k ); } );
				return;
			}
			break;
		case Instruction::UDiv:
			if( b.isConst( ) && b.c > 0 ) {
				divmod( std::move( S ), a, b.c, [&]( State s, LE q, LE ) { bind( std::move( s ), BO, q, k ); } );
				return;
			}
			{
				// quotient <= dividend
				Atom q = newAtom( 0, M - 1, "udiv" );
				if( S.assumeGe( a.add( LE::atom( q ), -1 ) ) ) {
					bind( std::move( S ), BO, LE::atom( q ), k );
				}
			}
			return;
		case Instruction::URem: {
			if( b.isConst( ) && b.c > 0 ) {
				divmod( std::move( S ), a, b.c, [&]( State s, LE, LE r ) { bind( std::move( s ), BO, r, k ); } );
				return;
			}
			urem( std::move( S ), a, b, M, [&]( State s, LE r ) { bind( std::move( s ), BO, r, k ); } );
			return;
		}
		case Instruction::SRem:
			// the sign of the dividend, the remainder of the magnitudes
			toSigned( std::move( S ), a, w, [&]( State s, LE sa ) {
				toSigned( std::move( s ), b, w, [&]( State s2, LE sb ) {
					if( !s2.entails( sb.plus( -1 ) ) ) {
						s2.env[BO] = fresh( BO->getType( ), "srem" );
						k( std::move( s2 ) );
						return;
					}
					auto rem = [&]( State x, LE m, K2 const &f ) {
						if( sb.isConst( ) ) {
							divmod( std::move( x ), m, sb.c, [&]( State y, LE, LE r ) { f( std::move( y ), r ); } );
						} else {
							urem( std::move( x ), m, sb, M, f );
						}
					};
					State neg = s2;
					if( s2.assumeGe( sa ) ) {
						rem( std::move( s2 ), sa, [&]( State x, LE r ) { bind( std::move( x ), BO, r, k ); } );
					}
					if( neg.assumeGe( sa.neg( ).plus( -1 ) ) ) {
						rem( std::move( neg ), sa.neg( ), [&]( State x, LE r ) {
							wrap( std::move( x ), r.neg( ), w, [&]( State y, LE e ) { bind( std::move( y ), BO, e, k ); } );
						} );
					}
				} );
			} );
			return;
		case Instruction::SDiv:
		case Instruction::AShr: {
			i128 d = 0;
			if( BO->getOpcode( ) == Instruction::SDiv && b.isConst( ) && b.c > 0 && b.c < M / 2 ) {
				d = b.c;
			}
			if( BO->getOpcode( ) == Instruction::AShr && b.isConst( ) && b.c < w ) {
				d = pow2( static_cast<unsigned>( b.c ) );
			}
			if( d == 0 ) {
				break;
			}
			bool exact = BO->isExact( );
			bool ashr = BO->getOpcode( ) == Instruction::AShr;
			toSigned( std::move( S ), a, w, [&]( State s, LE sa ) {
				bool nn = s.entails( sa );
				bool divisible = sa.c % d == 0;
				for( auto const &p : sa.t ) {
					if( p.second % d != 0 ) {
						divisible = false;
					}
				}
				if( divisible || exact ) {
					LE q;
					if( divisible ) {
						q.c = sa.c / d;
						for( auto const &p : sa.t ) {
							q.t.push_back( { p.first, p.second / d } );
						}
					} else {
						Atom qa = newAtom( -M / 2, M / 2 - 1, "exdiv" );
						q = LE::atom( qa );
						LE r = sa.add( q, -d );
						if( !( s.assumeGe( r ) && s.assumeGe( r.neg( ) ) ) ) {
							return;
						}
					}
					if( nn || s.entails( q ) ) {
						bind( std::move( s ), BO, q, k );
					} else if( s.entails( q.neg( ).plus( -1 ) ) ) {
						bind( std::move( s ), BO, q.plus( M ), k );
					} else {
						wrap( std::move( s ), q, w, [&]( State s2, LE e ) { bind( std::move( s2 ), BO, e, k ); } );
					}
					return;
				}
				if( nn ) {
					divmod( std::move( s ), sa, d, [&]( State s2, LE q, LE ) { bind( std::move( s2 ), BO, q, k ); } );
					return;
				}
				if( ashr ) {
					// floor division of a possibly negative number
					Atom qa = newAtom( -M / 2, M / 2 - 1, "ashr" );
					LE q = LE::atom( qa );
					LE r = sa.add( q, -d );
					if( s.assumeGe( r ) && s.assumeGe( r.neg( ).plus( d - 1 ) ) ) {
						wrap( std::move( s ), q, w, [&]( State s2, LE e ) { bind( std::move( s2 ), BO, e, k ); } );
					}
					return;
				}
				s.env[BO] = fresh( BO->getType( ), "sdiv" );
				k( std::move( s ) );
			} );
			return;
		}
		case Instruction::And: {
			if( a.isConst( ) ) {
				std::swap( a, b );
			}
			if( b.isConst( ) ) {
				i128 m = b.c;
				if( a.isConst( ) ) {
					bind( std::move( S ), BO, LE::cst( a.c & m ), k );
					return;
				}
				if( m == 0 ) {
					bind( std::move( S ), BO, LE::cst( 0 ), k );
					return;
				}
				if( ( m & ( m + 1 ) ) == 0 ) { // low mask
					divmod( std::move( S ), a, m + 1, [&]( State s, LE, LE r ) { bind( std::move( s ), BO, r, k ); } );
					return;
				}
				i128 low = m & -m; // contiguous run?
				i128 run = m / low;
				if( ( run & ( run + 1 ) ) == 0 ) {
					divmod( std::move( S ), a, low, [&]( State s, LE q, LE ) {
						divmod( std::move( s ), q, run + 1, [&]( State s2, LE, LE r ) { bind( std::move( s2 ), BO, r.mul( low ), k ); } );
					} );
					return;
				}
			}
			Atom r = newAtom( 0, M - 1, "and" );
			if( S.assumeGe( a.add( LE::atom( r ), -1 ) ) && S.assumeGe( b.add( LE::atom( r ), -1 ) ) ) {
				bind( std::move( S ), BO, LE::atom( r ), k );
			}
			return;
		}
		case Instruction::Or: {
			if( a.isConst( ) ) {
				std::swap( a, b );
			}
			if( b.isConst( ) && a.isConst( ) ) {
				bind( std::move( S ), BO, LE::cst( a.c | b.c ), k );
				return;
			}
			if( cast<PossiblyDisjointInst>( BO )->isDisjoint( ) ) {
				bind( std::move( S ), BO, a.add( b ), k );
				return;
			}
			if( b.isConst( ) && b.c == 0 ) {
				bind( std::move( S ), BO, a, k );
				return;
			}
			if( b.isConst( ) && ( b.c & ( b.c - 1 ) ) == 0 ) {
				i128 bit = b.c;
				divmod( std::move( S ), a, bit, [&]( State s, LE q, LE r ) {
					divmod( std::move( s ), q, 2, [&]( State s2, LE q2, LE ) {
						// set the bit
						bind( std::move( s2 ), BO, q2.mul( 2 * bit ).plus( bit ).add( r ), k );
					} );
				} );
				return;
			}
			Atom r = newAtom( 0, M - 1, "or" );
			LE ra = LE::atom( r );
			if( S.assumeGe( ra.add( a, -1 ) ) && S.assumeGe( ra.add( b, -1 ) ) && S.assumeGe( a.add( b ).add( ra, -1 ) ) ) {
				bind( std::move( S ), BO, ra, k );
			}
			return;
		}
		case Instruction::Xor:
			if( b.isConst( ) && b.c == M - 1 ) {
				bind( std::move( S ), BO, a.neg( ).plus( M - 1 ), k );
				return;
			}
			if( b.isConst( ) && b.c == M / 2 ) {
				// flips the sign bit
				wrap( std::move( S ), a.plus( M / 2 ), w, [&]( State s, LE e ) { bind( std::move( s ), BO, e, k ); } );
				return;
			}
			if( b.isConst( ) && a.isConst( ) ) {
				bind( std::move( S ), BO, LE::cst( a.c ^ b.c ), k );
				return;
			}
			if( b.isConst( ) && b.c > 0 && ( b.c & ( b.c - 1 ) ) == 0 ) {
				i128 bit = b.c;
				divmod( std::move( S ), a, bit, [&]( State s, LE q, LE ) {
					divmod( std::move( s ), q, 2, [&]( State s2, LE, LE odd ) {
						// the bit that is there goes, the one that is not comes
						bind( std::move( s2 ), BO, a.plus( bit ).add( odd, -2 * bit ), k );
					} );
				} );
				return;
			}
			break;
		default:
			break;
		}
		S.env[BO] = fresh( BO->getType( ), "bin" );
		k( std::move( S ) );
	}
	void gep( State S, GetElementPtrInst *G, K const &k ) {
		if( width( G->getType( ) ) == 0 ) {
			S.env[G] = fresh( G->getType( ), "gep" );
			k( std::move( S ) );
			return;
		}
		Val b = eval( S, G->getPointerOperand( ) );
		if( b.k != Val::Num ) {
			S.env[G] = fresh( G->getType( ), "gep" );
			k( std::move( S ) );
			return;
		}
		MapVector<Value *, APInt> var;
		APInt cst( 64, 0 );
		if( !G->collectOffset( DL, 64, var, cst ) ) {
			S.env[G] = fresh( G->getType( ), "gep" );
			k( std::move( S ) );
			return;
		}
		std::vector<std::pair<Value *, i128>> vs;
		for( auto &p : var ) {
			vs.push_back( { p.first, static_cast<i128>( p.second.getSExtValue( ) ) } );
		}
		LE acc = b.n.plus( cst.getSExtValue( ) );
		std::function<void( State, size_t, LE )> go = [&]( State s, size_t i, LE e ) {
			if( i == vs.size( ) ) {
				wrap( std::move( s ), e, 64, [&]( State s2, LE r ) { bind( std::move( s2 ), G, r, k ); } );
				return;
			}
			Val iv = eval( s, vs[i].first );
			unsigned iw = width( vs[i].first->getType( ) );
			if( iv.k == Val::Num && iw == 64 && !iv.n.isConst( ) ) {
				// an index below 2^62 in absolute value is taken literally; a
				// "negative" one (>= 2^63) is e - 2^64
				if( s.entails( iv.n.neg( ).plus( pow2( 63 ) - 1 ) ) ) {
					LE n = e.add( iv.n, vs[i].second );
					go( std::move( s ), i + 1, n );
					return;
				}
			}
			forceNum( std::move( s ), iv, vs[i].first->getType( ), [&]( State s1, LE ie ) {
				toSigned( std::move( s1 ), ie, iw, [&]( State s2, LE se ) {
					LE n = e.add( se, vs[i].second );
					go( std::move( s2 ), i + 1, n );
				} );
			} );
		};
		go( std::move( S ), 0, acc );
	}
	void call( State S, CallBase *CB, K const &k );
	void resultFresh( State &S, CallBase *CB, char const *nm ) {
		if( !CB->getType( )->isVoidTy( ) ) {
			S.env[CB] = fresh( CB->getType( ), nm );
		}
	}

	//--- blocks, loops --------------------------------------------------------
	struct Edge {
		BasicBlock *from;
		State s;
	};
	using Pending = std::map<BasicBlock *, std::vector<Edge>>;

	State enter( State S, BasicBlock *from, BasicBlock *to ) {
		std::vector<std::pair<PHINode *, Val>> vals;
		for( auto &P : to->phis( ) ) {
			int ix = P.getBasicBlockIndex( from );
			vals.push_back( { &P, eval( S, P.getIncomingValue( static_cast<unsigned>( ix ) ) ) } );
		}
		for( auto &p : vals ) {
			S.env[p.first] = p.second;
		}
		prune( S, to );
		return S;
	}
	void push( Pending &pend, BasicBlock *from, BasicBlock *to, State S ) {
		pend[to].push_back( { from, enter( std::move( S ), from, to ) } );
	}
	void tr( State &S, Instruction const *I, int which ) {
		S.trace = std::make_shared<TraceNode>( TraceNode{ S.trace, I, which } );
	}
	// run the instructions of a block from a state, deliver successors
	void runBlock( BasicBlock *B, State S, Pending &pend ) {
		runFrom( B, B->getFirstNonPHI( )->getIterator( ), std::move( S ), pend );
	}
	void runFrom( BasicBlock *B, BasicBlock::iterator it, State S, Pending &pend ) {
		Instruction *I = &*it;
		if( I->isTerminator( ) ) {
			term( B, I, std::move( S ), pend );
			return;
		}
		auto nx = std::next( it );
		exec( std::move( S ), I, [&, nx]( State s ) { runFrom( B, nx, std::move( s ), pend ); } );
	}
	// branches a loop that is followed round by round has to decide
	std::set<BasicBlock *> const *deciding = nullptr;
	bool undecided = false;
	void term( BasicBlock *B, Instruction *I, State S, Pending &pend ) {
		if( auto *BI = dyn_cast<BranchInst>( I ) ) {
			if( BI->isUnconditional( ) ) {
				push( pend, B, BI->getSuccessor( 0 ), std::move( S ) );
				return;
			}
			Val c = eval( S, BI->getCondition( ) );
			States t, f;
			assumeBool( S, c, true, t );
			assumeBool( std::move( S ), c, false, f );
			if( deciding && !t.empty( ) && !f.empty( ) && deciding->count( B ) ) {
				undecided = true;
			}
			for( auto &s : t ) {
				tr( s, I, 0 );
				push( pend, B, BI->getSuccessor( 0 ), std::move( s ) );
			}
			for( auto &s : f ) {
				tr( s, I, 1 );
				push( pend, B, BI->getSuccessor( 1 ), std::move( s ) );
			}
			return;
		}
		if( auto *SW = dyn_cast<SwitchInst>( I ) ) {
			Val v = eval( S, SW->getCondition( ) );
			forceNum( std::move( S ), v, SW->getCondition( )->getType( ), [&]( State s, LE e ) {
				States rest;
				rest.push_back( s );
				for( auto &C : SW->cases( ) ) {
					LE d = e.plus( -static_cast<i128>( C.getCaseValue( )->getZExtValue( ) ) );
					State m = s;
					if( m.assumeGe( d ) && m.assumeGe( d.neg( ) ) ) {
						tr( m, I, 2 );
						push( pend, B, C.getCaseSuccessor( ), std::move( m ) );
					}
					States nr;
					for( auto &r : rest ) {
						assumeBool( r, Val::boolean( 1, d ), true, nr );
					}
					rest.swap( nr );
				}
				for( auto &r : rest ) {
					tr( r, I, 2 );
					push( pend, B, SW->getDefaultDest( ), std::move( r ) );
				}
			} );
			return;
		}
		if( auto *II = dyn_cast<InvokeInst>( I ) ) {
			State u = S;
			// effects of the call are visible on both edges
			bool noUnwind = II->doesNotThrow( );
			bool noNormal = II->doesNotReturn( );
			bool okAlloc = AllocOk && isNew( II );
			call( std::move( S ), II, [&]( State s ) {
				if( !noUnwind && !okAlloc ) {
					State us = s;
					if( HeapOn && isNew( II ) ) {
						us.heap = u.heap; // nothing was allocated
					}
					tr( us, I, 2 );
					push( pend, B, II->getUnwindDest( ), std::move( us ) );
				}
				if( !noNormal ) {
					push( pend, B, II->getNormalDest( ), std::move( s ) );
				}
			} );
			return;
		}
		if( isa<ReturnInst>( I ) ) {
			returned = true;
			if( NoLeak && ( S.heapLost || !S.heap.empty( ) ) ) {
				report( S, "access", "allocated storage is not released", I );
			}
			return;
		}
		// resume, unreachable: path ends
	}

	void mergeIfNeeded( std::vector<Edge> &v, size_t cap );
	void dedupe( std::vector<Edge> &v ) {
		if( v.size( ) > 200 ) {
			return;
		}
		for( size_t i = 0; i < v.size( ); ++i ) {
			for( size_t j = v.size( ); j-- > 0; ) {
				if( i != j && covers( v[i].s, v[j].s ) ) {
					v.erase( v.begin( ) + static_cast<std::ptrdiff_t>( j ) );
					if( j < i ) {
						--i;
					}
				}
			}
		}
	}

	// analyse a region (whole function or a loop body) starting with states at
	// `head`. Edges to `head` are collected in back, edges leaving in exits.
	void region( Loop *L, BasicBlock *head, std::vector<Edge> init, std::vector<Edge> &back, std::vector<std::pair<BasicBlock *, Edge>> &exits ) {
		Pending pend;
		ReversePostOrderTraversal<Function *> RPO( &F );
		std::vector<BasicBlock *> order;
		for( auto *B : RPO ) {
			if( !L || L->contains( B ) ) {
				order.push_back( B );
			}
		}
		pend[head] = std::move( init );
		bool first = true;
		std::set<BasicBlock *> done;
		auto route = [&]( Pending &np ) {
			for( auto &kv : np ) {
				for( auto &e : kv.second ) {
					if( L && !L->contains( kv.first ) ) {
						exits.push_back( { kv.first, std::move( e ) } );
					} else if( L && kv.first == head ) {
						back.push_back( std::move( e ) );
					} else {
						pend[kv.first].push_back( std::move( e ) );
					}
				}
			}
		};
		for( auto *B : order ) {
			if( done.count( B ) ) {
				continue;
			}
			auto it = pend.find( B );
			if( it == pend.end( ) ) {
				continue;
			}
			std::vector<Edge> in = std::move( it->second );
			pend.erase( it );
			Loop *BL = LI.getLoopFor( B );
			bool isInnerHead = BL && BL != L && BL->getHeader( ) == B && ( !L || L->contains( BL ) );
			if( isInnerHead ) {
				for( auto *X : BL->blocks( ) ) {
					done.insert( X );
				}
				std::vector<std::pair<BasicBlock *, Edge>> ex;
				loop( BL, std::move( in ), ex );
				Pending np;
				for( auto &p : ex ) {
					np[p.first].push_back( std::move( p.second ) );
				}
				route( np );
				continue;
			}
			dedupe( in );
			mergeIfNeeded( in, static_cast<size_t>( MaxDisj ) );
			for( auto &e : in ) {
				Pending np;
				runBlock( B, std::move( e.s ), np );
				route( np );
			}
			first = false;
		}
		(void)first;
	}

	struct LoopInv {
		std::vector<LE> cands; // >= 0 over header atoms
	};
	void loop( Loop *L, std::vector<Edge> in, std::vector<std::pair<BasicBlock *, Edge>> &exits ) {
		BasicBlock *H = L->getHeader( );
		dedupe( in );
		mergeIfNeeded( in, 24 );
		for( auto &e : in ) {
			if( !stepwise( L, H, e, exits ) ) {
				loopOne( L, H, std::move( e.s ), exits );
			}
		}
	}
	// computed from the variables of the loop head and what does not change in the loop
	bool counted( Loop *L, Value *V, int depth = 0 ) {
		auto *I = dyn_cast<Instruction>( V );
		if( !I || !L->contains( I ) ) {
			return true;
		}
		if( isa<PHINode>( I ) && I->getParent( ) == L->getHeader( ) ) {
			return true;
		}
		if( auto *Ld = dyn_cast<LoadInst>( I ) ) {
			return L->isLoopInvariant( Ld->getPointerOperand( ) );
		}
		if( depth > 6 || !( isa<BinaryOperator>( I ) || isa<CastInst>( I ) || isa<GetElementPtrInst>( I ) || isa<ICmpInst>( I ) || isa<FreezeInst>( I ) ||
		                     isa<PHINode>( I ) || isa<SelectInst>( I ) ) ) {
			return false;
		}
		for( auto &O : I->operands( ) ) {
			if( isa<SelectInst>( I ) && O.getOperandNo( ) == 0 && !I->getType( )->isIntegerTy( 1 ) ) {
				continue; // either way
			}
			if( !counted( L, O, depth + 1 ) ) {
				return false;
			}
		}
		return true;
	}
	// A loop whose number of rounds is known when it is entered is followed round
	// by round: every round decides its counted conditions, and after a few none
	// is left. Otherwise nothing happens and the loop is generalised.
	bool stepwise( Loop *L, BasicBlock *H, Edge const &e, std::vector<std::pair<BasicBlock *, Edge>> &exits ) {
		std::set<BasicBlock *> cnt;
		SmallVector<BasicBlock *, 4> ex;
		L->getExitingBlocks( ex );
		for( auto *B : ex ) {
			auto *BI = dyn_cast<BranchInst>( B->getTerminator( ) );
			if( BI && BI->isConditional( ) && counted( L, BI->getCondition( ) ) ) {
				cnt.insert( B );
			}
		}
		if( cnt.empty( ) ) {
			return false;
		}
		auto const nf = findings.size( );
		auto const rs = reached;
		auto const ret = returned;
		auto const na = nAccess;
		std::vector<Edge> cur;
		cur.push_back( e );
		std::vector<std::pair<BasicBlock *, Edge>> all;
		for( int round = 0; round < 40 && cur.size( ) <= 24; ++round ) {
			std::vector<Edge> next;
			auto *const outer = deciding;
			bool const outerUndecided = undecided;
			deciding = &cnt;
			undecided = false;
			for( auto &c : cur ) {
				std::vector<Edge> init, back;
				std::vector<std::pair<BasicBlock *, Edge>> out;
				init.push_back( std::move( c ) );
				region( L, H, std::move( init ), back, out );
				for( auto &o : out ) {
					all.push_back( std::move( o ) );
				}
				for( auto &b : back ) {
					next.push_back( std::move( b ) );
				}
				if( undecided ) {
					break;
				}
			}
			bool const stop = undecided;
			deciding = outer;
			undecided = outerUndecided;
			if( stop ) {
				break;
			}
			if( next.empty( ) ) {
				for( auto &o : all ) {
					exits.push_back( std::move( o ) );
				}
				return true;
			}
			cur = std::move( next );
			dedupe( cur );
		}
		findings.resize( nf );
		reached = rs;
		returned = ret;
		nAccess = na;
		return false;
	}
	std::set<Value const *> unbased, unstrided;               // pointers that move between objects, unevenly
	static bool divisible( LE const &e, i128 d ) {
		bool ok = e.c % d == 0;
		for( auto const &t : e.t ) {
			ok = ok && t.second % d == 0;
		}
		return ok;
	}
	static LE quotient( LE const &e, i128 d ) {
		LE q;
		q.c = e.c / d;
		for( auto const &t : e.t ) {
			q.t.push_back( { t.first, t.second / d } );
		}
		return q;
	}
	// element size of the constant steps taken from a header pointer
	i128 strideOf( Loop *L, PHINode *P ) {
		i128 g = 0;
		for( auto *U : P->users( ) ) {
			auto *I = dyn_cast<Instruction>( U );
			if( !I || !L->contains( I ) ) {
				continue;
			}
			if( auto *G = dyn_cast<GetElementPtrInst>( I ) ) {
				APInt off( 64, 0 );
				if( G->getPointerOperand( ) == P && G->accumulateConstantOffset( DL, off ) ) {
					g = igcd( g, iabs( static_cast<i128>( off.getSExtValue( ) ) ) );
				}
			}
		}
		return g < 2 ? 1 : g;
	}
	std::set<std::pair<BasicBlock *, Cell>> unbasedMem;
	// the object a pointer points into: like baseOf, and only for declared or identified objects
	bool objectBase( LE const &p, Atom &b, LE &o, State const &S ) {
		return baseOf( p, b, o, S ) && ( S.regions.count( b ) || Identified.count( b ) );
	}
	void loopOne( Loop *L, BasicBlock *H, State E, std::vector<std::pair<BasicBlock *, Edge>> &exits, std::set<int> done = { } );
};

Constant *Interp::ConstantFoldLoadFromConst( GlobalVariable const *GV, Type *T, i128 off ) {
	Constant const *C = GV->getInitializer( );
	unsigned sz = static_cast<unsigned>( DL.getTypeStoreSize( T ) );
	// walk
	i128 o = off;
	if( o < 0 ) {
		return nullptr;
	}
	while( true ) {
		if( C->getType( ) == T && o == 0 ) {
			return const_cast<Constant *>( C );
		}
		if( auto *CA = dyn_cast<ConstantDataSequential>( C ) ) {
			unsigned es = static_cast<unsigned>( CA->getElementByteSize( ) );
			if( es == sz && o % es == 0 && o / es < CA->getNumElements( ) && T->isIntegerTy( ) ) {
				return CA->getElementAsConstant( static_cast<unsigned>( o / es ) );
			}
			return nullptr;
		}
		if( auto *AT = dyn_cast<ArrayType>( C->getType( ) ) ) {
			i128 es = static_cast<i128>( DL.getTypeAllocSize( AT->getElementType( ) ) );
			if( es == 0 ) {
				return nullptr;
			}
			i128 ix = o / es;
			C = C->getAggregateElement( static_cast<unsigned>( ix ) );
			o %= es;
		} else if( auto *ST = dyn_cast<StructType>( C->getType( ) ) ) {
			auto *SL = DL.getStructLayout( ST );
			if( o >= static_cast<i128>( SL->getSizeInBytes( ) ) ) {
				return nullptr;
			}
			unsigned ix = SL->getElementContainingOffset( static_cast<uint64_t>( o ) );
			o -= static_cast<i128>( SL->getElementOffset( ix ) );
			C = C->getAggregateElement( ix );
		} else {
			return nullptr;
		}
		if( !C ) {
			return nullptr;
		}
	}
}

void Interp::mergeIfNeeded( std::vector<Edge> &v, size_t cap ) {
	if( v.size( ) <= cap ) {
		return;
	}
	// join: drop what differs. Conservative: keep the facts common to all, and
	// havoc SSA values that differ.
	while( v.size( ) > cap ) {
		State &A = v[0].s;
		State &B = v.back( ).s;
		State R;
		R.trace = A.trace;
		R.regions = A.regions;
		R.watch = A.watch;
		R.heap = A.heap;
		R.heapLost = A.heapLost || B.heapLost || A.heap != B.heap;
		R.escaped = A.escaped;
		for( auto a : B.escaped ) {
			R.escaped.insert( a );
		}
		std::vector<std::tuple<Atom, LE, LE>> ren;
		for( auto &p : A.env ) {
			auto it = B.env.find( p.first );
			if( it == B.env.end( ) ) {
				continue;
			}
			if( p.second.k == Val::Num && it->second.k == Val::Num ) {
				if( p.second.n == it->second.n ) {
					R.env[p.first] = p.second;
				} else {
					unsigned w = width( p.first->getType( ) );
					Atom b1, b2;
					LE o1, o2;
					if( p.first->getType( )->isPointerTy( ) && objectBase( p.second.n, b1, o1, A ) && objectBase( it->second.n, b2, o2, B ) && b1 == b2 ) {
						Atom a = newAtom( -pow2( 64 ), pow2( 64 ), "join.off" );
						LE v = LE::atom( a ).add( LE::atom( b1 ) );
						ren.push_back( { a, o1, o2 } );
						R.env[p.first] = Val::num( v );
						R.facts.push_back( v );
						R.facts.push_back( LE::cst( pow2( 64 ) - 1 ).add( v, -1 ) );
					} else {
						Atom a = newAtom( 0, pow2( w ? w : 64 ) - 1, "join" );
						ren.push_back( { a, p.second.n, it->second.n } );
						R.env[p.first] = Val::num( LE::atom( a ) );
					}
				}
			} else if( p.second.k == Val::Bool && it->second.k == Val::Bool && p.second.b.kind == it->second.b.kind && p.second.b.e == it->second.b.e ) {
				R.env[p.first] = p.second;
			} else {
				R.env[p.first] = fresh( p.first->getType( ), "join" );
			}
		}
		for( auto &f : A.facts ) {
			if( B.entails( f ) ) {
				R.facts.push_back( f );
			}
		}
		for( auto &f : B.facts ) {
			if( A.entails( f ) ) {
				R.facts.push_back( f );
			}
		}
		// simple relations of the renamed values
		for( auto &r : ren ) {
			Atom a = std::get<0>( r );
			// bounds against each of the two expressions' landmarks
			for( auto &f : { std::get<1>( r ), std::get<2>( r ) } ) {
				LE ub = f.add( std::get<1>( r ), -1 );
				LE ub2 = f.add( std::get<2>( r ), -1 );
				if( A.entails( ub ) && B.entails( ub2 ) ) {
					R.facts.push_back( f.add( LE::atom( a ), -1 ) );
				}
				if( A.entails( ub.neg( ) ) && B.entails( ub2.neg( ) ) ) {
					R.facts.push_back( LE::atom( a ).add( f, -1 ) );
				}
			}
		}
		for( auto &c : A.mem ) {
			auto it = B.mem.find( c.first );
			if( it != B.mem.end( ) && it->second == c.second ) {
				R.mem[c.first] = c.second;
			}
		}
		for( auto &c : A.sym ) {
			if( std::find( B.sym.begin( ), B.sym.end( ), c ) != B.sym.end( ) ) {
				R.sym.push_back( c );
			}
		}
		v[0].s = std::move( R );
		v.pop_back( );
	}
}

void Interp::loopOne( Loop *L, BasicBlock *H, State E, std::vector<std::pair<BasicBlock *, Edge>> &exits, std::set<int> done ) {
	// header atoms
	std::vector<std::pair<PHINode *, Atom>> phis;
	std::vector<LE> inits;
	std::vector<Atom> phiBase, memBase; // object a pointer stays in, or -1
	std::vector<i128> phiStride;        // and the element size it moves by
	auto addRange = []( State &s, LE const &p ) {
		s.facts.push_back( p );
		s.facts.push_back( LE::cst( pow2( 64 ) - 1 ).add( p, -1 ) );
	};
	State base = E;
	for( auto &P : H->phis( ) ) {
		unsigned w = width( P.getType( ) );
		if( w == 0 || w > 64 ) {
			base.env[&P] = fresh( P.getType( ), "phi" );
			continue;
		}
		Val iv = E.env[&P];
		if( iv.k != Val::Num ) {
			base.env[&P] = fresh( P.getType( ), "phi" );
			if( iv.k == Val::Bool ) {
				// lazily known: keep as unknown 0/1
			}
			continue;
		}
		std::string nm = P.hasName( ) ? P.getName( ).str( ) : "phi";
		Atom pb;
		LE po;
		Atom a;
		i128 st = 1;
		if( P.getType( )->isPointerTy( ) && !unbased.count( &P ) && objectBase( iv.n, pb, po, E ) ) {
			st = strideOf( L, &P );
			if( unstrided.count( &P ) || !divisible( po, st ) ) {
				st = 1;
			}
			a = newAtom( -pow2( 64 ), pow2( 64 ), nm + ".off" );
			phiBase.push_back( pb );
			addRange( base, LE::atom( a ).mul( st ).add( LE::atom( pb ) ) );
		} else {
			a = newAtom( 0, pow2( w ) - 1, nm );
			phiBase.push_back( -1 );
		}
		phiStride.push_back( st );
		phis.push_back( { &P, a } );
		inits.push_back( iv.n );
		base.env[&P] = Val::num( phiBase.back( ) < 0 ? LE::atom( a ) : LE::atom( a ).mul( st ).add( LE::atom( phiBase.back( ) ) ) );
	}
	if( heapLoops.count( H ) ) {
		base.heapLost = true;
		reportLater( base, H );
	}
	// memory written in the loop
	bool writesUnknown = false;
	std::vector<Cell> touched;
	for( auto *B : L->blocks( ) ) {
		for( auto &I : *B ) {
			if( I.mayWriteToMemory( ) && !isa<DbgInfoIntrinsic>( &I ) ) {
				auto *CB = dyn_cast<CallBase>( &I );
				if( CB && CB->getCalledFunction( ) && CB->getCalledFunction( )->getName( ).starts_with( "vs_" ) ) {
					continue; // sinks and unknown values touch nothing
				}
				writesUnknown = true;
			}
		}
	}
	std::vector<std::pair<Cell, Atom>> memPhis;
	std::vector<LE> memInits;
	if( writesUnknown ) {
		for( size_t i = base.sym.size( ); i-- > 0; ) {
			Atom b;
			LE o;
			if( baseOf( base.sym[i].p, b, o, base ) && base.regions.count( b ) && !base.regions[b].writable ) {
				continue;
			}
			if( std::find( names.begin( ), names.end( ), base.sym[i].p ) != names.end( ) ) {
				continue; // as long as every back edge agrees, see below
			}
			base.sym.erase( base.sym.begin( ) + static_cast<std::ptrdiff_t>( i ) );
		}
		// every cell becomes a header unknown, with candidates like a phi
		for( auto &c : base.mem ) {
			auto rg = base.regions.find( c.first.base );
			if( rg != base.regions.end( ) && !rg->second.writable ) {
				continue;
			}
			i128 hi = pow2( c.first.size >= 8 ? 64 : c.first.size * 8 ) - 1;
			Atom pb;
			LE po;
			Atom a;
			if( c.first.size == 8 && !unbasedMem.count( { H, c.first } ) && objectBase( c.second, pb, po, E ) ) {
				a = newAtom( -pow2( 64 ), pow2( 64 ), "memphi.off" );
				memBase.push_back( pb );
				addRange( base, LE::atom( a ).add( LE::atom( pb ) ) );
			} else {
				a = newAtom( 0, hi, "memphi" );
				memBase.push_back( -1 );
			}
			memPhis.push_back( { c.first, a } );
			memInits.push_back( c.second );
			c.second = memBase.back( ) < 0 ? LE::atom( a ) : LE::atom( a ).add( LE::atom( memBase.back( ) ) );
		}
	}
	// values defined inside the loop must not leak from an earlier visit
	for( auto *B : L->blocks( ) ) {
		for( auto &I : *B ) {
			if( !isa<PHINode>( &I ) || B != H ) {
				base.env.erase( &I );
			}
		}
	}
	std::set<Atom> const savedKeep = keepAtoms;
	for( auto &p : phis ) {
		keepAtoms.insert( p.second );
	}
	for( auto &m : memPhis ) {
		keepAtoms.insert( m.second );
	}
	struct Head { // header unknown: value = base + atom (base may be absent)
		LE val, off;   // as a value / as an offset
		LE init, ioff; // the same on entry
		Atom base;
		i128 stride;
	};
	std::vector<Head> hv;
	auto addHead = [&]( Atom a, LE const &init, Atom b, i128 st ) {
		LE A = LE::atom( a );
		LE B = b < 0 ? LE::cst( 0 ) : LE::atom( b );
		hv.push_back( { A.mul( st ).add( B ), A, init, quotient( init.add( B, -1 ), st ), b, st } );
	};
	for( size_t i = 0; i < phis.size( ); ++i ) {
		addHead( phis[i].second, inits[i], phiBase[i], phiStride[i] );
	}
	for( size_t i = 0; i < memPhis.size( ); ++i ) {
		addHead( memPhis[i].second, memInits[i], memBase[i], 1 );
	}
	// landmarks: loop invariant operands of comparisons, constants, other inits
	std::vector<LE> marks;
	auto addMark = [&]( LE const &e ) {
		if( marks.size( ) > 60 ) {
			return;
		}
		for( auto const &m : marks ) {
			if( m == e ) {
				return;
			}
		}
		marks.push_back( e );
	};
	for( auto *B : L->blocks( ) ) {
		for( auto &I : *B ) {
			auto tryOp = [&]( Value *O ) {
				unsigned w = width( O->getType( ) );
				if( w < 8 || w > 64 ) {
					return;
				}
				if( auto *OI = dyn_cast<Instruction>( O ) ) {
					if( L->contains( OI ) ) {
						return;
					}
				}
				if( isa<Constant>( O ) && !isa<ConstantInt>( O ) && !isa<ConstantPointerNull>( O ) ) {
					return;
				}
				Val v = eval( base, O );
				if( v.k == Val::Num ) {
					addMark( v.n );
				}
			};
			if( auto *C = dyn_cast<ICmpInst>( &I ) ) {
				tryOp( C->getOperand( 0 ) );
				tryOp( C->getOperand( 1 ) );
			} else if( auto *S = dyn_cast<SelectInst>( &I ) ) {
				tryOp( S->getTrueValue( ) );
				tryOp( S->getFalseValue( ) );
			} else if( auto *CB = dyn_cast<CallBase>( &I ) ) {
				if( auto *CF = CB->getCalledFunction( ) ) {
					if( CF->getName( ).starts_with( "llvm.umin" ) || CF->getName( ).starts_with( "llvm.umax" ) ) {
						tryOp( CB->getArgOperand( 0 ) );
						tryOp( CB->getArgOperand( 1 ) );
					}
				}
			}
		}
	}
	for( auto &h : hv ) {
		addMark( h.init );
	}
	for( auto &y : E.watch ) {
		addMark( y.p );
		Atom b;
		LE off;
		if( baseOf( y.p, b, off, E ) ) {
			auto it = E.regions.find( b );
			if( it != E.regions.end( ) ) {
				addMark( y.p.add( it->second.start, -1 ) );
				// distance from the end, for loops counting down
				addMark( it->second.start.add( it->second.bytes ).add( y.p, -1 ) );
			}
		}
	}
	// a watched element as an index from a loop invariant base
	struct IdxMark {
		size_t wi;
		LE ix, at;
	};
	std::vector<IdxMark> idxMarks;
	for( size_t wi = 0; wi < E.watch.size( ); ++wi ) {
		auto const &y = E.watch[wi];
		i128 const sz = y.size;
		for( auto *B : L->blocks( ) ) {
			for( auto &I : *B ) {
				auto *G = dyn_cast<GetElementPtrInst>( &I );
				if( !G || G->getNumIndices( ) != 1 || idxMarks.size( ) > 8 || !G->getSourceElementType( )->isSized( ) ||
				    static_cast<i128>( DL.getTypeAllocSize( G->getSourceElementType( ) ) ) != sz ) {
					continue;
				}
				if( auto *BI = dyn_cast<Instruction>( G->getPointerOperand( ) ); BI && L->contains( BI ) ) {
					continue;
				}
				Value *IX = G->getOperand( 1 );
				i128 add = 0;
				if( auto *AI = dyn_cast<BinaryOperator>( IX ); AI && AI->getOpcode( ) == Instruction::Add && isa<ConstantInt>( AI->getOperand( 1 ) ) && L->contains( AI ) ) {
					add = cast<ConstantInt>( AI->getOperand( 1 ) )->getSExtValue( );
					IX = AI->getOperand( 0 );
				}
				if( !isa<PHINode>( IX ) || cast<PHINode>( IX )->getParent( ) != H ) {
					continue;
				}
				Val ix = eval( base, IX );
				Val bp = eval( base, G->getPointerOperand( ) );
				if( ix.k != Val::Num || bp.k != Val::Num ) {
					continue;
				}
				LE w = y.p.add( bp.n, -1 ).plus( -add * sz ), q;
				bool div = w.c % sz == 0;
				q.c = w.c / sz;
				for( auto const &t : w.t ) {
					div = div && t.second % sz == 0;
					q.t.push_back( { t.first, t.second / sz } );
				}
				bool dup = !div;
				for( auto const &o : idxMarks ) {
					dup = dup || ( o.wi == wi && o.at == q && o.ix == ix.n );
				}
				if( !dup ) {
					idxMarks.push_back( { wi, ix.n, q } );
					addMark( q );
				}
			}
		}
	}
	for( auto &r : E.regions ) {
		addMark( r.second.start );
		addMark( r.second.start.add( r.second.bytes ) );
		addMark( r.second.bytes );
	}
	for( auto &m : marks ) {
		for( auto &t : m.t ) {
			keepAtoms.insert( t.first );
		}
	}
	std::vector<LE> cands;
	auto addC = [&]( LE c, LE atEntry ) {
		normalise( c );
		if( !E.entails( atEntry ) ) {
			return;
		}
		for( auto const &x : cands ) {
			if( x == c ) {
				return;
			}
		}
		if( cands.size( ) < 400 ) {
			cands.push_back( c );
		}
	};
	for( auto &h : hv ) {
		for( auto const &m : marks ) {
			for( i128 d : { static_cast<i128>( 0 ), static_cast<i128>( 1 ), static_cast<i128>( -1 ) } ) {
				LE up = m.add( h.val, -1 ).plus( d * h.stride ); // h <= m + d
				LE ue = m.add( h.init, -1 ).plus( d * h.stride );
				addC( up, ue );
				LE lo = h.val.add( m, -1 ).plus( d * h.stride ); // h >= m - d
				LE le = h.init.add( m, -1 ).plus( d * h.stride );
				addC( lo, le );
			}
		}
	}
	for( size_t i = 0; i < hv.size( ); ++i ) {
		for( size_t j = 0; j < hv.size( ); ++j ) {
			if( i == j ) {
				continue;
			}
			LE di = hv[i].off.add( hv[j].off, -1 );
			LE de = hv[i].ioff.add( hv[j].ioff, -1 );
			// difference keeps its entry value / its sign
			LE c = di.add( de, -1 );
			addC( c, LE::cst( 0 ) );
			addC( di, de );
			LE si = hv[i].off.add( hv[j].off );
			LE se = hv[i].ioff.add( hv[j].ioff );
			if( i < j ) {
				addC( si.add( se, -1 ), LE::cst( 0 ) );
				addC( se.add( si, -1 ), LE::cst( 0 ) );
			}
			// scaled relations (pointer steps of a few bytes against counters)
			for( i128 sc : { 2, 4, 8 } ) {
				LE d2 = hv[i].off.add( hv[j].off, -sc );
				LE e2 = hv[i].ioff.add( hv[j].ioff, -sc );
				addC( d2.add( e2, -1 ), LE::cst( 0 ) );
				addC( e2.add( d2, -1 ), LE::cst( 0 ) );
				LE d3 = hv[i].off.add( hv[j].off, sc );
				LE e3 = hv[i].ioff.add( hv[j].ioff, sc );
				addC( d3.add( e3, -1 ), LE::cst( 0 ) );
				addC( e3.add( d3, -1 ), LE::cst( 0 ) );
			}
		}
	}
	// what a pointer and the count behind it reach to
	for( size_t i = 0; i < hv.size( ); ++i ) {
		for( size_t j = 0; j < hv.size( ); ++j ) {
			if( i == j || hv[i].stride != 1 || hv[j].stride != 1 || hv[j].base >= 0 || ( hv[i].base < 0 && i > j ) ) {
				continue;
			}
			for( auto const &m : marks ) {
				if( m.isConst( ) ) {
					continue;
				}
				bool based = false;
				for( auto const &t : m.t ) {
					based = based || ( hv[i].base >= 0 && t.first == hv[i].base );
				}
				if( based != ( hv[i].base >= 0 ) ) {
					continue;
				}
				LE v = hv[i].val.add( hv[j].val ).add( m, -1 );
				LE e = hv[i].init.add( hv[j].init ).add( m, -1 );
				addC( v, e );
				addC( v.neg( ), e.neg( ) );
			}
		}
	}
	// value of a header expression at a back edge
	auto subst = [&]( LE const &c, State const &s, LE &r ) {
		r = LE::cst( c.c );
		for( auto const &p : c.t ) {
			LE rep = LE::atom( p.first );
			for( size_t i = 0; i < phis.size( ); ++i ) {
				auto const &ph = phis[i];
				if( ph.second == p.first ) {
					auto it = s.env.find( ph.first );
					if( it == s.env.end( ) || it->second.k != Val::Num ) {
						return false;
					}
					rep = it->second.n;
					if( phiBase[i] >= 0 ) {
						rep = quotient( rep.add( LE::atom( phiBase[i] ), -1 ), phiStride[i] );
					}
				}
			}
			for( size_t i = 0; i < memPhis.size( ); ++i ) {
				auto const &mp = memPhis[i];
				if( mp.second == p.first ) {
					auto it = s.mem.find( mp.first );
					if( it == s.mem.end( ) ) {
						return false;
					}
					rep = it->second;
					if( memBase[i] >= 0 ) {
						rep = rep.add( LE::atom( memBase[i] ), -1 );
					}
				}
			}
			r = r.add( rep, p.second );
		}
		return true;
	};
	// phases: while the loop has not passed a watched element yet, and afterwards
	struct Phase {
		int key;
		LE c;
		bool ptr;
	};
	std::vector<Phase> phases;
	for( size_t wi = 0; wi < E.watch.size( ); ++wi ) {
		auto const &y = E.watch[wi];
		Atom b;
		LE off;
		if( !baseOf( y.p, b, off, E ) ) {
			continue;
		}
		LE start = LE::atom( b ), stop = start;
		if( auto it = E.regions.find( b ); it != E.regions.end( ) ) {
			start = it->second.start;
			stop = start.add( it->second.bytes );
		}
		i128 sz = y.size;
		for( auto const &h : hv ) {
			bool ptr = h.base == b;
			if( !ptr && h.base >= 0 ) {
				continue;
			}
			std::vector<LE> ws;
			if( ptr ) {
				ws = { y.p };
			} else {
				ws = { y.p.add( start, -1 ) };
				if( sz == 1 ) {
					ws.push_back( stop.add( y.p, -1 ) );
				}
			}
			if( !ptr ) {
				for( auto const &m : idxMarks ) {
					if( m.wi == wi && m.ix == h.val && ws.size( ) < 5 ) {
						ws.insert( ws.begin( ), m.at.mul( sz ) );
					}
				}
			}
			int wn = 0;
			for( auto const &w0 : ws ) {
				i128 step = ptr ? sz : 1;
				LE w = w0;
				if( !ptr && sz != 1 ) {
					// index of the element
					bool div = w0.c % sz == 0;
					LE q;
					q.c = w0.c / sz;
					for( auto const &t : w0.t ) {
						div = div && t.second % sz == 0;
						q.t.push_back( { t.first, t.second / sz } );
					}
					if( !div ) {
						++wn;
						continue;
					}
					w = q;
				}
				for( int dir = 0; dir < 2; ++dir ) {
					for( int st = 1; st >= 0; --st ) {
						LE a = h.val;
						LE c = ( dir == 0 ? w.add( a, -1 ) : a.add( w, -1 ) ).plus( -st * step );
						LE ce = ( dir == 0 ? w.add( h.init, -1 ) : h.init.add( w, -1 ) ).plus( -st * step );
						int key = static_cast<int>( wi ) * 32 + dir * 2 + st + 4 * wn + 1024 * static_cast<int>( &h - hv.data( ) );
						if( !done.count( key ) && E.entails( ce ) ) {
							phases.push_back( { key, c, ptr } );
						}
						if( ptr && dir == 0 && st == 0 && !done.count( key + ( 1 << 20 ) ) && !E.entails( ce ) && !E.entails( ce.neg( ).plus( -1 ) ) ) {
							// the loop starts in front of the element or behind it
							done.insert( key + ( 1 << 20 ) );
							keepAtoms = savedKeep;
							State F = E;
							if( F.assumeGe( ce.neg( ).plus( -1 ) ) ) {
								loopOne( L, H, std::move( F ), exits, done );
							}
							if( E.assumeGe( ce ) ) {
								loopOne( L, H, std::move( E ), exits, std::move( done ) );
							}
							return;
						}
					}
				}
				++wn;
			}
		}
	}
	// where an address passes the element is exact
	std::stable_sort( phases.begin( ), phases.end( ), []( Phase const &a, Phase const &b ) { return a.ptr && !b.ptr; } );
	std::optional<Phase> phase;
	bool noPhase = false;
	auto const cands0 = cands;
	auto const base0 = base;
	bool savedRep = reporting;
	reporting = false;
again:
	// congruence-free: greatest fixpoint over the candidates
	for( int iter = 0; iter < 60; ++iter ) {
		State Hs = base;
		bool feas = true;
		for( auto const &c : cands ) {
			// adding is cheap; infeasibility only for contradictory candidates
			Hs.facts.push_back( c );
		}
		(void)feas;
		std::vector<Edge> back;
		std::vector<std::pair<BasicBlock *, Edge>> ex;
		std::vector<Edge> init;
		init.push_back( { nullptr, Hs } );
		if( phase ) {
			init[0].s.facts.push_back( phase->c );
		}
		region( L, H, std::move( init ), back, ex );
		// a pointer that leaves its object is no offset into it
		bool rebase = false;
		for( auto &b : back ) {
			for( size_t i = 0; i < phis.size( ); ++i ) {
				if( phiBase[i] < 0 ) {
					continue;
				}
				auto it = b.s.env.find( phis[i].first );
				Atom nb;
				LE no;
				if( it == b.s.env.end( ) || it->second.k != Val::Num || !objectBase( it->second.n, nb, no, b.s ) || nb != phiBase[i] ) {
					unbased.insert( phis[i].first );
					rebase = true;
				} else if( !divisible( no, phiStride[i] ) ) {
					unstrided.insert( phis[i].first );
					rebase = true;
				}
			}
			for( size_t i = 0; i < memPhis.size( ); ++i ) {
				if( memBase[i] < 0 ) {
					continue;
				}
				auto it = b.s.mem.find( memPhis[i].first );
				Atom nb;
				LE no;
				if( it != b.s.mem.end( ) && ( !objectBase( it->second, nb, no, b.s ) || nb != memBase[i] ) ) {
					unbasedMem.insert( { H, memPhis[i].first } );
					rebase = true;
				}
			}
			if( ( b.s.heap != base.heap || b.s.heapLost ) && !base.heapLost ) {
				heapLoops.insert( H );
				rebase = true;
			}
		}
		if( rebase ) {
			reporting = savedRep;
			keepAtoms = savedKeep;
			loopOne( L, H, std::move( E ), exits, std::move( done ) );
			return;
		}
		if( phase ) {
			std::vector<Edge> in;
			for( auto &b : back ) {
				LE r;
				if( !subst( phase->c, b.s, r ) ) {
					noPhase = true;
					break;
				}
				if( b.s.assumeGe( r ) ) {
					in.push_back( std::move( b ) );
				}
			}
			if( noPhase ) {
				phase.reset( );
				phases.clear( );
				cands = cands0;
				base = base0;
				goto again;
			}
			back.swap( in );
		}
		std::vector<LE> keep;
		bool changed = false;
		// cells lost in the body stay lost
		std::vector<char> lost( memPhis.size( ), 0 );
		for( size_t i = 0; i < memPhis.size( ); ++i ) {
			for( auto &b : back ) {
				if( !b.s.mem.count( memPhis[i].first ) ) {
					lost[i] = 1;
				}
			}
		}
		for( auto const &c : cands ) {
			bool ok = true;
			for( auto &b : back ) {
				LE r;
				if( !subst( c, b.s, r ) || !b.s.entails( r ) ) {
					ok = false;
					break;
				}
			}
			if( ok ) {
				keep.push_back( c );
			} else {
				changed = true;
			}
		}
		cands.swap( keep );
		for( size_t i = memPhis.size( ); i-- > 0; ) {
			if( lost[i] && base.mem.count( memPhis[i].first ) ) {
				base.mem.erase( memPhis[i].first );
				changed = true;
			}
		}
		for( size_t i = writesUnknown ? base.sym.size( ) : 0; i-- > 0; ) {
			if( std::find( names.begin( ), names.end( ), base.sym[i].p ) == names.end( ) ) {
				continue;
			}
			for( auto &b : back ) {
				if( std::find( b.s.sym.begin( ), b.s.sym.end( ), base.sym[i] ) == b.s.sym.end( ) ) {
					base.sym.erase( base.sym.begin( ) + static_cast<std::ptrdiff_t>( i ) );
					changed = true;
					break;
				}
			}
		}
		if( !changed ) {
			break;
		}
		if( iter == 59 ) {
			throw GiveUp{ };
		}
	}
	if( !phase && !phases.empty( ) ) {
		// a candidate that holds on entry and got lost separates two phases
		for( auto const &p : phases ) {
			LE n = p.c;
			normalise( n );
			State t = base;
			for( auto const &c : cands ) {
				t.facts.push_back( c );
			}
			if( !t.entails( n ) ) {
				phase = p;
				break;
			}
		}
		if( phase ) {
			cands = cands0;
			base = base0;
			goto again;
		}
	}
	reporting = savedRep;
	State Hs = base;
	if( phase ) {
		Hs.facts.push_back( phase->c );
	}
	for( auto const &c : cands ) {
		Hs.facts.push_back( c );
	}
	keepAtoms = savedKeep;
	if( infeasible( Hs.facts ) ) {
		return;
	}
	if( Verbose ) {
		errs( ) << "loop " << H->getName( ) << " " << locOf( H->getTerminator( ) ) << " invariants:\n";
		for( auto const &c : cands ) {
			errs( ) << "   " << les( c ) << " >= 0\n";
		}
	}
	std::vector<Edge> back, init;
	init.push_back( { nullptr, std::move( Hs ) } );
	region( L, H, std::move( init ), back, exits );
	if( phase ) {
		std::vector<Edge> out;

		for( auto &b : back ) {
			LE r;
			(void)subst( phase->c, b.s, r ); // succeeded on every back edge above
			if( !b.s.assumeGe( r.neg( ).plus( -1 ) ) ) {
				continue;
			}
			prune( b.s, H );
			out.push_back( std::move( b ) );
		}
		dedupe( out );
		mergeIfNeeded( out, 6 );
		done.insert( phase->key );
		for( auto &b : out ) {
			loopOne( L, H, std::move( b.s ), exits, done );
		}
	}
}

void Interp::call( State S, CallBase *CB, K const &k ) {
	Function *Cal = CB->getCalledFunction( );
	StringRef N = Cal ? Cal->getName( ) : StringRef( );
	Type *T = CB->getType( );
	unsigned w = width( T );
	auto arg = [&]( unsigned i ) { return eval( S, CB->getArgOperand( i ) ); };
	if( Cal && Cal->isIntrinsic( ) ) {
		switch( Cal->getIntrinsicID( ) ) {
		case Intrinsic::assume: {
			Val c = arg( 0 );
			States o;
			assumeBool( std::move( S ), c, true, o );
			for( auto &s : o ) {
				k( std::move( s ) );
			}
			return;
		}
		case Intrinsic::lifetime_start:
		case Intrinsic::lifetime_end:
		case Intrinsic::donothing:
		case Intrinsic::experimental_noalias_scope_decl:
		case Intrinsic::invariant_start:
		case Intrinsic::invariant_end:
			resultFresh( S, CB, "intr" );
			k( std::move( S ) );
			return;
		case Intrinsic::expect:
			S.env[CB] = arg( 0 );
			k( std::move( S ) );
			return;
		case Intrinsic::umin:
		case Intrinsic::umax:
		case Intrinsic::smin:
		case Intrinsic::smax: {
			if( w == 0 || w > 64 ) {
				break;
			}
			auto id = Cal->getIntrinsicID( );
			bool sg = id == Intrinsic::smin || id == Intrinsic::smax;
			bool mn = id == Intrinsic::umin || id == Intrinsic::smin;
			Val a = arg( 0 ), b = arg( 1 );
			forceNum( std::move( S ), a, T, [&]( State s1, LE ea ) {
				forceNum( std::move( s1 ), b, T, [&]( State s2, LE eb ) {
					auto fin = [&]( State s, LE ca, LE cb ) {
						State x = s;
						if( x.assumeGe( cb.add( ca, -1 ) ) ) { // a <= b
							bind( std::move( x ), CB, mn ? ea : eb, k );
						}
						if( s.assumeGe( ca.add( cb, -1 ).plus( -1 ) ) ) {
							bind( std::move( s ), CB, mn ? eb : ea, k );
						}
					};
					if( sg ) {
						toSigned( std::move( s2 ), ea, w, [&]( State s3, LE sa ) { toSigned( std::move( s3 ), eb, w, [&]( State s4, LE sb ) { fin( std::move( s4 ), sa, sb ); } ); } );
					} else {
						fin( std::move( s2 ), ea, eb );
					}
				} );
			} );
			return;
		}
		case Intrinsic::usub_sat: {
			if( w == 0 || w > 64 ) {
				break;
			}
			Val a = arg( 0 ), b = arg( 1 );
			forceNum( std::move( S ), a, T, [&]( State s1, LE ea ) {
				forceNum( std::move( s1 ), b, T, [&]( State s2, LE eb ) {
					LE d = ea.add( eb, -1 );
					State x = s2;
					if( x.assumeGe( d ) ) {
						bind( std::move( x ), CB, d, k );
					}
					if( s2.assumeGe( d.neg( ).plus( -1 ) ) ) {
						bind( std::move( s2 ), CB, LE::cst( 0 ), k );
					}
				} );
			} );
			return;
		}
		case Intrinsic::uadd_with_overflow:
		case Intrinsic::usub_with_overflow:
		case Intrinsic::umul_with_overflow:
		case Intrinsic::sadd_with_overflow:
		case Intrinsic::ssub_with_overflow: {
			Type *ET = CB->getArgOperand( 0 )->getType( );
			unsigned ew = width( ET );
			auto id = Cal->getIntrinsicID( );
			if( ew == 0 || ew > 64 ) {
				break;
			}
			bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow;
			bool sub = id == Intrinsic::usub_with_overflow || id == Intrinsic::ssub_with_overflow;
			bool mul = id == Intrinsic::umul_with_overflow;
			Val a = arg( 0 ), b = arg( 1 );
			i128 M = pow2( ew );
			forceNum( std::move( S ), a, ET, [&]( State s1, LE ea ) {
				forceNum( std::move( s1 ), b, ET, [&]( State s2, LE eb ) {
					auto deliver = [&]( State s, LE e, LE lo, LE hi, std::function<LE( LE )> conv ) {
						// e mathematically; in range lo<=e<=hi
						State ok = s;
						Val r;
						r.k = Val::Agg;
						if( ok.assumeGe( e.add( lo, -1 ) ) && ok.assumeGe( hi.add( e, -1 ) ) ) {
							LE v = conv( e );
							Val rr = r;
							// canonical unsigned form
							if( ok.entails( v ) ) {
								rr.a = { Val::num( v ), Val::num( LE::cst( 0 ) ) };
								ok.env[CB] = rr;
								k( std::move( ok ) );
							} else {
								State neg = ok;
								if( ok.assumeGe( v ) ) {
									rr.a = { Val::num( v ), Val::num( LE::cst( 0 ) ) };
									ok.env[CB] = rr;
									k( std::move( ok ) );
								}
								if( neg.assumeGe( v.neg( ).plus( -1 ) ) ) {
									rr.a = { Val::num( v.plus( M ) ), Val::num( LE::cst( 0 ) ) };
									neg.env[CB] = rr;
									k( std::move( neg ) );
								}
							}
						}
						State o1 = s;
						if( o1.assumeGe( e.add( hi, -1 ).plus( -1 ) ) ) {
							Val rr = r;
							rr.a = { fresh( ET, "ovf" ), Val::num( LE::cst( 1 ) ) };
							o1.env[CB] = rr;
							k( std::move( o1 ) );
						}
						if( s.assumeGe( lo.add( e, -1 ).plus( -1 ) ) ) {
							Val rr = r;
							rr.a = { fresh( ET, "ovf" ), Val::num( LE::cst( 1 ) ) };
							s.env[CB] = rr;
							k( std::move( s ) );
						}
					};
					if( mul ) {
						if( ea.isConst( ) ) {
							std::swap( ea, eb );
						}
						if( eb.isConst( ) && eb.c < pow2( 40 ) ) {
							deliver( std::move( s2 ), ea.mul( eb.c ), LE::cst( 0 ), LE::cst( M - 1 ), []( LE x ) { return x; } );
						} else {
							s2.env[CB] = fresh( T, "mulo" );
							k( std::move( s2 ) );
						}
						return;
					}
					if( !sg ) {
						deliver( std::move( s2 ), sub ? ea.add( eb, -1 ) : ea.add( eb ), LE::cst( 0 ), LE::cst( M - 1 ), []( LE x ) { return x; } );
						return;
					}
					toSigned( std::move( s2 ), ea, ew, [&]( State s3, LE sa ) {
						toSigned( std::move( s3 ), eb, ew, [&]( State s4, LE sb ) {
							deliver( std::move( s4 ), sub ? sa.add( sb, -1 ) : sa.add( sb ), LE::cst( -M / 2 ), LE::cst( M / 2 - 1 ), []( LE x ) { return x; } );
						} );
					} );
				} );
			} );
			return;
		}
		case Intrinsic::memcpy:
		case Intrinsic::memmove:
		case Intrinsic::memset:
		case Intrinsic::memcpy_inline: {
			bool set = Cal->getIntrinsicID( ) == Intrinsic::memset;
			Val d = arg( 0 ), s = arg( 1 ), n = arg( 2 );
			if( d.k == Val::Num && n.k == Val::Num ) {
				checkAccess( S, d.n, n.n, true, CB );
				if( !set && s.k == Val::Num ) {
					checkAccess( S, s.n, n.n, false, CB );
				}
				Atom bd;
				LE od;
				if( baseOf( d.n, bd, od, S ) ) {
					bool kc = od.isConst( ) && n.n.isConst( );
					// copy known cells
					std::vector<std::pair<Cell, LE>> add;
					Atom bs;
					LE os;
					if( kc && !set && s.k == Val::Num && baseOf( s.n, bs, os, S ) && os.isConst( ) ) {
						for( auto const &m : S.mem ) {
							if( m.first.base == bs && m.first.off >= os.c && m.first.off + m.first.size <= os.c + n.n.c ) {
								add.push_back( { Cell{ bd, m.first.off - os.c + od.c, m.first.size }, m.second } );
							}
						}
					}
					// a constant is copied byte by byte
					if( kc && !set && n.n.c <= 64 && s.k == Val::Num && baseOf( s.n, bs, os, S ) && os.isConst( ) && add.empty( ) ) {
						for( i128 i = 0; i < n.n.c; ++i ) {
							if( auto c = constByte( bs, os.c + i ) ) {
								add.push_back( { Cell{ bd, od.c + i, 1 }, LE::cst( *c ) } );
							}
						}
					}
					// a fill of known extent writes known bytes
					if( kc && set && s.k == Val::Num && s.n.isConst( ) && n.n.c <= 512 ) {
						i128 const u = n.n.c <= 64 ? 1 : 8;
						i128 v = s.n.c & 255;
						for( int i = 1; i < u; i *= 2 ) {
							v |= v << ( 8 * i );
						}
						i128 i = 0;
						for( ; i + u <= n.n.c; i += u ) {
							add.push_back( { Cell{ bd, od.c + i, static_cast<unsigned>( u ) }, LE::cst( v ) } );
						}
						for( ; i < n.n.c; ++i ) {
							add.push_back( { Cell{ bd, od.c + i, 1 }, LE::cst( s.n.c & 255 ) } );
						}
					}
					std::vector<State::Sym> moved;
					if( !set && s.k == Val::Num ) {
						for( auto const &y : S.watch ) {
							if( !y.rw && S.entails( y.p.add( s.n, -1 ) ) && S.entails( s.n.add( n.n ).add( y.p, -1 ).plus( -static_cast<i128>( y.size ) ) ) ) {
								moved.push_back( { d.n.add( y.p ).add( s.n, -1 ), y.size, y.v } );
							}
						}
					}
					clobber( S, true, bd, kc, kc ? od.c : 0, kc ? n.n.c : 0, &d.n, &n.n );
					for( auto &y : moved ) {
						Atom bb;
						LE oo;
						if( S.sym.size( ) < 24 && baseOf( y.p, bb, oo, S ) && !oo.isConst( ) ) {
							S.sym.push_back( y );
						}
					}
					for( auto &a : add ) {
						S.mem[a.first] = a.second;
						if( isEscaped( S, bd ) ) {
							escapeExpr( S, a.second );
						}
					}
				} else {
					clobber( S, false, 0, false, 0, 0 );
				}
			} else {
				clobber( S, false, 0, false, 0, 0 );
			}
			k( std::move( S ) );
			return;
		}
		default:
			break;
		}
		resultFresh( S, CB, "intr" );
		if( CB->mayWriteToMemory( ) ) {
			clobber( S, false, 0, false, 0, 0 );
		}
		k( std::move( S ) );
		return;
	}
	if( N == "vs_fail" ) {
		failSites.insert( CB );
		if( Verbose && reporting ) {
			errs( ) << "FAIL " << cstr( CB->getArgOperand( 0 ) ) << "\n";
			for( auto const &f : S.facts ) {
				errs( ) << "   " << les( f ) << " >= 0\n";
			}
		}
		report( S, "check", cstr( CB->getArgOperand( 0 ) ), CB );
		k( std::move( S ) );
		return;
	}
	if( N == "vs_reach" ) {
		if( reporting ) {
			reached.insert( cstr( CB->getArgOperand( 0 ) ) );
		}
		k( std::move( S ) );
		return;
	}
	if( N == "vs_region" ) {
		Val p = arg( 0 ), n = arg( 1 ), wr = arg( 2 );
		if( p.k == Val::Num && n.k == Val::Num ) {
			Atom b = -1;
			for( auto const &t : p.n.t ) {
				if( t.second == 1 ) {
					b = t.first;
					break;
				}
			}
			if( b >= 0 ) {
				S.regions[b] = Region{ p.n, n.n, wr.k == Val::Num && wr.n.isConst( ) && wr.n.c == 1 };
			}
		}
		k( std::move( S ) );
		return;
	}
	if( N == "vs_name" ) {
		Val p = arg( 0 );
		if( p.k == Val::Num && std::find( names.begin( ), names.end( ), p.n ) == names.end( ) ) {
			names.push_back( p.n );
		}
		k( std::move( S ) );
		return;
	}
	if( N == "vs_watch" ) {
		// an arbitrary element: accesses are told apart from it
		Val p = arg( 0 ), n = arg( 1 );
		Atom b;
		LE off;
		if( p.k == Val::Num && n.k == Val::Num && n.n.isConst( ) && baseOf( p.n, b, off, S ) && S.regions.count( b ) ) {
			bool const rw = S.regions[b].writable;
			unsigned sz = static_cast<unsigned>( n.n.c );
			Atom v = newAtom( 0, pow2( 8 * sz ) - 1, "watched" );
			S.watch.push_back( { p.n, sz, LE::atom( v ), rw } );
			if( rw && std::find( names.begin( ), names.end( ), p.n ) == names.end( ) ) {
				// what it holds is kept under its name
				names.push_back( p.n );
			}
		}
		k( std::move( S ) );
		return;
	}
	if( N == "vs_noalias" ) {
		// the pointer is an object of its own
		Val p = arg( 0 );
		if( p.k == Val::Num && p.n.t.size( ) == 1 && p.n.t[0].second == 1 && p.n.c == 0 ) {
			Identified.insert( p.n.t[0].first );
		}
		k( std::move( S ) );
		return;
	}
	if( N == "vs_opaque" || N == "vs_may_throw" || N == "vs_bool" || N == "vs_int" || N == "vs_size" ) {
		resultFresh( S, CB, N.data( ) );
		k( std::move( S ) );
		return;
	}
	auto pureRange = [&]( StringRef nm ) { return N == nm; };
	// the first position of a byte, when that is known
	auto findByte = [&]( State s, LE lo, LE len, LE const *byte ) {
		{
			State z = s;
			z.env[CB] = Val::num( LE::cst( 0 ) );
			if( byte ) {
				noWatched( std::move( z ), lo, lo.add( len ), *byte, 0, k );
			} else {
				k( std::move( z ) );
			}
		}
		// expressed as an offset so that the base stays visible
		Atom o = newAtom( 0, pow2( 62 ), "memchr.off" );
		if( !s.assumeGe( len.add( LE::atom( o ), -1 ).plus( -1 ) ) ) {
			return;
		}
		LE at = lo.add( LE::atom( o ) );
		s.env[CB] = Val::num( at );
		if( !byte ) {
			k( std::move( s ) );
			return;
		}
		noWatched( std::move( s ), lo, at, *byte, 0, [&]( State x ) {
			splitWatch( std::move( x ), at, 1, 0, [&]( State y ) {
				for( auto const &q : y.watch ) {
					if( !q.rw && q.size == 1 && y.entailsEq( q.p.add( at, -1 ) ) ) {
						LE d = q.v.add( *byte, -1 );
						if( y.assumeGe( d ) && y.assumeGe( d.neg( ) ) ) {
							k( std::move( y ) );
						}
						return;
					}
				}
				Atom b;
				LE off;
				if( baseOf( at, b, off, y ) && !off.isConst( ) && y.sym.size( ) < 24 ) {
					y.sym.push_back( { at, 1, *byte } );
				}
				k( std::move( y ) );
			} );
		} );
	};
	if( pureRange( "memchr" ) ) {
		Val p = arg( 0 ), n = arg( 2 );
		if( p.k == Val::Num && n.k == Val::Num ) {
			checkAccess( S, p.n, n.n, false, CB );
			Val c = arg( 1 );
			LE lo = p.n, len = n.n;
			auto go = [&]( State s, LE const *byte ) { findByte( std::move( s ), lo, len, byte ); };
			if( c.k == Val::Num ) {
				LE wrap = c.n.plus( -( pow2( 32 ) - 256 ) );
				State neg = S;
				if( S.assumeGe( LE::cst( 255 ).add( c.n, -1 ) ) ) {
					go( std::move( S ), &c.n );
				}
				if( neg.assumeGe( c.n.plus( -256 ) ) ) {
					bool known = neg.entails( wrap );
					go( std::move( neg ), known ? &wrap : nullptr );
				}
				return;
			}
			go( std::move( S ), nullptr );
			return;
		}
	}
	if( N == "memmem" ) {
		Val h = arg( 0 ), hn = arg( 1 ), q = arg( 2 ), qn = arg( 3 );
		if( h.k == Val::Num && hn.k == Val::Num && q.k == Val::Num && qn.k == Val::Num ) {
			checkAccess( S, h.n, hn.n, false, CB );
			checkAccess( S, q.n, qn.n, false, CB );
			if( qn.n.isConst( ) && qn.n.c == 1 ) {
				Val by = load( S, q.n, Type::getInt8Ty( CB->getContext( ) ), 1, CB );
				if( by.k == Val::Num ) {
					findByte( std::move( S ), h.n, hn.n, &by.n );
					return;
				}
			}
			{
				State z = S;
				z.env[CB] = Val::num( LE::cst( 0 ) );
				k( std::move( z ) );
			}
			Atom o = newAtom( 0, pow2( 62 ), "memmem.off" );
			if( S.assumeGe( hn.n.add( qn.n, -1 ).add( LE::atom( o ), -1 ) ) ) {
				LE at = h.n.add( LE::atom( o ) );
				S.env[CB] = Val::num( at );
				sameBytes( std::move( S ), at, q.n, qn.n, 0, k );
			}
			return;
		}
	}
	if( pureRange( "strlen" ) ) {
		Val p = arg( 0 );
		Atom o = newAtom( 0, pow2( 62 ), "strlen" );
		S.env[CB] = Val::num( LE::atom( o ) );
		(void)p;
		k( std::move( S ) );
		return;
	}
	if( N == "memcmp" || N == "bcmp" ) {
		Val p = arg( 0 ), q = arg( 1 ), n = arg( 2 );
		if( n.k == Val::Num ) {
			if( p.k == Val::Num ) {
				checkAccess( S, p.n, n.n, false, CB );
			}
			if( q.k == Val::Num ) {
				checkAccess( S, q.n, n.n, false, CB );
			}
		}
		if( n.k == Val::Num && p.k == Val::Num && q.k == Val::Num ) {
			bool same = S.entailsEq( p.n.add( q.n, -1 ) ) || S.entailsEq( n.n );
			if( !same ) {
				State d = S;
				resultFresh( d, CB, "memcmp" );
				Val v = d.env[CB];
				if( v.k == Val::Num && d.assumeGe( v.n.plus( -1 ) ) ) {
					k( std::move( d ) );
				}
			}
			S.env[CB] = Val::num( LE::cst( 0 ) );
			sameBytes( std::move( S ), p.n, q.n, n.n, 0, k );
			return;
		}
		resultFresh( S, CB, "memcmp" );
		k( std::move( S ) );
		return;
	}
	if( char ak = allocKind( N ); ak && N != "calloc" && N != "aligned_alloc" ) {
		if( ak == 'm' || N.contains( "nothrow" ) ) {
			State nul = S;
			nul.env[CB] = Val::num( LE::cst( 0 ) );
			if( !AllocOk ) {
				k( std::move( nul ) );
			}
		}
		Atom a = newAtom( 4096, pow2( 47 ), "heap" );
		everHeap.insert( a );
		if( HeapOn ) {
			S.heap[a] = ak;
		}
		Identified.insert( a );
		S.env[CB] = Val::num( LE::atom( a ) );
		Val n = arg( 0 );
		if( n.k == Val::Num ) {
			S.regions[a] = Region{ LE::atom( a ), n.n, true };
		}
		k( std::move( S ) );
		return;
	}
	if( char fk = freeKind( N ) ) {
		Val p = arg( 0 );
		if( HeapOn && p.k == Val::Num ) {
			release( std::move( S ), p.n, fk, CB, k );
			return;
		}
		if( HeapOn ) {
			report( S, "access", "releases storage that is not allocated", CB );
		}
		k( std::move( S ) );
		return;
	}
	if( N == "__cxa_allocate_exception" || N == "__cxa_begin_catch" || N == "vs_exception_object" ) {
		Atom a = newAtom( 4096, pow2( 47 ), "exc" );
		Identified.insert( a );
		S.env[CB] = Val::num( LE::atom( a ) );
		k( std::move( S ) );
		return;
	}
	if( N == "__cxa_end_catch" || N == "__cxa_free_exception" ) {
		k( std::move( S ) );
		return;
	}
	if( CB->doesNotReturn( ) && !isa<InvokeInst>( CB ) ) {
		return; // path ends: abort, terminate, or an exception leaving the driver
	}
	// unknown callee
	for( unsigned i = 0; i < CB->arg_size( ); ++i ) {
		Val v = arg( i );
		if( !CB->doesNotCapture( i ) || !CB->onlyReadsMemory( i ) ) {
			escapeVal( S, v );
		}
	}
	if( !CB->onlyReadsMemory( ) && !CB->doesNotAccessMemory( ) ) {
		clobber( S, false, 0, false, 0, 0 );
	}
	resultFresh( S, CB, "call" );
	k( std::move( S ) );
}

//===----------------------------------------------------------------------===//
// driver
//===----------------------------------------------------------------------===//
// Drivers that tell exceptions apart by their type say so with vs_throws.
static bool typedThrows( Module &M ) {
	auto *F = M.getFunction( "vs_throws" );
	return F && !F->use_empty( );
}
// the type an external function of the standard library throws
static char const *stdThrower( StringRef N ) {
	static std::pair<char const *, char const *> const T[] = {
	  { "_ZSt19__throw_logic_errorPKc", "_ZTISt11logic_error" },
	  { "_ZSt20__throw_length_errorPKc", "_ZTISt12length_error" },
	  { "_ZSt20__throw_out_of_rangePKc", "_ZTISt12out_of_range" },
	  { "_ZSt24__throw_out_of_range_fmtPKcz", "_ZTISt12out_of_range" },
	  { "_ZSt24__throw_invalid_argumentPKc", "_ZTISt16invalid_argument" },
	  { "_ZSt17__throw_bad_allocv", "_ZTISt9bad_alloc" },
	  { "_ZSt28__throw_bad_array_new_lengthv", "_ZTISt20bad_array_new_length" },
	  { "_ZSt25__throw_bad_function_callv", "_ZTISt17bad_function_call" },
	};
	for( auto const &t : T ) {
		if( N == t.first ) {
			return t.second;
		}
	}
	return nullptr;
}
// constructing the message of an exception: taken not to fail
static bool messageCtor( StringRef N ) {
	for( char const *p : { "_ZNSt7__cxx1112basic_stringIc", "_ZNKSt7__cxx1112basic_stringIc", "_ZNSt12out_of_rangeC", "_ZNSt11logic_errorC", "_ZNSt13runtime_errorC", "_ZNSt12length_errorC", "_ZNSt16invalid_argumentC", "_ZNSt12domain_errorC", "_ZNSt11range_errorC", "_ZNSt14overflow_errorC", "_ZNSt15underflow_errorC" } ) {
		if( N.starts_with( p ) ) {
			return true;
		}
	}
	return false;
}
// is an exception of type T caught by a handler for C? 1 yes, 0 no, -1 unknown
static int derives( GlobalVariable const *T, GlobalVariable const *C, int depth = 0 ) {
	if( T == C ) {
		return 1;
	}
	if( depth > 16 ) {
		return -1;
	}
	if( T->hasInitializer( ) ) {
		int r = 0;
		std::function<void( Value const * )> go = [&]( Value const *V ) {
			V = V->stripPointerCasts( );
			if( auto *G = dyn_cast<GlobalVariable>( V ) ) {
				if( G->getName( ).starts_with( "_ZTI" ) ) {
					int d = derives( G, C, depth + 1 );
					r = d == 1 || r == 1 ? 1 : d == -1 ? -1 : r;
				}
			} else if( auto *K = dyn_cast<Constant>( V ) ) {
				for( auto const &o : K->operands( ) ) {
					go( o.get( ) );
				}
			}
		};
		go( T->getInitializer( ) );
		return r;
	}
	static std::map<std::string, char const *> const base = {
	  { "_ZTISt12out_of_range", "_ZTISt11logic_error" }, { "_ZTISt12length_error", "_ZTISt11logic_error" }, { "_ZTISt16invalid_argument", "_ZTISt11logic_error" }, { "_ZTISt12domain_error", "_ZTISt11logic_error" }, { "_ZTISt11range_error", "_ZTISt13runtime_error" }, { "_ZTISt14overflow_error", "_ZTISt13runtime_error" }, { "_ZTISt15underflow_error", "_ZTISt13runtime_error" }, { "_ZTISt11logic_error", "_ZTISt9exception" }, { "_ZTISt13runtime_error", "_ZTISt9exception" }, { "_ZTISt9bad_alloc", "_ZTISt9exception" }, { "_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc" }, { "_ZTISt19bad_optional_access", "_ZTISt9exception" }, { "_ZTISt18bad_variant_access", "_ZTISt9exception" }, { "_ZTISt17bad_function_call", "_ZTISt9exception" }, { "_ZTISt12system_error", "_ZTISt13runtime_error" }, { "_ZTISt9exception", nullptr } };
	std::string n = T->getName( ).str( );
	auto it = base.find( n );
	if( it == base.end( ) ) {
		// fundamental types and pointers to them have no bases
		return n.size( ) <= 7 ? 0 : -1;
	}
	for( ; it != base.end( ) && it->second; it = base.find( it->second ) ) {
		if( C->getName( ) == it->second ) {
			return 1;
		}
	}
	return 0;
}
static bool singleBases( GlobalVariable const *T ) {
	if( !T->hasInitializer( ) ) {
		return true; // the ones of the standard library that are thrown here
	}
	std::string txt;
	raw_string_ostream os( txt );
	T->getInitializer( )->print( os );
	return os.str( ).find( "__vmi_class_type_info" ) == std::string::npos;
}
// The type of the exception in flight becomes an ordinary variable, and which
// handler takes it an ordinary condition on it.
static void lowerTypes( Module &M ) {
	if( !typedThrows( M ) ) {
		return;
	}
	auto &C = M.getContext( );
	auto *I32 = Type::getInt32Ty( C );
	FunctionCallee Any = M.getOrInsertFunction( "vs_int", FunctionType::get( I32, false ) );
	if( auto *AF = dyn_cast<Function>( Any.getCallee( ) ) ) {
		AF->setDoesNotThrow( );
	}
	// the object that is thrown is the one the handler gets
	FunctionCallee Obj = M.getOrInsertFunction( "vs_exception_object", FunctionType::get( PointerType::getUnqual( C ), false ) );
	if( auto *OF = dyn_cast<Function>( Obj.getCallee( ) ) ) {
		OF->setDoesNotThrow( );
		OF->setOnlyReadsMemory( );
	}
	std::map<GlobalVariable *, int> id;
	auto idOf = [&]( GlobalVariable *G ) {
		auto it = id.try_emplace( G, static_cast<int>( id.size( ) ) + 1 ).first;
		return it->second;
	};
	for( auto &F : M ) {
		if( F.isDeclaration( ) && messageCtor( F.getName( ) ) ) {
			F.setDoesNotThrow( );
		}
	}
	for( auto &F : M ) {
		if( F.isDeclaration( ) || !F.getName( ).starts_with( "vs_drv_" ) ) {
			continue;
		}
		std::vector<InvokeInst *> inv;
		std::vector<LandingPadInst *> lps;
		std::vector<CallInst *> ids, dead;
		std::vector<CallBase *> begins;
		for( auto &I : instructions( F ) ) {
			if( auto *CB = dyn_cast<CallBase>( &I ); CB && CB->getCalledFunction( ) ) {
				if( CB->getCalledFunction( )->getName( ) == "__cxa_end_catch" ) {
					CB->setDoesNotThrow( );
				} else if( CB->getCalledFunction( )->getName( ) == "__cxa_begin_catch" ) {
					begins.push_back( CB );
				}
			}
			if( auto *II = dyn_cast<InvokeInst>( &I ) ) {
				if( auto *Cal = II->getCalledFunction( ); Cal && Cal->isDeclaration( ) && messageCtor( Cal->getName( ) ) ) {
					II->setDoesNotThrow( );
				}
				inv.push_back( II );
			} else if( auto *L = dyn_cast<LandingPadInst>( &I ) ) {
				lps.push_back( L );
			} else if( auto *CI = dyn_cast<CallInst>( &I ) ) {
				if( CI->getIntrinsicID( ) == Intrinsic::eh_typeid_for ) {
					ids.push_back( CI );
				} else if( CI->getCalledFunction( ) && CI->getCalledFunction( )->getName( ) == "vs_throws" ) {
					dead.push_back( CI );
				}
			}
		}
		for( auto *D : dead ) {
			D->eraseFromParent( );
		}
		IRBuilder<> EB( &*F.getEntryBlock( ).getFirstInsertionPt( ) );
		auto *Sel = EB.CreateAlloca( I32 );
		auto *PtrTy = PointerType::getUnqual( C );
		auto *What = EB.CreateAlloca( PtrTy );
		bool objects = true;
		std::set<GlobalVariable *> thrown;
		for( auto *II : inv ) {
			if( II->doesNotThrow( ) ) {
				continue;
			}
			GlobalVariable *T = nullptr;
			bool thrower = false;
			if( auto *Cal = II->getCalledFunction( ) ) {
				if( Cal->getName( ) == "__cxa_throw" ) {
					T = dyn_cast<GlobalVariable>( II->getArgOperand( 1 )->stripPointerCasts( ) );
					II->setOnlyReadsMemory( );
					II->addParamAttr( 0, Attribute::NoCapture );
					II->addParamAttr( 0, Attribute::ReadOnly );
					new StoreInst( II->getArgOperand( 0 ), What, II );
					thrower = true;
					// the handler of a pointer gets its value, that of a base at an offset another address
					objects = objects && T && !T->getName( ).starts_with( "_ZTIP" ) && singleBases( T );
				} else if( char const *n = Cal->isDeclaration( ) ? stdThrower( Cal->getName( ) ) : nullptr ) {
					T = dyn_cast<GlobalVariable>( M.getOrInsertGlobal( n, PointerType::getUnqual( C ) ) );
				}
			}
			IRBuilder<> B( II );
			if( T ) {
				thrown.insert( T );
				B.CreateStore( ConstantInt::get( I32, idOf( T ) ), Sel );
			} else {
				B.CreateStore( B.CreateCall( Any ), Sel );
			}
			if( !thrower ) {
				B.CreateStore( B.CreateCall( Obj ), What );
			}
		}
		for( auto *L : lps ) {
			std::vector<User *> us( L->user_begin( ), L->user_end( ) );
			IRBuilder<> B( L->getNextNode( ) );
			Value *raw = B.CreateLoad( I32, Sel ), *sel = raw;
			if( objects ) {
				Value *w = B.CreateLoad( PtrTy, What );
				for( auto *U : us ) {
					auto *EV = dyn_cast<ExtractValueInst>( U );
					if( EV && EV->getIndices( )[0] == 0 ) {
						EV->replaceAllUsesWith( w );
					}
				}
			}
			for( auto *T : thrown ) {
				int hit = 0;
				bool unknown = false;
				for( unsigned i = 0; i < L->getNumClauses( ) && hit == 0 && !unknown; ++i ) {
					if( !L->isCatch( i ) ) {
						unknown = true;
						break;
					}
					auto *H = dyn_cast<GlobalVariable>( L->getClause( i )->stripPointerCasts( ) );
					if( !H ) {
						hit = 1 << 20; // catch( ... )
						break;
					}
					int d = derives( T, H );
					unknown = d == -1;
					hit = d == 1 ? idOf( H ) : 0;
				}
				Value *to = unknown ? static_cast<Value *>( B.CreateCall( Any ) ) : ConstantInt::get( I32, hit );
				sel = B.CreateSelect( B.CreateICmpEQ( raw, ConstantInt::get( I32, idOf( T ) ) ), to, sel );
			}
			Value *agg = B.CreateInsertValue( L, sel, 1 );
			if( objects ) {
				agg = B.CreateInsertValue( agg, B.CreateLoad( PtrTy, What ), 0 );
			}
			for( auto *U : us ) {
				auto *EV = dyn_cast<ExtractValueInst>( U );
				if( EV && EV->getIndices( )[0] == 1 ) {
					EV->replaceAllUsesWith( sel );
				} else if( !EV ) {
					U->replaceUsesOfWith( L, agg );
				}
			}
		}
		for( auto *CB : begins ) {
			if( objects ) {
				CB->replaceAllUsesWith( CB->getArgOperand( 0 ) );
			}
		}
		for( auto *CI : ids ) {
			auto *G = dyn_cast<GlobalVariable>( CI->getArgOperand( 0 )->stripPointerCasts( ) );
			CI->replaceAllUsesWith( G ? static_cast<Value *>( ConstantInt::get( I32, idOf( G ) ) ) : ConstantInt::get( I32, 1 << 20 ) );
			CI->eraseFromParent( );
		}
	}
}
static void prepare( Module &M ) {
	// allocation pairs are only folded away where no driver watches them
	bool heap = false;
	for( auto const *fl : { "vs_heap", "vs_no_leak" } ) {
		heap = heap || ( M.getFunction( fl ) && !M.getFunction( fl )->use_empty( ) );
	}
	for( auto &F : M ) {
		for( auto &I : instructions( F ) ) {
			I.setMetadata( LLVMContext::MD_loop, nullptr ); // clang -O1 asks not to unroll
			auto *CB = dyn_cast<CallBase>( &I );
			auto *Cal = CB ? CB->getCalledFunction( ) : nullptr;
			if( heap && Cal && ( Interp::allocKind( Cal->getName( ) ) || Interp::freeKind( Cal->getName( ) ) ) ) {
				CB->removeFnAttr( Attribute::Builtin );
				CB->addFnAttr( Attribute::NoBuiltin );
			}
		}
	}
	// recursion detection is left to the inliner; mark everything inlinable
	for( auto &F : M ) {
		if( F.isDeclaration( ) ) {
			continue;
		}
		F.removeFnAttr( Attribute::OptimizeNone );
		F.removeFnAttr( Attribute::OptimizeForSize );
		F.removeFnAttr( Attribute::MinSize );
		F.removeFnAttr( Attribute::MustProgress );
		bool drv = F.getName( ).starts_with( "vs_drv_" );
		if( drv ) {
			F.addFnAttr( Attribute::NoInline );
			F.addFnAttr( Attribute::NoRecurse );
			continue;
		}
		if( F.hasFnAttribute( Attribute::NoReturn ) && !typedThrows( M ) ) {
			F.removeFnAttr( Attribute::AlwaysInline );
			F.addFnAttr( Attribute::NoInline );
			continue;
		}
		if( F.hasFnAttribute( "vs-opaque" ) ) {
			continue;
		}
		F.removeFnAttr( Attribute::NoInline );
		bool rec = false;
		for( auto &I : instructions( F ) ) {
			if( auto *CB = dyn_cast<CallBase>( &I ) ) {
				CB->removeFnAttr( Attribute::NoInline );
				if( CB->getCalledFunction( ) == &F ) {
					rec = true;
				}
			}
		}
		if( rec ) {
			F.removeFnAttr( Attribute::AlwaysInline );
		} else {
			F.addFnAttr( Attribute::AlwaysInline );
		}
		if( !F.hasLocalLinkage( ) ) {
			F.setLinkage( GlobalValue::InternalLinkage );
			F.setComdat( nullptr );
		}
	}
	for( auto &F : M ) {
		if( F.hasFnAttribute( "vs-opaque" ) ) {
			F.addFnAttr( Attribute::NoInline );
		}
	}
}
// the first rounds of every innermost loop are written out in a driver that asks
// for it (the loop itself stays behind them)
struct PeelPass : PassInfoMixin<PeelPass> {
	PreservedAnalyses run( Function &F, FunctionAnalysisManager &FAM ) {
		unsigned n = 0;
		if( !F.hasFnAttribute( "vs_peel" ) || F.getFnAttribute( "vs_peel" ).getValueAsString( ).getAsInteger( 10, n ) || n == 0 ) {
			return PreservedAnalyses::all( );
		}
		auto &LI = FAM.getResult<LoopAnalysis>( F );
		auto &SE = FAM.getResult<ScalarEvolutionAnalysis>( F );
		auto &DT = FAM.getResult<DominatorTreeAnalysis>( F );
		auto &AC = FAM.getResult<AssumptionAnalysis>( F );
		for( auto *L : LI.getLoopsInPreorder( ) ) {
			if( L->isInnermost( ) && canPeel( L ) ) {
				ValueToValueMapTy VMap;
				peelLoop( L, n, &LI, &SE, DT, &AC, true, VMap );
			}
		}
		return PreservedAnalyses::none( );
	}
};
// a pointer a loop moves by a constant step is its start plus that step times one
// common counter: two pointers, or a pointer and an index, that move together are
// then seen to
struct CounterPass : PassInfoMixin<CounterPass> {
	PreservedAnalyses run( Function &F, FunctionAnalysisManager &FAM ) {
		auto &LI = FAM.getResult<LoopAnalysis>( F );
		auto &SE = FAM.getResult<ScalarEvolutionAnalysis>( F );
		auto &C = F.getContext( );
		auto *I64 = Type::getInt64Ty( C );
		for( auto *L : LI.getLoopsInPreorder( ) ) {
			auto *H = L->getHeader( );
			auto *Pre = L->getLoopPreheader( );
			auto *Latch = L->getLoopLatch( );
			if( !Pre || !Latch ) {
				continue;
			}
			std::vector<std::pair<PHINode *, APInt>> todo;
			PHINode *IV = nullptr;
			for( auto &P : H->phis( ) ) {
				if( !( P.getType( ) == I64 || P.getType( )->isPointerTy( ) ) || !SE.isSCEVable( P.getType( ) ) ) {
					continue;
				}
				auto *A = dyn_cast<SCEVAddRecExpr>( SE.getSCEV( &P ) );
				auto *S = A && A->getLoop( ) == L && A->isAffine( ) ? dyn_cast<SCEVConstant>( A->getStepRecurrence( SE ) ) : nullptr;
				if( S && P.getType( )->isPointerTy( ) ) {
					todo.push_back( { &P, S->getAPInt( ) } );
				} else if( S && S->getAPInt( ).isOne( ) && A->getStart( )->isZero( ) ) {
					IV = &P;
				}
			}
			if( todo.empty( ) ) {
				continue;
			}
			if( !IV ) {
				IV = PHINode::Create( I64, 2, "vs.iv", &H->front( ) );
				auto *Next = BinaryOperator::CreateAdd( IV, ConstantInt::get( I64, 1 ), "vs.iv.next", Latch->getTerminator( ) );
				IV->addIncoming( ConstantInt::get( I64, 0 ), Pre );
				IV->addIncoming( Next, Latch );
			}
			IRBuilder<> B( H, H->getFirstInsertionPt( ) );
			for( auto &[P, step] : todo ) {
				Value *start = P->getIncomingValueForBlock( Pre );
				Value *N = B.CreateGEP( B.getInt8Ty( ), start, B.CreateMul( IV, ConstantInt::get( I64, step.getSExtValue( ), true ) ) );
				P->replaceAllUsesWith( N );
				P->eraseFromParent( );
			}
			SE.forgetLoop( L );
		}
		return PreservedAnalyses::none( );
	}
};
static void runPipe( Module &M, std::string const &pipe, int o3 ) {
	PipelineTuningOptions PTO;
	PTO.LoopVectorization = false;
	PTO.SLPVectorization = false;
	PTO.LoopInterleaving = false;
	PTO.LoopUnrolling = o3 != 1;
	PassBuilder PB( nullptr, PTO );
	LoopAnalysisManager LAM;
	FunctionAnalysisManager FAM;
	CGSCCAnalysisManager CGAM;
	ModuleAnalysisManager MAM;
	PB.registerModuleAnalyses( MAM );
	PB.registerCGSCCAnalyses( CGAM );
	PB.registerFunctionAnalyses( FAM );
	PB.registerLoopAnalyses( LAM );
	PB.crossRegisterProxies( LAM, FAM, CGAM, MAM );
	PB.registerPipelineParsingCallback( []( StringRef Name, FunctionPassManager &FPM, ArrayRef<PassBuilder::PipelineElement> ) {
		if( Name == "vs-counter" ) {
			FPM.addPass( CounterPass( ) );
			return true;
		}
		if( Name == "vs-peel" ) {
			FPM.addPass( PeelPass( ) );
			return true;
		}
		return false;
	} );
	ModulePassManager MPM;
	if( !pipe.empty( ) ) {
		if( auto Err = PB.parsePassPipeline( MPM, pipe ) ) {
			errs( ) << "bad pipeline: " << toString( std::move( Err ) ) << "\n";
			exit( 3 );
		}
	} else {
		for( int i = 0; i < o3; ++i ) {
			MPM.addPass( PB.buildPerModuleDefaultPipeline( OptimizationLevel::O3 ) );
		}
	}
	MPM.run( M, MAM );
}
// ( p + a ) + b is p + ( a + b ): constant offsets from the same base get one name
static bool foldAddresses( Module &M ) {
	bool any = false;
	auto const &DL = M.getDataLayout( );
	for( auto &F : M ) {
		for( auto &I : instructions( F ) ) {
			auto *G = dyn_cast<GetElementPtrInst>( &I );
			auto *B = G ? dyn_cast<GetElementPtrInst>( G->getPointerOperand( ) ) : nullptr;
			if( !B || G->getType( )->isVectorTy( ) ) {
				continue;
			}
			APInt off( DL.getIndexTypeSizeInBits( G->getType( ) ), 0 );
			Value *base = G->stripAndAccumulateConstantOffsets( DL, off, true );
			if( base == B || base == G || base->getType( ) != G->getType( ) ) {
				continue;
			}
			auto *N = GetElementPtrInst::Create( Type::getInt8Ty( M.getContext( ) ), base, { ConstantInt::get( M.getContext( ), off ) }, "", G );
			N->setDebugLoc( G->getDebugLoc( ) );
			N->takeName( G );
			G->replaceAllUsesWith( N );
			any = true;
		}
	}
	return any;
}
// Every driver is also checked for undefined behaviour made visible by clang's
// trap instrumentation, and - in drivers that say so - for abnormal exits.
static void insertSink( Instruction *Before, std::string const &msg ) {
	Module *M = Before->getModule( );
	IRBuilder<> B( Before );
	B.SetCurrentDebugLocation( Before->getDebugLoc( ) );
	auto FC = M->getOrInsertFunction( "vs_fail", FunctionType::get( B.getVoidTy( ), { B.getPtrTy( ) }, false ) );
	auto *Str = ConstantDataArray::getString( M->getContext( ), msg );
	auto *GV = new GlobalVariable( *M, Str->getType( ), true, GlobalValue::PrivateLinkage, Str, "vs.msg" );
	auto *Call = B.CreateCall( FC, { GV } );
	Call->addFnAttr( Attribute::NoMerge );
	Call->setDoesNotThrow( );
	if( auto *F = dyn_cast<Function>( FC.getCallee( ) ) ) {
		F->setDoesNotThrow( );
		F->addFnAttr( Attribute::NoMerge );
		F->addFnAttr( Attribute::Cold );
	}
}
static bool allDriver( Instruction const *I ) {
	DebugLoc const &dl = I->getDebugLoc( );
	for( DILocation *l = dl.get( ); l; l = l->getInlinedAt( ) ) {
		if( l->getFilename( ).contains( "/daw/" ) ) {
			return false;
		}
	}
	return true;
}
// A scalar variable of internal linkage only the driver touches lives in the
// driver: nothing that is called from it can see it.
static void localise( Module &M ) {
	for( auto &GV : M.globals( ) ) {
		if( GV.isConstant( ) || !GV.hasLocalLinkage( ) || GV.isThreadLocal( ) || !GV.getValueType( )->isSingleValueType( ) ) {
			continue;
		}
		Function *F = nullptr;
		bool ok = !GV.use_empty( );
		for( auto *U : GV.users( ) ) {
			Function *G = nullptr;
			if( auto *L = dyn_cast<LoadInst>( U ) ) {
				G = L->isVolatile( ) || L->getType( ) != GV.getValueType( ) ? nullptr : L->getFunction( );
			} else if( auto *St = dyn_cast<StoreInst>( U ) ) {
				G = St->isVolatile( ) || St->getValueOperand( ) == &GV || St->getValueOperand( )->getType( ) != GV.getValueType( ) ? nullptr : St->getFunction( );
			}
			if( !G || ( F && F != G ) || !G->getName( ).starts_with( "vs_drv_" ) ) {
				ok = false;
				break;
			}
			F = G;
		}
		if( !ok ) {
			continue;
		}
		IRBuilder<> B( &*F->getEntryBlock( ).getFirstInsertionPt( ) );
		auto *A = B.CreateAlloca( GV.getValueType( ) );
		GV.replaceAllUsesWith( A );
		B.CreateStore( B.CreateLoad( GV.getValueType( ), &GV ), A );
	}
}
static void addSinks( Module &M ) {
	std::vector<std::pair<Instruction *, std::string>> todo;
	for( auto &F : M ) {
		if( F.isDeclaration( ) || !F.getName( ).starts_with( "vs_drv_" ) ) {
			continue;
		}
		bool total = false, noub = false;
		std::vector<Instruction *> dead;
		for( auto &I : instructions( F ) ) {
			if( auto *CB = dyn_cast<CallBase>( &I ) ) {
				if( CB->getCalledFunction( ) && CB->getCalledFunction( )->getName( ) == "vs_total" ) {
					total = true;
					dead.push_back( &I );
				}
				for( auto const *fl : { "vs_heap", "vs_alloc_ok", "vs_no_leak" } ) {
					if( CB->getCalledFunction( ) && CB->getCalledFunction( )->getName( ) == fl ) {
						F.addFnAttr( fl );
						dead.push_back( &I );
					}
				}
				if( CB->getCalledFunction( ) && CB->getCalledFunction( )->getName( ) == "vs_peel" ) {
					if( auto *C = dyn_cast<ConstantInt>( CB->getArgOperand( 0 ) ) ) {
						F.addFnAttr( "vs_peel", std::to_string( C->getZExtValue( ) ) );
					}
					dead.push_back( &I );
				}
				if( CB->getCalledFunction( ) && CB->getCalledFunction( )->getName( ) == "vs_allow_ub" ) {
					noub = true;
					dead.push_back( &I );
				}
			}
		}
		for( auto *I : dead ) {
			I->eraseFromParent( );
		}
		for( auto &I : instructions( F ) ) {
			auto *CB = dyn_cast<CallBase>( &I );
			if( CB && CB->getCalledFunction( ) && CB->getCalledFunction( )->getName( ) == "vs_unreachable" ) {
				// the library's own claims only; the standard library's are hints
				// (std::unreachable( ) is judged by where it is called from)
				DILocation *L = I.getDebugLoc( ).get( );
				if( L && L->getInlinedAt( ) && L->getScope( )->getSubprogram( ) && L->getScope( )->getSubprogram( )->getName( ) == "unreachable" ) {
					L = L->getInlinedAt( );
				}
				if( !noub && L && StringRef( L->getFilename( ) ).contains( "/daw/" ) ) {
					todo.push_back( { &I, std::string( "undefined behaviour: reaches code marked unreachable @ " ) + locChain( &I ) } );
				}
				continue;
			}
			if( CB && CB->getCalledFunction( ) && CB->getCalledFunction( )->getIntrinsicID( ) == Intrinsic::ubsantrap ) {
				if( !noub ) {
					// clang also traps behind calls that never return
					bool behind = false;
					Instruction *Pv = &I;
					for( int hop = 0; hop < 16 && !behind; ++hop ) {
						Instruction *Q = Pv->getPrevNonDebugInstruction( );
						if( !Q ) {
							auto *PB = Pv->getParent( )->getSinglePredecessor( );
							if( !PB ) {
								break;
							}
							Q = PB->getTerminator( );
						}
						if( auto *PC = dyn_cast<CallBase>( Q ) ) {
							behind = PC->doesNotReturn( );
							if( !isa<DbgInfoIntrinsic>( Q ) ) {
								break;
							}
						} else if( !isa<BranchInst>( Q ) ) {
							break;
						}
						Pv = Q;
					}
					if( behind ) {
						continue;
					}
					uint64_t kind = cast<ConstantInt>( CB->getArgOperand( 0 ) )->getZExtValue( );
					char const *nm = kind == 11 ? "falls off the end of a function" : kind == 1 ? "reaches code marked unreachable" : kind == 22 ? "null or misaligned pointer use" : kind == 20 ? "shift out of range" : kind == 18 ? "array index out of range" : kind == 3 ? "division by zero or overflow" : "other";
					todo.push_back( { &I, std::string( "undefined behaviour: " ) + nm + " #" + std::to_string( kind ) + ( allDriver( &I ) ? " in driver" : "" ) + " @ " + locChain( &I ) } );
				}
				continue;
			}
			if( !total ) {
				continue;
			}
			if( auto *CI = dyn_cast<CallInst>( &I ) ) {
				if( CI->doesNotReturn( ) && !CI->isInlineAsm( ) ) {
					auto *Cal = CI->getCalledFunction( );
					if( Cal && Cal->getName( ) == "vs_stop" ) {
						continue;
					}
					todo.push_back( { &I, "leaves by " + ( Cal ? demangle( Cal->getName( ).str( ) ) : std::string( "a call" ) ) + " @ " + locChain( &I ) } );
				}
			} else if( isa<ResumeInst>( &I ) ) {
				todo.push_back( { &I, "leaves by an exception" } );
			}
		}
	}
	for( auto &t : todo ) {
		insertSink( t.first, t.second );
	}
}
static std::string esc( std::string const &s ) {
	std::string r;
	for( char c : s ) {
		if( c == '"' || c == '\\' ) {
			r.push_back( '\\' );
			r.push_back( c );
		} else if( static_cast<unsigned char>( c ) < 32 ) {
			r += ' ';
		} else {
			r.push_back( c );
		}
	}
	return r;
}
static void calls( Function &F, StringRef nm, std::multiset<std::string> &out ) {
	for( auto &I : instructions( F ) ) {
		if( auto *CB = dyn_cast<CallBase>( &I ) ) {
			if( CB->getCalledFunction( ) && CB->getCalledFunction( )->getName( ) == nm ) {
				out.insert( Interp::cstr( CB->getArgOperand( 0 ) ) );
			}
		}
	}
}

// Which bit of what each bit of an integer is. Every bit of every integer value
// is numbered: 0 and 1 are the constants, other numbers stand for one bit of a
// value nothing is known about or for and/xor of two numbered bits; 2k+1 is the
// complement of 2k. Values whose bits carry the same numbers are equal, and a
// comparison of two such values is replaced by its outcome.
namespace bits {
	struct Table {
		struct Node {
			int a, b;
			bool isXor;
		};
		std::map<std::tuple<int, int, int>, int> have; // kind, a, b -> number
		std::map<std::pair<Value *, int>, int> refs;
		int next = 2;
		int ref( Value *v, int i ) {
			auto [it, neu] = refs.try_emplace( { v, i }, next );
			if( neu ) {
				next += 2;
			}
			return it->second;
		}
		int band( int a, int b ) {
			if( a > b ) {
				std::swap( a, b );
			}
			if( a == 0 ) {
				return 0;
			}
			if( a == 1 || a == b ) {
				return b;
			}
			if( ( a ^ 1 ) == b ) {
				return 0;
			}
			auto [it, neu] = have.try_emplace( { 0, a, b }, next );
			if( neu ) {
				next += 2;
			}
			return it->second;
		}
		int bor( int a, int b ) {
			return band( a ^ 1, b ^ 1 ) ^ 1;
		}
		int bxor( int a, int b ) {
			int flip = ( a & 1 ) ^ ( b & 1 );
			a &= ~1;
			b &= ~1;
			if( a > b ) {
				std::swap( a, b );
			}
			if( a == b ) {
				return flip;
			}
			if( a == 0 ) {
				return b ^ flip;
			}
			// a sum of the same terms in any order is the same sum
			std::vector<int> t, ta = terms( a ), tb = terms( b );
			std::set_symmetric_difference( ta.begin( ), ta.end( ), tb.begin( ), tb.end( ), std::back_inserter( t ) );
			if( t.empty( ) ) {
				return flip;
			}
			if( t.size( ) == 1 ) {
				return t[0] ^ flip;
			}
			if( t.size( ) > 256 ) {
				t = { a, b };
			}
			auto [it, neu] = sums.try_emplace( t, next );
			if( neu ) {
				sumOf[next] = t;
				next += 2;
			}
			return it->second ^ flip;
		}
		std::map<std::vector<int>, int> sums;
		std::map<int, std::vector<int>> sumOf;
		std::vector<int> terms( int a ) const {
			auto it = sumOf.find( a );
			return it == sumOf.end( ) ? std::vector<int>{ a } : it->second;
		}
	};
	using Vec = std::vector<int>;
	struct Eval {
		Table T;
		std::map<Value *, Vec> memo;
		static int width( Value *v ) {
			return v->getType( )->isIntegerTy( ) ? static_cast<int>( v->getType( )->getIntegerBitWidth( ) ) : 0;
		}
		Vec opaque( Value *v ) {
			Vec r( static_cast<size_t>( width( v ) ) );
			for( size_t i = 0; i < r.size( ); ++i ) {
				r[i] = T.ref( v, static_cast<int>( i ) );
			}
			return r;
		}
		// the same operation of equal operands is an equal value
		std::map<std::tuple<unsigned, int, Vec, Vec>, Value *> same;
		Vec numbered( Instruction *I, Vec a, Vec b ) {
			if( I->isCommutative( ) && b < a ) {
				std::swap( a, b );
			}
			return opaque( same.try_emplace( { I->getOpcode( ), width( I ), std::move( a ), std::move( b ) }, I ).first->second );
		}
		Vec of( Value *v ) {
			auto it = memo.find( v );
			if( it != memo.end( ) ) {
				return it->second;
			}
			memo[v] = opaque( v ); // what a loop comes back to
			Vec r = work( v );
			memo[v] = r;
			return r;
		}
		static Vec shift( Vec const &a, int left, int fill ) { // left < 0: to the right
			int const w = static_cast<int>( a.size( ) );
			Vec r( a.size( ), fill );
			for( int i = 0; i < w; ++i ) {
				int const from = i - left;
				if( from >= 0 && from < w ) {
					r[static_cast<size_t>( i )] = a[static_cast<size_t>( from )];
				}
			}
			return r;
		}
		Vec work( Value *v ) {
			int const w = width( v );
			if( auto *C = dyn_cast<ConstantInt>( v ) ) {
				Vec r( static_cast<size_t>( w ) );
				for( int i = 0; i < w; ++i ) {
					r[static_cast<size_t>( i )] = C->getValue( )[static_cast<unsigned>( i )] ? 1 : 0;
				}
				return r;
			}
			auto *I = dyn_cast<Instruction>( v );
			if( !I || w == 0 || w > 128 ) {
				return opaque( v );
			}
			auto bin = [&]( auto f ) {
				Vec a = of( I->getOperand( 0 ) ), b = of( I->getOperand( 1 ) );
				Vec r( a.size( ) );
				for( size_t i = 0; i < r.size( ); ++i ) {
					r[i] = f( a[i], b[i] );
				}
				return r;
			};
			auto amount = [&]( Value *s ) -> int {
				auto *C = dyn_cast<ConstantInt>( s );
				return C && C->getValue( ).ult( static_cast<uint64_t>( w ) ) ? static_cast<int>( C->getZExtValue( ) ) : -1;
			};
			switch( I->getOpcode( ) ) {
			case Instruction::And:
				return bin( [&]( int a, int b ) { return T.band( a, b ); } );
			case Instruction::Or:
				return bin( [&]( int a, int b ) { return T.bor( a, b ); } );
			case Instruction::Xor:
				return bin( [&]( int a, int b ) { return T.bxor( a, b ); } );
			case Instruction::Add: {
				// without carries it is or
				Vec a = of( I->getOperand( 0 ) ), b = of( I->getOperand( 1 ) );
				for( size_t i = 0; i < a.size( ); ++i ) {
					if( T.band( a[i], b[i] ) != 0 ) {
						return numbered( I, a, b );
					}
				}
				return bin( [&]( int x, int y ) { return T.bor( x, y ); } );
			}
			case Instruction::Mul:
			case Instruction::Sub:
				return numbered( I, of( I->getOperand( 0 ) ), of( I->getOperand( 1 ) ) );
			case Instruction::Shl:
			case Instruction::LShr:
			case Instruction::AShr: {
				int const n = amount( I->getOperand( 1 ) );
				if( n < 0 ) {
					return opaque( v );
				}
				Vec a = of( I->getOperand( 0 ) );
				return shift( a, I->getOpcode( ) == Instruction::Shl ? n : -n, I->getOpcode( ) == Instruction::AShr ? a.back( ) : 0 );
			}
			case Instruction::Trunc: {
				Vec a = of( I->getOperand( 0 ) );
				a.resize( static_cast<size_t>( w ) );
				return a;
			}
			case Instruction::ZExt:
			case Instruction::SExt: {
				Vec a = of( I->getOperand( 0 ) );
				int const top = I->getOpcode( ) == Instruction::SExt ? a.back( ) : 0;
				a.resize( static_cast<size_t>( w ), top );
				return a;
			}
			case Instruction::Select: {
				auto *S = cast<SelectInst>( I );
				Vec c = of( S->getCondition( ) );
				if( c.size( ) != 1 ) {
					return opaque( v );
				}
				Vec a = of( S->getTrueValue( ) ), b = of( S->getFalseValue( ) ), r( a.size( ) );
				for( size_t i = 0; i < r.size( ); ++i ) {
					r[i] = a[i] == b[i] ? a[i] : T.bor( T.band( c[0], a[i] ), T.band( c[0] ^ 1, b[i] ) );
				}
				return r;
			}
			case Instruction::ICmp: {
				auto *P = cast<ICmpInst>( I );
				if( !P->isEquality( ) || !P->getOperand( 0 )->getType( )->isIntegerTy( ) ) {
					return opaque( v );
				}
				Vec a = of( P->getOperand( 0 ) ), b = of( P->getOperand( 1 ) );
				int ne = 0;
				for( size_t i = 0; i < a.size( ); ++i ) {
					ne = T.bor( ne, T.bxor( a[i], b[i] ) );
				}
				return { P->getPredicate( ) == ICmpInst::ICMP_EQ ? ne ^ 1 : ne };
			}
			case Instruction::Call: {
				auto *II = dyn_cast<IntrinsicInst>( I );
				if( !II ) {
					return opaque( v );
				}
				if( II->getIntrinsicID( ) == Intrinsic::bitreverse ) {
					Vec a = of( II->getArgOperand( 0 ) );
					std::reverse( a.begin( ), a.end( ) );
					return a;
				}
				if( II->getIntrinsicID( ) == Intrinsic::bswap ) {
					Vec a = of( II->getArgOperand( 0 ) ), r( a.size( ) );
					for( size_t i = 0; i < a.size( ); ++i ) {
						r[i] = a[( a.size( ) / 8 - 1 - i / 8 ) * 8 + i % 8];
					}
					return r;
				}
				if( II->getIntrinsicID( ) == Intrinsic::fshl || II->getIntrinsicID( ) == Intrinsic::fshr ) {
					auto *C = dyn_cast<ConstantInt>( II->getArgOperand( 2 ) );
					if( !C ) {
						return opaque( v );
					}
					int n = static_cast<int>( C->getValue( ).urem( static_cast<uint64_t>( w ) ) );
					Vec hi = of( II->getArgOperand( 0 ) ), lo = of( II->getArgOperand( 1 ) );
					Vec all = lo;
					all.insert( all.end( ), hi.begin( ), hi.end( ) );
					int from = II->getIntrinsicID( ) == Intrinsic::fshl ? w - n : n;
					return Vec( all.begin( ) + from, all.begin( ) + from + w );
				}
				return opaque( v );
			}
			default:
				return opaque( v );
			}
		}
	};
	static bool run( Function &F ) {
		bool any = false;
		Eval E;
		std::vector<Instruction *> dead;
		for( auto &I : instructions( F ) ) {
			auto *P = dyn_cast<ICmpInst>( &I );
			if( !P || P->use_empty( ) || !P->isEquality( ) || !P->getOperand( 0 )->getType( )->isIntegerTy( ) ) {
				continue;
			}
			Vec r = E.of( P );
			if( r.size( ) == 1 && r[0] < 2 ) {
				P->replaceAllUsesWith( ConstantInt::get( P->getType( ), static_cast<uint64_t>( r[0] ) ) );
				E.memo.clear( ); // operands changed
				E.same.clear( );
				any = true;
			}
		}
		return any;
	}
	static bool run( Module &M ) {
		bool any = false;
		for( auto &F : M ) {
			if( !F.isDeclaration( ) && F.getName( ).starts_with( "vs_drv_" ) ) {
				any = run( F ) || any;
			}
		}
		return any;
	}
} // namespace bits
static int realMain( int argc, char **argv ) {
	cl::ParseCommandLineOptions( argc, argv );
	LLVMContext Ctx;
	SMDiagnostic Err;
	auto M0 = parseIRFile( InFile, Err, Ctx );
	if( !M0 ) {
		Err.print( argv[0], errs( ) );
		return 3;
	}
	if( !OnlyDrv.empty( ) ) {
		for( auto &F : *M0 ) {
			if( F.getName( ).starts_with( "vs_drv_" ) && F.getName( ) != "vs_drv_" + OnlyDrv ) {
				F.deleteBody( );
			}
		}
		runPipe( *M0, "globaldce", 0 );
	}
	prepare( *M0 );
	// inline first, once
	runPipe( *M0, "function(loweratomic),always-inline,function(simplifycfg),always-inline,globaldce", 0 );
	// calls through stored function pointers whose value is known after a look at
	// the stores before them are calls like any other
	auto indirect = [&] {
		int n = 0;
		for( auto &F : *M0 ) {
			if( F.isDeclaration( ) || !F.getName( ).starts_with( "vs_drv_" ) ) {
				continue;
			}
			for( auto &I : instructions( F ) ) {
				if( auto *CB = dyn_cast<CallBase>( &I ) ) {
					n += CB->isIndirectCall( ) && !CB->isInlineAsm( );
				}
			}
		}
		return n;
	};
	for( int left = indirect( ), round = 0; left > 0 && round < 6; ++round ) {
		runPipe( *M0, "function(sroa,early-cse<memssa>,gvn,instsimplify,simplifycfg,adce),always-inline,globaldce", 0 );
		int now = indirect( );
		if( now == left && round > 1 ) {
			break;
		}
		left = now;
	}
	// what is left is called through a pointer that depends on the path (a vtable
	// pointer of an object made on either of two paths): tell the functions it can
	// be apart; whatever it is not equal to stays a call of something unknown
	if( indirect( ) > 0 ) {
		for( auto &G : *M0 ) {
			G.setUnnamedAddr( GlobalValue::UnnamedAddr::None ); // two functions are two functions
		}
	}
	for( int round = 0; round < 4 && indirect( ) > 0; ++round ) {
		bool any = false;
		for( auto &F : *M0 ) {
			if( F.isDeclaration( ) || !F.getName( ).starts_with( "vs_drv_" ) || F.getInstructionCount( ) > 20000 ) {
				continue;
			}
			std::vector<CallBase *> cs;
			for( auto &I : instructions( F ) ) {
				if( auto *CB = dyn_cast<CallBase>( &I ) ) {
					if( CB->isIndirectCall( ) && !CB->isInlineAsm( ) && !CB->hasMetadata( "vs.split" ) ) {
						cs.push_back( CB );
					}
				}
			}
			for( auto *CB : cs ) {
				std::vector<Function *> cand;
				for( auto &G : *M0 ) {
					if( !G.isDeclaration( ) && !G.getName( ).starts_with( "vs_drv_" ) && G.getFunctionType( ) == CB->getFunctionType( ) &&
					    G.hasAddressTaken( ) ) {
						cand.push_back( &G );
					}
				}
				CB->setMetadata( "vs.split", MDNode::get( Ctx, { } ) );
				if( cand.empty( ) || cand.size( ) > 16 ) {
					continue;
				}
				for( auto *G : cand ) {
					promoteCallWithIfThenElse( *CB, G ).setMetadata( "vs.split", nullptr );
				}
				any = true;
			}
		}
		if( !any ) {
			break;
		}
		runPipe( *M0, "always-inline,function(sroa,early-cse<memssa>,gvn,instsimplify,simplifycfg,adce),always-inline,globaldce", 0 );
	}
	lowerTypes( *M0 );
	if( !OnlyDrv.empty( ) ) {
		localise( *M0 );
	}
	addSinks( *M0 );
	struct Drv {
		bool returned = false;
		std::multiset<std::string> sites, reachSites;
		std::set<std::string> heavyLeft, heavyReach;
		std::set<std::string> open;  // still open after every analysis
		std::set<std::string> reached;
		bool reachKnown = false;
		std::vector<Finding> findings;
		std::vector<Finding> access;
		bool accessOpen = true;
		bool gaveUp = false;
		long steps = 0, nAccess = 0;
		int insts = 0;
		int libFns = 0;
		std::set<std::string> fns;
		std::string how;
	};
	std::map<std::string, Drv> drv;
	for( auto &F : *M0 ) {
		if( !F.isDeclaration( ) && F.getName( ).starts_with( "vs_drv_" ) ) {
			auto &D = drv[F.getName( ).str( )];
			calls( F, "vs_fail", D.sites );
			calls( F, "vs_reach", D.reachSites );
			D.insts = static_cast<int>( F.getInstructionCount( ) );
			for( auto &I : instructions( F ) ) {
				if( auto const &dl = I.getDebugLoc( ) ) {
					for( DILocation *l = dl.get( ); l; l = l->getInlinedAt( ) ) {
						std::string f = l->getFilename( ).str( );
						if( f.find( "include/daw/" ) != std::string::npos ) {
							if( auto *sp = l->getScope( )->getSubprogram( ) ) {
								D.fns.insert( f.substr( f.rfind( "include/daw/" ) ) + ":" + sp->getName( ).str( ) );
							}
						}
					}
				}
			}
		}
	}
#define VS_UNROLL "loop-simplify,lcssa,loop(loop-rotate),loop-mssa(licm),simplifycfg,instcombine<no-verify-fixpoint>,loop-simplify,lcssa,loop(indvars),loop-unroll<O2;no-partial;no-peeling;no-runtime;no-upperbound>,sroa,early-cse<memssa>,gvn,instsimplify,simplifycfg,adce"
#define VS_PEEL "function(sroa,early-cse<memssa>,simplifycfg,sccp,instsimplify,adce," VS_UNROLL ",loop-simplify,lcssa,loop(loop-rotate),loop-simplify,lcssa,vs-peel,instsimplify,simplifycfg,adce)"
	// an object that begins its life again has forgotten its old value
	for( auto &F : *M0 ) {
		std::vector<IntrinsicInst *> starts;
		for( auto &I : instructions( F ) ) {
			auto *II = dyn_cast<IntrinsicInst>( &I );
			if( II && II->getIntrinsicID( ) == Intrinsic::lifetime_start ) {
				starts.push_back( II );
			}
		}
		for( auto *II : starts ) {
			auto *A = dyn_cast<AllocaInst>( II->getArgOperand( 1 ) );
			if( A && !A->isArrayAllocation( ) && A->getAllocatedType( )->isSingleValueType( ) && !A->getAllocatedType( )->isVectorTy( ) ) {
				new StoreInst( UndefValue::get( A->getAllocatedType( ) ), A, II->getNextNode( ) );
			}
		}
	}
	for( auto &F : *M0 ) {
		if( F.hasFnAttribute( "vs_peel" ) ) {
			runPipe( *M0, VS_PEEL, 0 );
			break;
		}
	}
	// (A) heavy normalisation
	{
		auto MH = CloneModule( *M0 );
		runPipe( *MH, "", 2 );
		if( foldAddresses( *MH ) ) {
			runPipe( *MH, "", 1 );
		}
		for( int i = 0; i < 16 && bits::run( *MH ); ++i ) {
			runPipe( *MH, "", 1 );
		}
		if( DumpHeavy ) {
			for( auto &F : *MH ) {
				if( F.getName( ).starts_with( "vs_drv_" ) && ( OnlyDrv.empty( ) || F.getName( ) == "vs_drv_" + OnlyDrv ) ) {
					F.print( errs( ) );
				}
			}
		}
		for( auto &F : *MH ) {
			if( !F.isDeclaration( ) && F.getName( ).starts_with( "vs_drv_" ) ) {
				std::multiset<std::string> l, r;
				calls( F, "vs_fail", l );
				calls( F, "vs_reach", r );
				auto &D = drv[F.getName( ).str( )];
				D.heavyLeft.insert( l.begin( ), l.end( ) );
				D.heavyReach.insert( r.begin( ), r.end( ) );
				D.open = D.heavyLeft;
			}
		}
	}
	// (B) relational abstract interpretation on lighter normal forms
	// every pipeline fully unrolls loops of constant trip count
	char const *pipes[] = {
	  "function(sroa,early-cse<memssa>,simplifycfg,sccp,instsimplify,adce," VS_UNROLL ",loop-simplify,lcssa,loop(indvars),loop-unroll<O2;no-partial;no-peeling;no-runtime;no-upperbound>,sroa,early-cse<memssa>,gvn,instsimplify,simplifycfg,correlated-propagation,jump-threading,instsimplify,simplifycfg,adce,loop-simplify)",
	  "",
	  "function(sroa,early-cse<memssa>,simplifycfg,sccp,instsimplify,adce,loop-simplify,sroa,gvn,simplifycfg,correlated-propagation,jump-threading,instsimplify,simplifycfg,adce,loop-simplify)",
	  "function(sroa,early-cse<memssa>,simplifycfg,sccp,instsimplify,adce," VS_UNROLL ",loop-simplify,vs-counter,instsimplify,early-cse<memssa>,gvn,"
	  "instsimplify,simplifycfg,correlated-propagation,jump-threading,instsimplify,simplifycfg,adce,loop-simplify)",
	};
	// first every form briefly, then those that were not done in time
	std::set<std::pair<int, std::string>> done;
	int const nPipes = static_cast<int>( std::size( pipes ) ) + 1; // the last one: the first, behind peeling
	for( int turn = 0; turn < 2 * nPipes; ++turn ) {
		bool const peeled = turn % nPipes == nPipes - 1;
		auto *pp = pipes[peeled ? 0 : turn % nPipes];
		int const pi = turn + 1, budget = std::min<int>( BudgetMs, turn < nPipes ? static_cast<int>( BriefMs ) : turn % nPipes >= 3 ? 20000 : static_cast<int>( BudgetMs ) );
		bool needed = turn == 0;
		for( auto &[name, D] : drv ) {
			needed = needed || ( ( !D.open.empty( ) || D.accessOpen || D.gaveUp ) && !done.count( { turn % nPipes, name } ) );
		}
		if( !needed || ( getenv( "VS_PIPE" ) && atoi( getenv( "VS_PIPE" ) ) != turn % nPipes ) ) {
			continue;
		}
		auto ML = CloneModule( *M0 );
		if( peeled ) {
			bool any = false;
			for( auto &F : *ML ) {
				if( !F.isDeclaration( ) && F.getName( ).starts_with( "vs_drv_" ) && !F.hasFnAttribute( "vs_peel" ) && ( OnlyDrv.empty( ) || F.getName( ) == "vs_drv_" + OnlyDrv ) ) {
					F.addFnAttr( "vs_peel", "4" );
					any = true;
				}
			}
			if( !any ) {
				continue;
			}
			runPipe( *ML, VS_PEEL, 0 );
		}
		runPipe( *ML, pp, 1 );
		if( !*pp ) {
			runPipe( *ML, "function(loop-simplify)", 0 );
		}
		if( foldAddresses( *ML ) ) {
			runPipe( *ML, "function(early-cse<memssa>,gvn,instsimplify,simplifycfg,adce,loop-simplify)", 0 );
		}
		for( int i = 0; i < 16 && bits::run( *ML ); ++i ) {
			runPipe( *ML, "function(instsimplify,simplifycfg,adce,loop-simplify)", 0 );
		}
		for( auto &F : *ML ) {
			if( F.isDeclaration( ) || !F.getName( ).starts_with( "vs_drv_" ) ) {
				continue;
			}
			if( !OnlyDrv.empty( ) && F.getName( ) != "vs_drv_" + OnlyDrv ) {
				continue;
			}
			if( DumpIR && ( pi == 1 || getenv( "VS_PIPE" ) ) ) {
				F.print( errs( ) );
			}
			auto &D = drv[F.getName( ).str( )];
			if( pi > 1 && D.open.empty( ) && !D.accessOpen && !D.gaveUp ) {
				continue;
			}
			if( done.count( { turn % nPipes, F.getName( ).str( ) } ) ) {
				continue;
			}
			Atoms.clear( );
			FMCache.clear( );
			Identified.clear( );
			HeapOn = F.hasFnAttribute( "vs_heap" ) || F.hasFnAttribute( "vs_no_leak" );
			NoLeak = F.hasFnAttribute( "vs_no_leak" );
			AllocOk = F.hasFnAttribute( "vs_alloc_ok" );
			try {
				Interp In( F, budget );
				State S;
				for( auto &A : F.args( ) ) {
					Val v = In.fresh( A.getType( ), A.hasName( ) ? A.getName( ).str( ) : "arg" );
					if( A.getType( )->isPointerTy( ) && v.k == Val::Num ) {
						// user space address or null
						Atoms[v.n.t[0].first].hi = pow2( 47 );
						if( A.hasNoAliasAttr( ) ) {
							Identified.insert( v.n.t[0].first );
						}
						if( A.getDereferenceableBytes( ) > 0 || A.hasNonNullAttr( ) ) {
							Atoms[v.n.t[0].first].lo = 4096;
						}
					}
					S.env[&A] = v;
				}
				std::vector<Interp::Edge> init, back;
				init.push_back( { nullptr, S } );
				std::vector<std::pair<BasicBlock *, Interp::Edge>> ex;
				In.region( nullptr, &F.getEntryBlock( ), std::move( init ), back, ex );
				std::set<std::string> left;
				bool acc = false;
				std::vector<Finding> af, cf;
				for( auto &f : In.findings ) {
					if( f.kind == "check" ) {
						left.insert( f.msg );
						cf.push_back( f );
					} else {
						acc = true;
						af.push_back( f );
					}
				}
				std::set<std::string> no;
				for( auto &m : D.open ) {
					if( left.count( m ) ) {
						no.insert( m );
					}
				}
				D.open = no;
				D.findings = cf;
				if( !acc ) {
					D.accessOpen = false;
				}
				D.access = af;
				if( D.reachKnown ) {
					std::set<std::string> inter;
					for( auto &m : D.reached ) {
						if( In.reached.count( m ) ) {
							inter.insert( m );
						}
					}
					D.reached = inter;
				} else {
					D.reached = In.reached;
					D.reachKnown = true;
				}
				D.steps += In.steps;
				D.nAccess = std::max( D.nAccess, In.nAccess );
				D.returned = D.returned || In.returned;
				D.gaveUp = false;
				done.insert( { turn % nPipes, F.getName( ).str( ) } );
			} catch( GiveUp const & ) {
				D.gaveUp = true;
			}
		}
	}
	// report
	outs( ) << "{\"drivers\":[\n";
	bool firstD = true;
	for( auto &kv : drv ) {
		if( !OnlyDrv.empty( ) && kv.first != "vs_drv_" + OnlyDrv ) {
			continue;
		}
		auto &D = kv.second;
		outs( ) << ( firstD ? "" : ",\n" ) << "{\"driver\":\"" << kv.first.substr( 7 ) << "\",\"insts\":" << D.insts << ",\"steps\":" << D.steps << ",\"gave_up\":" << ( D.gaveUp ? "true" : "false" ) << ",\"returned\":" << ( D.returned ? "true" : "false" )
		        << ",\"accesses\":" << D.nAccess << ",\"functions\":[";
		firstD = false;
		bool f1 = true;
		for( auto &s : D.fns ) {
			outs( ) << ( f1 ? "" : "," ) << "\"" << esc( s ) << "\"";
			f1 = false;
		}
		outs( ) << "],\"obligations\":[";
		f1 = true;
		std::set<std::string> uniq( D.sites.begin( ), D.sites.end( ) );
		for( auto &m : uniq ) {
			outs( ) << ( f1 ? "" : "," ) << "{\"msg\":\"" << esc( m ) << "\",\"open\":" << ( D.open.count( m ) ? "true" : "false" ) << ",\"by\":\"" << ( !D.heavyLeft.count( m ) ? "normalisation" : D.open.count( m ) ? "none" : "relational" ) << "\"}";
			f1 = false;
		}
		outs( ) << "],\"reach\":[";
		f1 = true;
		std::set<std::string> ur( D.reachSites.begin( ), D.reachSites.end( ) );
		for( auto &m : ur ) {
			bool ok = D.heavyReach.count( m ) && ( !D.reachKnown || D.reached.count( m ) );
			outs( ) << ( f1 ? "" : "," ) << "{\"msg\":\"" << esc( m ) << "\",\"reachable\":" << ( ok ? "true" : "false" ) << "}";
			f1 = false;
		}
		outs( ) << "],\"findings\":[";
		f1 = true;
		auto pf = [&]( Finding const &f ) {
			outs( ) << ( f1 ? "" : "," ) << "{\"kind\":\"" << f.kind << "\",\"msg\":\"" << esc( f.msg ) << "\",\"where\":\"" << esc( f.where ) << "\",\"path\":[";
			bool g1 = true;
			for( auto &p : f.path ) {
				outs( ) << ( g1 ? "" : "," ) << "\"" << esc( p ) << "\"";
				g1 = false;
			}
			outs( ) << "]}";
			f1 = false;
		};
		for( auto &f : D.findings ) {
			if( D.open.count( f.msg ) ) {
				pf( f );
			}
		}
		if( D.accessOpen ) {
			for( auto &f : D.access ) {
				pf( f );
			}
		}
		outs( ) << "]}";
	}
	outs( ) << "\n]}\n";
	return 0;
}
// the interpreter recurses along the instructions of a block
int main( int argc, char **argv ) {
	struct Args {
		int c;
		char **v;
		int rc;
	} a{ argc, argv, 3 };
	pthread_attr_t at;
	pthread_attr_init( &at );
	pthread_attr_setstacksize( &at, size_t{ 1 } << 30 );
	pthread_t t;
	auto run = []( void *p ) -> void * {
		auto *x = static_cast<Args *>( p );
		x->rc = realMain( x->c, x->v );
		return nullptr;
	};
	if( pthread_create( &t, &at, run, &a ) != 0 ) {
		return 3;
	}
	pthread_join( t, nullptr );
	return a.rc;
}
