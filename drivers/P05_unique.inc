#define UNIQUE_COMMON( N, U )                                             \
	DRIVER( N##_dtor )( ) {                                                 \
		OWNS                                                                  \
		Obj a;                                                                \
		Obj *pa = ANY( a );                                                   \
		{                                                                     \
			U x( pa );                                                          \
			CHECK( x.get( ) == pa and x.operator->( ) == pa, "holds the pointer" ); \
			CHECK( static_cast<bool>( x ) == ( pa != nullptr ), "true exactly if it holds one" ); \
			LEFT( a );                                                          \
		}                                                                     \
		WENT( pa, a );                                                        \
		REACH( "end" );                                                       \
	}                                                                       \
	DRIVER( N##_empty )( ) {                                                \
		OWNS                                                                  \
		U x;                                                                  \
		U y( nullptr );                                                       \
		CHECK( x.get( ) == nullptr and y.get( ) == nullptr, "empty" );        \
		CHECK( not x and not y, "empty" );                                    \
		REACH( "end" );                                                       \
	}                                                                       \
	DRIVER( N##_move )( ) {                                                 \
		OWNS                                                                  \
		Obj a;                                                                \
		Obj *pa = ANY( a );                                                   \
		{                                                                     \
			U x( pa );                                                          \
			{                                                                   \
				U y( std::move( x ) );                                            \
				CHECK( y.get( ) == pa, "the pointer arrives" );                   \
				CHECK( x.get( ) == nullptr, "the source is empty" );              \
				LEFT( a );                                                        \
			}                                                                   \
			WENT( pa, a );                                                      \
		}                                                                     \
		WENT( pa, a );                                                        \
		REACH( "end" );                                                       \
	}                                                                       \
	DRIVER( N##_move_assign )( ) {                                          \
		OWNS                                                                  \
		Obj a, b;                                                             \
		Obj *pa = ANY( a );                                                   \
		Obj *pb = ANY( b );                                                   \
		{                                                                     \
			U x( pa );                                                          \
			U y( pb );                                                          \
			y = std::move( x );                                                 \
			CHECK( y.get( ) == pa, "the pointer arrives" );                     \
			CHECK( x.get( ) == nullptr, "the source is empty" );                \
			WENT( pb, b );                                                      \
			LEFT( a );                                                          \
		}                                                                     \
		WENT( pa, a );                                                        \
		WENT( pb, b );                                                        \
		REACH( "end" );                                                       \
	}                                                                       \
	DRIVER( N##_self_move )( ) {                                            \
		OWNS                                                                  \
		Obj a;                                                                \
		Obj *pa = ANY( a );                                                   \
		{                                                                     \
			U x( pa );                                                          \
			U &r = x;                                                           \
			x = std::move( r );                                                 \
			CHECK( x.get( ) == pa, "self move keeps the pointer" );             \
			LEFT( a );                                                          \
		}                                                                     \
		WENT( pa, a );                                                        \
		REACH( "end" );                                                       \
	}                                                                       \
	DRIVER( N##_release )( ) {                                              \
		OWNS                                                                  \
		Obj a;                                                                \
		Obj *pa = ANY( a );                                                   \
		{                                                                     \
			U x( pa );                                                          \
			Obj *r = x.release( );                                              \
			CHECK( r == pa, "release returns the pointer" );                    \
			CHECK( x.get( ) == nullptr, "and forgets it" );                     \
		}                                                                     \
		LEFT( a );                                                            \
		REACH( "end" );                                                       \
	}                                                                       \
	DRIVER( N##_reset )( ) {                                                \
		OWNS                                                                  \
		Obj a;                                                                \
		Obj *pa = ANY( a );                                                   \
		{                                                                     \
			U x( pa );                                                          \
			x.reset( );                                                         \
			WENT( pa, a );                                                      \
			CHECK( x.get( ) == nullptr, "empty afterwards" );                   \
			x.reset( );                                                         \
		}                                                                     \
		WENT( pa, a );                                                        \
		REACH( "end" );                                                       \
	}                                                                       \
	DRIVER( N##_swap )( ) {                                                 \
		OWNS                                                                  \
		Obj a, b;                                                             \
		Obj *pa = ANY( a );                                                   \
		Obj *pb = ANY( b );                                                   \
		{                                                                     \
			U y( pb );                                                          \
			{                                                                   \
				U x( pa );                                                        \
				x.swap( y );                                                      \
				CHECK( x.get( ) == pb and y.get( ) == pa, "swap exchanges the pointers" ); \
				LEFT( a );                                                        \
				LEFT( b );                                                        \
			}                                                                   \
			WENT( pb, b );                                                      \
			LEFT( a );                                                          \
		}                                                                     \
		WENT( pa, a );                                                        \
		WENT( pb, b );                                                        \
		REACH( "end" );                                                       \
	}
// one owner or two of one object; another object
#define RC_STATE                    \
	OWNS                              \
	Obj a, b;                         \
	Obj *pa = ANY( a );               \
	Obj *pb = ANY( b );
#define RC_COMMON( N, R )                                                 \
	DRIVER( N##_dtor )( ) {                                                 \
		RC_STATE                                                              \
		(void)pb;                                                             \
		{                                                                     \
			R x( pa );                                                          \
			CHECK( x.get( ) == pa, "holds the pointer" );                       \
			CHECK( static_cast<bool>( x ) == ( pa != nullptr ), "true exactly if it holds one" ); \
			CHECK( not pa or x.ref_count( ) == 1, "one owner" );                \
		}                                                                     \
		WENT( pa, a );                                                        \
		REACH( "end" );                                                       \
	}                                                                       \
	DRIVER( N##_copy )( ) {                                                 \
		RC_STATE                                                              \
		(void)pb;                                                             \
		{                                                                     \
			R x( pa );                                                          \
			{                                                                   \
				R y( x );                                                         \
				CHECK( x.get( ) == pa and y.get( ) == pa, "both hold it" );       \
				CHECK( not pa or x.ref_count( ) == 2, "two owners" );             \
			}                                                                   \
			LEFT( a );                                                          \
			CHECK( not pa or x.ref_count( ) == 1, "one owner" );                \
		}                                                                     \
		WENT( pa, a );                                                        \
		REACH( "end" );                                                       \
	}                                                                       \
	DRIVER( N##_copy_outlives )( ) {                                        \
		RC_STATE                                                              \
		(void)pb;                                                             \
		{                                                                     \
			R y;                                                                \
			{                                                                   \
				R x( pa );                                                        \
				y = x;                                                            \
				CHECK( y.get( ) == pa, "both hold it" );                          \
			}                                                                   \
			LEFT( a );                                                          \
			CHECK( not pa or y.ref_count( ) == 1, "one owner" );                \
		}                                                                     \
		WENT( pa, a );                                                        \
		REACH( "end" );                                                       \
	}                                                                       \
	DRIVER( N##_copy_assign )( ) {                                          \
		RC_STATE                                                              \
		{                                                                     \
			R x( pa );                                                          \
			R y( pb );                                                          \
			y = x;                                                              \
			CHECK( x.get( ) == pa and y.get( ) == pa, "both hold it" );         \
			WENT( pb, b );                                                      \
			LEFT( a );                                                          \
			CHECK( not pa or x.ref_count( ) == 2, "two owners" );               \
		}                                                                     \
		WENT( pa, a );                                                        \
		WENT( pb, b );                                                        \
		REACH( "end" );                                                       \
	}                                                                       \
	DRIVER( N##_copy_assign_shared )( ) {                                   \
		RC_STATE                                                              \
		{                                                                     \
			R x( pa );                                                          \
			{                                                                   \
				R y( pb );                                                        \
				R z( y );                                                         \
				z = x;                                                            \
				LEFT( a );                                                        \
				LEFT( b );                                                        \
				CHECK( y.get( ) == pb and z.get( ) == pa, "only the assigned one changes" ); \
				CHECK( not pb or y.ref_count( ) == 1, "one owner" );              \
				CHECK( not pa or x.ref_count( ) == 2, "two owners" );             \
			}                                                                   \
			WENT( pb, b );                                                      \
			LEFT( a );                                                          \
		}                                                                     \
		WENT( pa, a );                                                        \
		WENT( pb, b );                                                        \
		REACH( "end" );                                                       \
	}                                                                       \
	DRIVER( N##_self_assign )( ) {                                          \
		RC_STATE                                                              \
		(void)pb;                                                             \
		{                                                                     \
			R x( pa );                                                          \
			R &r = x;                                                           \
			x = r;                                                              \
			CHECK( x.get( ) == pa, "keeps the pointer" );                       \
			x = std::move( r );                                                 \
			CHECK( x.get( ) == pa, "keeps the pointer" );                       \
			LEFT( a );                                                          \
			CHECK( not pa or x.ref_count( ) == 1, "one owner" );                \
		}                                                                     \
		WENT( pa, a );                                                        \
		REACH( "end" );                                                       \
	}                                                                       \
	DRIVER( N##_assign_same )( ) {                                          \
		RC_STATE                                                              \
		(void)pb;                                                             \
		{                                                                     \
			R x( pa );                                                          \
			R y( x );                                                           \
			y = x;                                                              \
			CHECK( x.get( ) == pa and y.get( ) == pa, "both hold it" );         \
			LEFT( a );                                                          \
			CHECK( not pa or x.ref_count( ) == 2, "two owners" );               \
		}                                                                     \
		WENT( pa, a );                                                        \
		REACH( "end" );                                                       \
	}                                                                       \
	DRIVER( N##_move )( ) {                                                 \
		RC_STATE                                                              \
		(void)pb;                                                             \
		{                                                                     \
			R x( pa );                                                          \
			R k( x );                                                           \
			{                                                                   \
				R y( std::move( x ) );                                            \
				CHECK( y.get( ) == pa and x.get( ) == nullptr, "moved" );         \
				CHECK( not pa or y.ref_count( ) == 2, "the count is unchanged" ); \
			}                                                                   \
			CHECK( not pa or k.ref_count( ) == 1, "one owner" );                \
			LEFT( a );                                                          \
		}                                                                     \
		WENT( pa, a );                                                        \
		REACH( "end" );                                                       \
	}                                                                       \
	DRIVER( N##_move_assign )( ) {                                          \
		RC_STATE                                                              \
		{                                                                     \
			R x( pa );                                                          \
			R y( pb );                                                          \
			R k( y );                                                           \
			y = std::move( x );                                                 \
			CHECK( y.get( ) == pa and x.get( ) == nullptr, "moved" );           \
			CHECK( not pa or y.ref_count( ) == 1, "one owner" );                \
			CHECK( not pb or k.ref_count( ) == 1, "one owner" );                \
			LEFT( a );                                                          \
			LEFT( b );                                                          \
			k.reset( );                                                         \
			WENT( pb, b );                                                      \
			CHECK( k.get( ) == nullptr, "reset forgets the object" );           \
		}                                                                     \
		WENT( pa, a );                                                        \
		WENT( pb, b );                                                        \
		REACH( "end" );                                                       \
	}                                                                       \
	DRIVER( N##_reset_shared )( ) {                                         \
		RC_STATE                                                              \
		(void)pb;                                                             \
		{                                                                     \
			R x( pa );                                                          \
			R y( x );                                                           \
			x.reset( );                                                         \
			CHECK( x.get( ) == nullptr, "reset forgets the object" );           \
			CHECK( y.get( ) == pa, "the other owner is untouched" );            \
			x.reset( );                                                         \
			LEFT( a );                                                          \
			y.reset( );                                                         \
			WENT( pa, a );                                                      \
			CHECK( y.get( ) == nullptr, "reset forgets the object" );           \
		}                                                                     \
		WENT( pa, a );                                                        \
		REACH( "end" );                                                       \
	}                                                                       \
	DRIVER( N##_swap )( ) {                                                 \
		RC_STATE                                                              \
		{                                                                     \
			R y( pb );                                                          \
			{                                                                   \
				R x( pa );                                                        \
				R z( x );                                                         \
				x.swap( y );                                                      \
				CHECK( x.get( ) == pb and y.get( ) == pa, "swap exchanges" );     \
				CHECK( not pa or y.ref_count( ) == 2, "the counts go along" );    \
				CHECK( not pb or x.ref_count( ) == 1, "the counts go along" );    \
				LEFT( a );                                                        \
				LEFT( b );                                                        \
			}                                                                   \
			WENT( pb, b );                                                      \
			LEFT( a );                                                          \
		}                                                                     \
		WENT( pa, a );                                                        \
		WENT( pb, b );                                                        \
		REACH( "end" );                                                       \
	}                                                                       \
	DRIVER( N##_compare )( ) {                                              \
		RC_STATE                                                              \
		{                                                                     \
			R x( pa );                                                          \
			R y( pb );                                                          \
			CHECK( ( x == y ) == ( pa == pb ), "==" );                          \
			CHECK( ( x != y ) == ( pa != pb ), "!=" );                          \
			CHECK( ( x < y ) == ( pa < pb ) and ( x <= y ) == ( pa <= pb ), "<" ); \
			CHECK( ( x > y ) == ( pa > pb ) and ( x >= y ) == ( pa >= pb ), ">" ); \
			CHECK( ( x == nullptr ) == not pa and ( x != nullptr ) == not not pa, "nullptr" ); \
			CHECK( not( x < nullptr ) and x >= nullptr, "nothing is less than nullptr" ); \
			CHECK( ( x > nullptr ) == not not pa and ( x <= nullptr ) == not pa, "nullptr" ); \
		}                                                                     \
		REACH( "end" );                                                       \
	}
