// A04: pairs of stages, see A04_pairs.inc.
// MC-FLAGS: -O0
#include "A04_pairs.inc"

namespace {
	MC_TEST( after_take ) {
		all_pairs<KTake>( );
	}
	MC_TEST( after_every ) {
		all_pairs<KEvery>( );
	}
	MC_TEST( after_split ) {
		all_pairs<KSplit>( );
	}
} // namespace
