// A04: pairs of stages, see A04_pairs.inc.
// MC-FLAGS: -O0
#include "A04_pairs.inc"

namespace {
	MC_TEST( after_takeuntil ) {
		all_pairs<KTakeUntil>( );
	}
	MC_TEST( after_cache ) {
		all_pairs<KCache>( );
	}
	MC_TEST( after_element ) {
		all_pairs<KElement>( );
	}
} // namespace
