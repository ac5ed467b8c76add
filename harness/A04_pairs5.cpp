// A04: pairs of stages, see A04_pairs.inc.
// MC-FLAGS: -O0
#include "A04_pairs.inc"

namespace {
	MC_TEST( after_takewhile ) {
		all_pairs<KTakeWhile>( );
	}
	MC_TEST( after_unique ) {
		all_pairs<KUnique>( );
	}
	MC_TEST( after_enumerate ) {
		all_pairs<KEnumerate>( );
	}
} // namespace
