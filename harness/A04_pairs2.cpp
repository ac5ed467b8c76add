// A04: pairs of stages, see A04_pairs.inc.
// MC-FLAGS: -O0
#include "A04_pairs.inc"

namespace {
	MC_TEST( after_filter ) {
		all_pairs<KFilter>( );
	}
	MC_TEST( after_dropuntil ) {
		all_pairs<KDropUntil>( );
	}
	MC_TEST( after_slide ) {
		all_pairs<KSlide>( );
	}
} // namespace
