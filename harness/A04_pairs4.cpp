// A04: pairs of stages, see A04_pairs.inc.
// MC-FLAGS: -O0
#include "A04_pairs.inc"

namespace {
	MC_TEST( after_skip ) {
		all_pairs<KSkip>( );
	}
	MC_TEST( after_reverse ) {
		all_pairs<KReverse>( );
	}
	MC_TEST( after_zip ) {
		all_pairs<KZip>( );
	}
} // namespace
