// A04: pairs of stages, see A04_pairs.inc.
// MC-FLAGS: -O0
#include "A04_pairs.inc"

namespace {
	MC_TEST( after_map ) {
		all_pairs<KMap>( );
	}
	MC_TEST( after_dropwhile ) {
		all_pairs<KDropWhile>( );
	}
	MC_TEST( after_chunk ) {
		all_pairs<KChunk>( );
	}
} // namespace
