// A03: RandomIterator (its header can not be included after the ones that pull
// in the concepts, hence the separate file)
#include "A03.inc"

#include "daw/iterator/daw_random_iterator.h"

namespace {
	MC_TEST( random_iterator ) {
		int const n = any_len( );
		auto v = numbered( n );
		what = "RandomIterator";
		auto *const d = v.data( );
		laws( "RandomIterator", n, [&]( int p ) { return daw::make_random_iterator( d + p ); }, reads( v ) );
		laws( "RandomIterator<const>", n, [&]( int p ) { return daw::make_const_random_iterator( static_cast<Item const *>( d ) + p ); }, reads( v ) );
	}
} // namespace
