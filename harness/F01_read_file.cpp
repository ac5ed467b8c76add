// F01: reading a file gives its contents or a failure and leaves nothing open, whatever the system answers.
// MC-LINK: -Wl,--wrap=fopen -Wl,--wrap=fclose -Wl,--wrap=fread -Wl,--wrap=fopen64 -Wl,--wrap=open -Wl,--wrap=close -Wl,--wrap=read
#include "mc.h"

#include <daw/daw_read_file.h>
#include <daw/deprecated/daw_cfile.h>

#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <string>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
#include <vector>

// The system: every call may fail, a read may end early, and another process may change the file between two calls
namespace env {
	bool armed = false;
	int backing = -1;
	long length = 0;
	bool disturbed = false; // an answer that keeps the contents from being read
	long opened = 0;
	long closed = 0;
	bool tell_closed = false;

	unsigned char byte( long i ) {
		return static_cast<unsigned char>( i * 37 + i / 256 + 11 );
	}
	void extend_to( long n ) {
		if( n < length and ::ftruncate( backing, n ) != 0 ) {
			std::abort( );
		}
		unsigned char buffer[1024];
		for( long at = length; at < n; ) {
			long const count = n - at < 1024 ? n - at : 1024;
			for( long i = 0; i != count; ++i ) {
				buffer[i] = byte( at + i );
			}
			if( ::pwrite( backing, buffer, static_cast<std::size_t>( count ), at ) != count ) {
				std::abort( );
			}
			at += count;
		}
		length = n;
	}
	void resize( long n ) {
		mc::note( "another process makes the file %ld bytes long", n );
		extend_to( n );
	}
	bool fails( char const *call, int error ) {
		if( armed and mc::fault( ) ) {
			mc::note( "%s fails", call );
			disturbed = true;
			errno = error;
			return true;
		}
		return false;
	}
} // namespace env

extern "C" {
FILE *__real_fopen( char const *, char const * );
FILE *__real_fopen64( char const *, char const * );
int __real_fclose( FILE * );
std::size_t __real_fread( void *, std::size_t, std::size_t, FILE * );
int __real_open( char const *, int, ... );
int __real_close( int );
ssize_t __real_read( int, void *, std::size_t );

FILE *__wrap_fopen( char const *p, char const *m ) {
	if( env::armed and mc::fault( ) ) {
		// one byte less, one more, or nothing left
		auto const how = mc::choose( 3 );
		env::resize( how == 0 ? env::length + 1 : how == 1 and env::length > 0 ? env::length - 1 : 0 );
	}
	if( env::fails( "fopen", EMFILE ) ) {
		return nullptr;
	}
	auto *f = __real_fopen( p, m );
	env::opened += f != nullptr;
	return f;
}
FILE *__wrap_fopen64( char const *p, char const *m ) {
	return __wrap_fopen( p, m );
}
int __wrap_fclose( FILE *f ) {
	++env::closed;
	int const r = __real_fclose( f );
	return env::fails( "fclose", EIO ) ? EOF : r;
}
std::size_t __wrap_fread( void *p, std::size_t sz, std::size_t n, FILE *f ) {
	if( env::fails( "fread", EIO ) ) {
		// nothing, or all but the last item
		return n == 0 or mc::choose( 2 ) == 0 ? 0 : __real_fread( p, sz, n - 1, f );
	}
	return __real_fread( p, sz, n, f );
}
int __wrap_open( char const *p, int flags, ... ) {
	if( env::fails( "open", EMFILE ) ) {
		return -1;
	}
	return __real_open( p, flags, 0600 );
}
int __wrap_close( int fd ) {
	return __real_close( fd );
}
ssize_t __wrap_read( int fd, void *p, std::size_t n ) {
	if( env::fails( "read", EIO ) ) {
		return -1;
	}
	return __real_read( fd, p, n );
}
// found by the C++ library before the C library's
int stat( char const *p, struct stat *out ) {
	if( env::fails( "stat", EACCES ) ) {
		return -1;
	}
	return ::fstatat( AT_FDCWD, p, out, 0 );
}
}

namespace {
	int open_descriptors( ) {
		int n = 0;
		for( int fd = 0; fd != 256; ++fd ) {
			n += ::fcntl( fd, F_GETFD ) != -1;
		}
		return n;
	}

	struct File {
		std::string path;
		explicit File( long n ) {
			env::backing = ::memfd_create( "f01", 0 );
			MC_REQUIRE( env::backing >= 0 );
			env::length = 0;
			env::extend_to( n );
			path = "/proc/self/fd/" + std::to_string( env::backing );
			env::disturbed = false;
			env::opened = env::closed = 0;
		}
		~File( ) {
			__real_close( env::backing );
			env::backing = -1;
		}
		File( File const & ) = delete;
	};

	template<typename C>
	bool is_contents( std::basic_string<C> const &s, long n ) {
		if( s.size( ) * sizeof( C ) != static_cast<std::size_t>( n ) ) {
			return false;
		}
		auto const *p = reinterpret_cast<unsigned char const *>( s.data( ) );
		for( long i = 0; i != n; ++i ) {
			if( p[i] != env::byte( i ) ) {
				return false;
			}
		}
		return true;
	}

	constexpr long sizes[] = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 12, 4095, 4096, 4097, 8192, 8196, 65536 };

	template<typename C>
	void reading( unsigned budget ) {
		mc::set_fault_budget( budget );
		long const n = sizes[mc::choose( sizeof sizes / sizeof sizes[0] )];
		File file( n );
		int const before = open_descriptors( );
		env::armed = true;
		auto const r = daw::read_file<C>( file.path );
		env::armed = false;
		long const now = env::length;
		MC_CHECK( open_descriptors( ) == before and env::opened == env::closed, "leak",
		          "reading a file of %ld bytes leaves %d descriptors and %ld files open", n, open_descriptors( ) - before,
		          env::opened - env::closed );
		if( r ) {
			MC_CHECK( is_contents( *r, n ) or is_contents( *r, now ), "contents",
			          "a file of %ld bytes (then %ld) is read as %zu characters of %zu bytes, or other contents", n, now, r->size( ),
			          sizeof( C ) );
		}
		if( not env::disturbed and n == now ) {
			MC_CHECK( r.has_value( ) == ( n % static_cast<long>( sizeof( C ) ) == 0 ), "success",
			          "reading %ld bytes as characters of %zu bytes %s", n, sizeof( C ), r ? "succeeds" : "fails" );
		}
		mc::obs( static_cast<unsigned long>( r.has_value( ) ) );
		mc::count_case( );
	}
	MC_TEST( read_char ) {
		reading<char>( mc::by_tier( 2u, 3u ) );
	}
	MC_TEST( read_char8 ) {
		reading<char8_t>( 2 );
	}
	MC_TEST( read_char16 ) {
		reading<char16_t>( 2 );
	}
	MC_TEST( read_char32 ) {
		reading<char32_t>( 2 );
	}
	MC_TEST( read_wchar ) {
		reading<wchar_t>( 2 );
	}

	MC_TEST( not_a_file ) {
		char const *const paths[] = { "", "/", "/nonexistent-directory/x", "/proc/self/fd/987654", "/proc", "/dev/null/x" };
		auto const i = mc::choose( 6 );
		std::string const path = paths[i];
		int const before = open_descriptors( );
		env::opened = env::closed = 0;
		auto const r = daw::read_file( path );
		MC_CHECK( not r, "missing", "reading '%s' succeeds", paths[i] );
		MC_CHECK( open_descriptors( ) == before and env::opened == env::closed, "leak", "reading '%s' leaves a file open", paths[i] );
		MC_CHECK( mc::aborts( [&] { (void)daw::read_file( path, daw::terminate_on_read_file_error ); } ), "terminate",
		          "reading '%s' is not reported", paths[i] );
		mc::count_case( );
	}

	// running out of memory is reported and leaves nothing open
	MC_TEST( out_of_memory ) {
		mc::set_fault_budget( 2 );
		long const n = sizes[mc::choose( 16 )];
		File file( n );
		int const before = open_descriptors( );
		bool failed = false;
		{
			std::optional<std::string> r;
			try {
				mc::FaultScope fs( true, false );
				env::armed = true;
				r = daw::read_file( file.path );
			} catch( std::bad_alloc const & ) {
				failed = true;
			}
			env::armed = false;
			MC_CHECK( failed or not r or is_contents( *r, n ) or is_contents( *r, env::length ), "contents",
			          "a file of %ld bytes is read with other contents", n );
			MC_CHECK( failed or r or env::disturbed or env::length != n, "success", "reading %ld bytes fails", n );
		}
		MC_CHECK( open_descriptors( ) == before and env::opened == env::closed, "leak",
		          "running out of memory leaves %ld files open", env::opened - env::closed );
		mc::count_case( );
	}

	MC_TEST( or_terminate ) {
		long const n = sizes[mc::choose( 16 )];
		File file( n );
		int const before = open_descriptors( );
		auto const s = daw::read_file( file.path, daw::terminate_on_read_file_error );
		MC_CHECK( is_contents( s, n ) and open_descriptors( ) == before, "contents", "a file of %ld bytes", n );
		mc::count_case( );
	}

	// histories over two owners of a FILE: each file is closed once, by its last owner
	MC_TEST( owner ) {
		struct Model {
			int file[2] = { -1, -1 };
		} m;
		File backing( 3 );
		int const before = open_descriptors( );
		std::vector<FILE *> files;
		std::vector<int> open;
		files.reserve( 8 );
		open.reserve( 8 );
		auto const fresh = [&] {
			files.push_back( ::fopen( backing.path.c_str( ), "rb" ) );
			open.push_back( 1 );
			return static_cast<int>( files.size( ) ) - 1;
		};
		{
			daw::CFile f[2];
			long expected_closed = 0;
			auto const drop = [&]( unsigned k ) {
				if( m.file[k] >= 0 ) {
					++expected_closed;
					open[static_cast<std::size_t>( m.file[k] )] = 0;
				}
				m.file[k] = -1;
			};
			int const depth = mc::by_tier( 4, 5 );
			for( int d = 0; d != depth; ++d ) {
				auto const a = mc::choose( 2 );
				switch( mc::choose( 6 ) ) {
				case 0: {
					mc::note( "reset(%u, new file)", a );
					int const id = fresh( );
					drop( a );
					f[a].reset( files[static_cast<std::size_t>( id )] );
					m.file[a] = id;
					break;
				}
				case 1:
					mc::note( "close(%u)", a );
					drop( a );
					f[a].close( );
					break;
				case 2:
					mc::note( "%u = move(%u)", a, 1 - a );
					drop( a );
					f[a] = std::move( f[1 - a] );
					m.file[a] = m.file[1 - a];
					m.file[1 - a] = -1;
					break;
				case 3: {
					mc::note( "%u passes through another owner", a );
					daw::CFile t( std::move( f[a] ) );
					MC_CHECK( f[a].get( ) == nullptr, "owner", "a moved from owner keeps its file" );
					f[a] = std::move( t );
					break;
				}
				case 4: {
					mc::note( "release(%u)", a );
					auto *const p = f[a].release( );
					MC_CHECK( ( p == nullptr ) == ( m.file[a] < 0 ), "owner", "release" );
					if( p ) {
						++expected_closed;
						open[static_cast<std::size_t>( m.file[a] )] = 0;
						std::fclose( p );
					}
					m.file[a] = -1;
					break;
				}
				default:
					mc::note( "reset(%u)", a );
					drop( a );
					f[a].reset( );
				}
				for( unsigned k = 0; k != 2; ++k ) {
					MC_CHECK( f[k].get( ) == ( m.file[k] < 0 ? nullptr : files[static_cast<std::size_t>( m.file[k] )] ), "owner",
					          "owner %u has the wrong file", k );
				}
				MC_CHECK( env::closed == expected_closed, "owner", "%ld files closed, expected %ld", env::closed, expected_closed );
			}
		}
		MC_CHECK( env::opened == env::closed and open_descriptors( ) == before, "owner", "%ld files opened, %ld closed",
		          env::opened, env::closed );
		mc::count_case( );
	}
} // namespace
