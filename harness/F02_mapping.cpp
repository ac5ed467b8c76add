// F02: memory mapped files over every history of operations and system failures.
// MC-LINK: -Wl,--wrap=open -Wl,--wrap=open64 -Wl,--wrap=close -Wl,--wrap=lseek -Wl,--wrap=lseek64 -Wl,--wrap=fstat -Wl,--wrap=mmap -Wl,--wrap=mmap64 -Wl,--wrap=munmap
#include "mc.h"

#include <daw/daw_memory_mapped_file.h>

#include <array>
#include <cerrno>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <memory>
#include <string>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>

// The system: every call may fail, and every descriptor and mapping handed out is accounted for
namespace env {
	bool armed = false;
	bool failed = false;
	struct Map {
		char *at;
		std::size_t length;
	};
	Map maps[16];
	int nmaps = 0;
	int fds[16];
	int nfds = 0;
	long bad = 0; // closing or unmapping something that is not held

	bool fails( char const *call, int error ) {
		if( armed and mc::fault( ) ) {
			mc::note( "%s fails", call );
			failed = true;
			errno = error;
			return true;
		}
		return false;
	}
} // namespace env

extern "C" {
int __real_open( char const *, int, ... );
int __real_close( int );
off_t __real_lseek( int, off_t, int );
int __real_fstat( int, struct stat * );
void *__real_mmap( void *, std::size_t, int, int, int, off_t );
int __real_munmap( void *, std::size_t );

int __wrap_open( char const *p, int flags, ... ) {
	if( env::fails( "open", EMFILE ) ) {
		return -1;
	}
	int const fd = __real_open( p, flags, 0600 );
	if( env::armed and fd >= 0 and env::nfds < 16 ) {
		env::fds[env::nfds++] = fd;
	}
	return fd;
}
int __wrap_open64( char const *p, int flags, ... ) {
	return __wrap_open( p, flags );
}
int __wrap_close( int fd ) {
	if( env::armed ) {
		int i = 0;
		while( i != env::nfds and env::fds[i] != fd ) {
			++i;
		}
		if( i == env::nfds ) {
			++env::bad;
			return -1;
		}
		env::fds[i] = env::fds[--env::nfds];
	}
	return __real_close( fd );
}
off_t __wrap_lseek( int fd, off_t o, int w ) {
	if( w == SEEK_END and env::fails( "lseek", EIO ) ) {
		return -1;
	}
	return __real_lseek( fd, o, w );
}
off_t __wrap_lseek64( int fd, off_t o, int w ) {
	return __wrap_lseek( fd, o, w );
}
int __wrap_fstat( int fd, struct stat *s ) {
	if( env::fails( "fstat", EIO ) ) {
		return -1;
	}
	return __real_fstat( fd, s );
}
void *__wrap_mmap( void *a, std::size_t n, int prot, int flags, int fd, off_t o ) {
	if( env::fails( "mmap", ENOMEM ) ) {
		return MAP_FAILED;
	}
	void *const r = __real_mmap( a, n, prot, flags, fd, o );
	if( env::armed and r != MAP_FAILED and env::nmaps < 16 ) {
		env::maps[env::nmaps++] = { static_cast<char *>( r ), n };
	}
	return r;
}
void *__wrap_mmap64( void *a, std::size_t n, int prot, int flags, int fd, off_t o ) {
	return __wrap_mmap( a, n, prot, flags, fd, o );
}
int __wrap_munmap( void *a, std::size_t n ) {
	if( env::armed ) {
		int i = 0;
		while( i != env::nmaps and env::maps[i].at != a ) {
			++i;
		}
		auto const pages = []( std::size_t x ) {
			return ( x + 4095 ) / 4096;
		};
		if( i == env::nmaps or pages( env::maps[i].length ) != pages( n ) ) {
			++env::bad;
			return -1;
		}
		env::maps[i] = env::maps[--env::nmaps];
	}
	return __real_munmap( a, n );
}
}

namespace {
	using daw::filesystem::open_mode;

	struct Files {
		// a short file, one crossing a page, an empty one
		static constexpr int count = 3;
		static constexpr long lengths[count] = { 5, 4099, 0 };
		int fd[count];
		std::string path[count];
		std::string content[count];

		int saved_input = -1;

		// without an open standard input the first descriptor is number 0
		explicit Files( bool without_input = false ) {
			env::nmaps = env::nfds = 0;
			env::bad = 0;
			env::failed = false;
			for( int f = 0; f != count; ++f ) {
				fd[f] = ::memfd_create( "f02", 0 );
				MC_REQUIRE( fd[f] >= 0 );
				for( long i = 0; i != lengths[f]; ++i ) {
					// every byte value, and a zero byte last
					content[f].push_back( static_cast<char>( i + 1 == lengths[f] ? 0 : i * 73 + 10 + f ) );
				}
				MC_REQUIRE( ::pwrite( fd[f], content[f].data( ), content[f].size( ), 0 ) == lengths[f] );
				path[f] = "/proc/self/fd/" + std::to_string( fd[f] );
			}
			if( without_input ) {
				mc::note( "standard input is closed" );
				saved_input = ::fcntl( 0, F_DUPFD, 100 );
				if( saved_input < 0 ) { // already closed
					saved_input = -2;
				} else {
					__real_close( 0 );
				}
			}
			env::armed = true;
		}
		~Files( ) {
			env::armed = false;
			if( saved_input >= 0 ) {
				::dup2( saved_input, 0 );
				__real_close( saved_input );
			}
			for( int f = 0; f != count; ++f ) {
				__real_close( fd[f] );
			}
		}
		Files( Files const & ) = delete;
		bool matches( int f ) const {
			static char buffer[8192];
			return ::pread( fd[f], buffer, sizeof buffer, 0 ) == lengths[f] and
			       std::memcmp( buffer, content[f].data( ), content[f].size( ) ) == 0;
		}
	};

	template<typename T>
	using mapped = daw::filesystem::memory_mapped_file_t<T>;

	// An object shows exactly its file, or is closed
	template<typename T>
	void check( char const *name, mapped<T> &m, Files const &files, int f ) {
		auto const &c = std::as_const( m );
		MC_CHECK( static_cast<bool>( m ) == ( f >= 0 ), "open", "%s is %s", name, m ? "open" : "not open" );
		if( f < 0 ) {
			MC_CHECK( m.size( ) == 0 and m.empty( ) and m.begin( ) == m.end( ) and c.begin( ) == c.end( ) and c.cbegin( ) == c.cend( ),
			          "closed", "%s is closed and holds %zu values", name, m.size( ) );
			return;
		}
		auto const &want = files.content[f];
		auto const n = want.size( ) / sizeof( T );
		MC_CHECK( m.size( ) == n and m.empty( ) == ( n == 0 ), "size", "%s has %zu values of %zu bytes, its file has %zu bytes", name,
		          m.size( ), sizeof( T ), want.size( ) );
		MC_CHECK( m.begin( ) == m.data( ) and c.begin( ) == m.data( ) and c.data( ) == m.data( ) and c.cbegin( ) == m.data( ) and
		            m.end( ) == m.data( ) + n and c.end( ) == m.data( ) + n and c.cend( ) == m.data( ) + n,
		          "range", "%s: begin and end of %zu values", name, n );
		MC_CHECK( m.data( ) and std::memcmp( m.data( ), want.data( ), n * sizeof( T ) ) == 0, "contents", "%s shows other bytes",
		          name );
		for( std::size_t i = 0; i < n; i += ( n > 32 ? n - 1 : 1 ) ) {
			std::remove_const_t<T> v;
			std::memcpy( &v, want.data( ) + i * sizeof( T ), sizeof( T ) );
			MC_CHECK( m[i] == v and c[i] == v and &m[i] == m.data( ) + i and &c[i] == m.data( ) + i, "index", "%s[%zu]", name, i );
		}
	}

	template<typename T>
	void histories( int depth, unsigned budget, bool without_input = false ) {
		mc::set_fault_budget( budget );
		Files files( without_input );
		std::array<int, 2> model{ -1, -1 };
		std::array<bool, 2> writable{ false, false };
		{
			std::array<std::unique_ptr<mapped<T>>, 2> m{ std::make_unique<mapped<T>>( ), std::make_unique<mapped<T>>( ) };
			for( int d = 0; d != depth; ++d ) {
				auto const a = mc::choose( 2 );
				auto const b = 1 - a;
				env::failed = false;
				switch( mc::choose( 6 ) ) {
				case 0: { // open a file, a missing one, or an empty one
					auto const f = mc::choose( 4 );
					auto const mode = mc::choose( 2 ) ? open_mode::read_write : open_mode::read;
					mc::note( "open(%u, file %u, %s)", a, f, mode == open_mode::read ? "read" : "read_write" );
					bool const ok = m[a]->open( f == 3 ? std::string( "/proc/self/fd/98765" ) : files.path[f], mode );
					MC_CHECK( ok == ( f < 2 ) or ( env::failed and not ok ), "open", "opening file %u %s", f, ok ? "succeeds" : "fails" );
					model[a] = ok ? static_cast<int>( f ) : -1;
					writable[a] = mode == open_mode::read_write;
					break;
				}
				case 1: { // a new object with a file
					auto const f = mc::choose( 3 );
					mc::note( "%u is a new object for file %u", a, f );
					m[a] = std::make_unique<mapped<T>>( files.path[f], open_mode::read_write );
					MC_CHECK( static_cast<bool>( *m[a] ) == ( f < 2 ) or ( env::failed and not *m[a] ), "open",
					          "opening file %u %s", f, *m[a] ? "succeeds" : "fails" );
					model[a] = *m[a] ? static_cast<int>( f ) : -1;
					writable[a] = true;
					break;
				}
				case 2:
					mc::note( "%u = move(%u)", a, b );
					*m[a] = std::move( *m[b] );
					model[a] = model[b];
					writable[a] = writable[b];
					model[b] = -1;
					break;
				case 3:
					mc::note( "%u is a new object from move(%u)", a, b );
					m[a] = std::make_unique<mapped<T>>( std::move( *m[b] ) );
					model[a] = model[b];
					writable[a] = writable[b];
					model[b] = -1;
					break;
				case 4:
					mc::note( "%u is a new object", a );
					m[a] = std::make_unique<mapped<T>>( );
					model[a] = -1;
					break;
				default:
					if( model[a] < 0 or not writable[a] ) {
						break;
					}
					if constexpr( not std::is_const_v<T> ) {
						auto const n = m[a]->size( );
						if( n == 0 ) {
							break;
						}
						auto const at = mc::choose( 2 ) ? n - 1 : 0;
						mc::note( "write value %zu of %u", at, a );
						auto &content = files.content[model[a]];
						std::memset( content.data( ) + at * sizeof( T ), 'A' + d, sizeof( T ) );
						std::memset( static_cast<void *>( &( *m[a] )[at] ), 'A' + d, sizeof( T ) );
					}
				}
				check( "object 0", *m[0], files, model[0] );
				check( "object 1", *m[1], files, model[1] );
				MC_CHECK( env::bad == 0, "release", "something that is not held is released" );
				int const held = ( model[0] >= 0 ) + ( model[1] >= 0 );
				MC_CHECK( env::nmaps == held, "mappings", "%d mappings are held by %d open objects", env::nmaps, held );
				MC_CHECK( env::nfds <= held, "descriptors", "%d descriptors are held by %d open objects", env::nfds, held );
				for( int f = 0; f != Files::count; ++f ) {
					MC_CHECK( files.matches( f ), "file", "file %d differs from what was written to it", f );
				}
				mc::obs( static_cast<unsigned long>( model[0] * 4 + model[1] + 8 ) );
			}
		}
		MC_CHECK( env::nmaps == 0 and env::nfds == 0 and env::bad == 0, "leak",
		          "%d mappings and %d descriptors are left when no object is, %ld released twice", env::nmaps, env::nfds, env::bad );
		mc::count_case( );
	}
	MC_TEST( chars ) {
		histories<char>( 3, mc::by_tier( 1u, 2u ) );
	}
	MC_TEST( bytes ) {
		histories<unsigned char>( mc::by_tier( 2, 3 ), 2 );
	}
	MC_TEST( values_2 ) {
		histories<std::uint16_t>( mc::by_tier( 2, 3 ), 1 );
	}
	MC_TEST( values_4 ) {
		histories<std::uint32_t>( mc::by_tier( 2, 3 ), 1 );
	}
	MC_TEST( values_8 ) { // the short file is not one whole value
		histories<std::uint64_t>( mc::by_tier( 2, 3 ), 1 );
	}
	MC_TEST( lowest_descriptors ) {
		histories<char>( mc::by_tier( 2, 3 ), 1, true );
	}
	MC_TEST( const_chars ) {
		histories<char const>( mc::by_tier( 2, 3 ), 1 );
	}
	MC_TEST( chars_without_failures ) {
		histories<char>( 4, 0 );
	}

	// the mapped bytes as a string_view, and arguments that are string views into longer strings' ends
	MC_TEST( views ) {
		Files files;
		auto const f = mc::choose( 2 );
		mapped<char> const m( files.path[f] );
		std::string_view const sv = m;
		MC_CHECK( sv == files.content[f], "view", "the view of file %u has %zu bytes", f, sv.size( ) );
		mapped<char> const none;
		std::string_view const nsv = none;
		MC_CHECK( nsv.empty( ), "view", "the view of a closed object has %zu bytes", nsv.size( ) );
		mc::count_case( );
	}

	// a directory and a file that may not be written are refused
	MC_TEST( refused ) {
		Files files;
		auto const k = mc::choose( 3 );
		mapped<char> m;
		bool const ok = k == 0   ? m.open( "/proc", open_mode::read )
		                : k == 1 ? m.open( "/", open_mode::read_write )
		                         : m.open( "", open_mode::read );
		MC_CHECK( not ok, "refused", "opening %s succeeds", k == 0 ? "/proc" : k == 1 ? "/" : "an empty name" );
		check( "object", m, files, -1 );
		MC_CHECK( env::nmaps == 0 and env::nfds == 0 and env::bad == 0, "leak", "a refused open leaves %d descriptors", env::nfds );
		mc::count_case( );
	}
} // namespace
