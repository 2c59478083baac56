// Small property-based testing engine: every case is a pure function of a byte tape.
//  * random mode: bytes are drawn from a seeded generator and recorded on the tape
//  * replay mode: bytes come from a given tape; an exhausted tape yields zeros
// All generators map a zero byte to the simplest choice, so that deleting and zeroing tape bytes shrinks a case.
#pragma once

#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace pbt
{
    // Thrown by a property when its oracle is violated
    struct Failure
    {
        std::string message;
    };

    // Thrown by a generator to give up a case (counted, never a pass)
    struct Discard
    {};

    [[noreturn]] inline void fail( const std::string & message )
    {
        throw Failure{ message };
    }

#define PBT_CHECK( condition, text )                                                                                                                             \
    do {                                                                                                                                                         \
        if ( !( condition ) ) {                                                                                                                                  \
            std::ostringstream pbtStream_;                                                                                                                       \
            pbtStream_ << text;                                                                                                                                  \
            ::pbt::fail( pbtStream_.str() );                                                                                                                     \
        }                                                                                                                                                        \
    } while ( 0 )

    inline uint64_t mix( uint64_t z )
    {
        z += 0x9E3779B97F4A7C15ull;
        z = ( z ^ ( z >> 30 ) ) * 0xBF58476D1CE4E5B9ull;
        z = ( z ^ ( z >> 27 ) ) * 0x94D049BB133111EBull;
        return z ^ ( z >> 31 );
    }

    // Deterministic stream derived from a choice made on the tape (bulk pixel data)
    struct Stream
    {
        uint64_t state;
        explicit Stream( uint64_t seed )
            : state( seed )
        {}
        uint64_t next()
        {
            state += 0x9E3779B97F4A7C15ull;
            uint64_t z = state;
            z = ( z ^ ( z >> 30 ) ) * 0xBF58476D1CE4E5B9ull;
            z = ( z ^ ( z >> 27 ) ) * 0x94D049BB133111EBull;
            return z ^ ( z >> 31 );
        }
        uint32_t below( uint32_t n )
        {
            return n == 0 ? 0 : static_cast<uint32_t>( next() % n );
        }
    };

    class Src
    {
    public:
        static const size_t CAPACITY = 1 << 16;

        // replay
        Src( const uint8_t * data, size_t size )
            : _data( const_cast<uint8_t *>( data ) )
            , _size( size )
            , _replay( true )
            , _stream( 0 )
            , _length( nullptr )
        {}

        // random; records on [tape]
        Src( uint8_t * tape, uint32_t * length, uint64_t seed )
            : _data( tape )
            , _size( CAPACITY )
            , _replay( false )
            , _stream( seed )
            , _length( length )
        {
            *_length = 0;
        }

        uint8_t byte()
        {
            if ( _pos >= _size )
                return 0;
            if ( !_replay ) {
                if ( _left == 0 ) {
                    _word = _stream.next();
                    _left = 8;
                }
                _data[_pos] = static_cast<uint8_t>( _word );
                _word >>= 8;
                --_left;
                *_length = static_cast<uint32_t>( _pos + 1 );
            }
            return _data[_pos++];
        }

        uint64_t raw( int bytes )
        {
            uint64_t v = 0;
            for ( int i = 0; i < bytes; ++i )
                v = ( v << 8 ) | byte();
            return v;
        }

        // 0..n inclusive, small values simple
        uint64_t upto( uint64_t n )
        {
            if ( n == 0 )
                return 0;
            if ( n < 256 )
                return byte() % ( n + 1 );
            if ( n < 65536 )
                return raw( 2 ) % ( n + 1 );
            if ( n < 0xFFFFFFFFull )
                return raw( 4 ) % ( n + 1 );
            if ( n == 0xFFFFFFFFull )
                return raw( 4 );
            return raw( 8 ) % ( n + 1 );
        }

        int64_t range( int64_t lo, int64_t hi )
        {
            return lo + static_cast<int64_t>( upto( static_cast<uint64_t>( hi - lo ) ) );
        }

        uint32_t u( uint32_t lo, uint32_t hi )
        {
            return static_cast<uint32_t>( range( lo, hi ) );
        }

        bool flag()
        {
            return ( byte() & 1 ) != 0;
        }

        // true with probability of num/256; zero byte -> false
        bool chance( int num )
        {
            return byte() >= 256 - num;
        }

        template <typename T>
        T pick( std::initializer_list<T> list )
        {
            return *( list.begin() + upto( list.size() - 1 ) );
        }

        template <typename T>
        const T & pickFrom( const std::vector<T> & list )
        {
            return list[upto( list.size() - 1 )];
        }

        double unit() // [0, 1]
        {
            return static_cast<double>( raw( 4 ) ) / 4294967295.0;
        }

        size_t used() const
        {
            return _pos;
        }

        const uint8_t * tape() const
        {
            return _data;
        }

        size_t remaining() const
        {
            return _replay ? ( _size > _pos ? _size - _pos : 0 ) : CAPACITY - _pos;
        }

    private:
        uint8_t * _data;
        size_t _size;
        bool _replay;
        Stream _stream;
        uint32_t * _length;
        size_t _pos = 0;
        uint64_t _word = 0;
        int _left = 0;
    };

    struct Ctx
    {
        bool verbose = false; // describe the case
        std::ostringstream text;
        bool nontrivial = false;
        std::string knownId; // set by a property before fail() when the failure is an instance of a listed finding
        int sink = -1; // where the description goes as it grows (a crash must not lose it)
        size_t written = 0;
        void label( const std::string & name );
        void flush();
    };

#define PBT_NOTE( ctx, text_ )                                                                                                                                   \
    do {                                                                                                                                                         \
        if ( ( ctx ).verbose ) {                                                                                                                                 \
            ( ctx ).text << text_;                                                                                                                               \
            ( ctx ).flush();                                                                                                                                     \
        }                                                                                                                                                        \
    } while ( 0 )

    using PropertyFunction = std::function<void( Src &, Ctx & )>;

    struct Property
    {
        std::string id; // P01
        std::string name; // sub-check
        int weight;
        PropertyFunction run;
        std::string rule;
        double timeout; // seconds per case
        bool racy; // result may depend on the schedule
    };

    std::vector<Property> & properties();
    std::vector<std::function<void()>> & initialisers(); // run once in every worker process

    struct Register
    {
        Register( const std::string & id, const std::string & name, int weight, const std::string & rule, PropertyFunction run, double timeout = 60, bool racy = false )
        {
            properties().push_back( Property{ id, name, weight, run, rule, timeout, racy } );
        }
    };

    struct RegisterInit
    {
        explicit RegisterInit( std::function<void()> f )
        {
            initialisers().push_back( f );
        }
    };

    const std::string & scratchDirectory(); // unique per worker process, exists, removed at the end
    bool thorough();
}
