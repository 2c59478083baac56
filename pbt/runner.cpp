#include "pbt.h"

#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstring>
#include <dirent.h>
#include <cstdlib>
#include <fcntl.h>
#include <fstream>
#include <map>
#include <set>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>

namespace pbt
{
    std::vector<Property> & properties()
    {
        static std::vector<Property> list;
        return list;
    }
    std::vector<std::function<void()>> & initialisers()
    {
        static std::vector<std::function<void()>> list;
        return list;
    }

    namespace
    {
        std::map<std::string, uint64_t> labels;
        std::string scratchBase;
        std::string scratchOwn;
        bool isThorough = false;

        double now()
        {
            timespec t;
            clock_gettime( CLOCK_MONOTONIC, &t );
            return static_cast<double>( t.tv_sec ) + static_cast<double>( t.tv_nsec ) * 1e-9;
        }

        enum State : uint32_t
        {
            RUNNING = 0,
            FINISHED = 1,
            FAILED = 2
        };

        struct Shared
        {
            volatile uint32_t state;
            volatile uint64_t caseIndex;
            volatile double caseStart;
            volatile double timeout;
            uint32_t length;
            char message[8192];
            char known[64];
            uint8_t tape[Src::CAPACITY];
        };

        Shared * newShared()
        {
            void * p = mmap( nullptr, sizeof( Shared ), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0 );
            if ( p == MAP_FAILED ) {
                perror( "mmap" );
                exit( 4 );
            }
            return static_cast<Shared *>( p );
        }

        void enterScratch( int number )
        {
            if ( scratchBase.empty() )
                return;
            scratchOwn = scratchBase + "/w" + std::to_string( number );
            mkdir( scratchOwn.c_str(), 0700 );
        }

        void resetShared( Shared * s )
        {
            s->state = RUNNING;
            s->caseIndex = 0;
            s->caseStart = now();
            s->timeout = 60;
            s->length = 0;
            s->message[0] = 0;
            s->known[0] = 0;
        }

        void setText( char * out, size_t size, const std::string & text )
        {
            const size_t n = std::min( size - 1, text.size() );
            memcpy( out, text.data(), n );
            out[n] = 0;
        }

        // Runs one case; returns false and fills the message when the property is violated
        bool runCase( const std::vector<Property> & list, Src & src, Ctx & ctx, Shared * shared, std::string & message, bool & discarded )
        {
            discarded = false;
            int total = 0;
            for ( const Property & p : list )
                total += p.weight;
            const Property * property = &list.front();
            if ( list.size() > 1 ) {
                int value = static_cast<int>( src.upto( static_cast<uint64_t>( total - 1 ) ) );
                for ( const Property & p : list ) {
                    if ( value < p.weight ) {
                        property = &p;
                        break;
                    }
                    value -= p.weight;
                }
            }
            shared->timeout = property->timeout;
            if ( list.size() > 1 )
                ctx.label( "check:" + property->name );
            PBT_NOTE( ctx, property->name << ": " );
            try {
                property->run( src, ctx );
                return true;
            }
            catch ( const Discard & ) {
                discarded = true;
                return true;
            }
            catch ( const Failure & f ) {
                message = property->name + ": " + f.message;
            }
            catch ( const std::exception & e ) {
                message = property->name + ": unexpected exception: " + e.what();
            }
            catch ( ... ) {
                message = property->name + ": unexpected exception of unknown type";
            }
            return false;
        }

        uint64_t hashTape( const uint8_t * d, size_t n )
        {
            uint64_t h = 1469598103934665603ull ^ n;
            for ( size_t i = 0; i < n; ++i )
                h = ( h ^ d[i] ) * 1099511628211ull;
            return mix( h );
        }

        uint64_t caseSeed( uint64_t seed, const std::string & id, uint64_t index )
        {
            uint64_t h = mix( seed + 0x51ED2701ull );
            for ( char c : id )
                h = mix( h ^ static_cast<uint8_t>( c ) );
            return mix( h ^ mix( index ) );
        }

        std::string jsonEscape( const std::string & text )
        {
            std::string out;
            for ( char ch : text ) {
                const unsigned char c = static_cast<unsigned char>( ch );
                if ( c == '"' || c == '\\' ) {
                    out += '\\';
                    out += ch;
                }
                else if ( c == '\n' )
                    out += "\\n";
                else if ( c < 0x20 || c >= 0x7F ) {
                    char b[8];
                    snprintf( b, sizeof b, "\\u%04x", c );
                    out += b;
                }
                else
                    out += ch;
            }
            return out;
        }

        struct WorkerStats
        {
            uint64_t evaluations = 0, discarded = 0, nontrivial = 0, known = 0;
        };

        // Body of a worker process: never returns
        void worker( const std::vector<Property> & list, Shared * shared, uint64_t seed, int number, int stride, double deadline, uint64_t maxCases, uint64_t firstCase,
                     const std::string & resultFile, const std::set<std::string> & knownIds )
        {
            enterScratch( number );
            for ( const auto & f : initialisers() )
                f();
            WorkerStats stats;
            std::unordered_set<uint64_t> seen;
            std::vector<std::string> samples;
            std::map<std::string, uint64_t> knownHits;
            uint64_t nextSample = 2;
            for ( uint64_t i = 0; firstCase + i < maxCases && now() < deadline; ++i ) {
                const uint64_t index = static_cast<uint64_t>( number ) + ( firstCase + i ) * static_cast<uint64_t>( stride );
                shared->caseStart = now();
                shared->caseIndex = firstCase + i;
                Src src( shared->tape, &shared->length, caseSeed( seed, list.front().id, index ) );
                Ctx ctx;
                ctx.verbose = number < 3 && i + 1 >= nextSample && samples.size() < 5;
                std::string message;
                bool discarded = false;
                const bool ok = runCase( list, src, ctx, shared, message, discarded );
                ++stats.evaluations;
                if ( !ok ) {
                    if ( !ctx.knownId.empty() && knownIds.count( ctx.knownId ) ) {
                        ++knownHits[ctx.knownId];
                        ++stats.known;
                        continue;
                    }
                    setText( shared->message, sizeof shared->message, message );
                    setText( shared->known, sizeof shared->known, ctx.knownId );
                    shared->state = FAILED;
                    _exit( 3 );
                }
                if ( discarded )
                    ++stats.discarded;
                else if ( ctx.nontrivial ) {
                    seen.insert( hashTape( shared->tape, shared->length ) );
                    if ( ctx.verbose ) {
                        samples.push_back( ctx.text.str().substr( 0, 600 ) );
                        nextSample = ( i + 1 ) * 7;
                    }
                }
            }
            std::ofstream out( resultFile, std::ios::binary );
            out << "E " << stats.evaluations << "\nD " << stats.discarded << "\n";
            for ( const auto & l : labels )
                out << "L " << l.second << ' ' << l.first << "\n";
            for ( const auto & l : knownHits )
                out << "K " << l.second << ' ' << l.first << "\n";
            for ( std::string s : samples ) {
                std::replace( s.begin(), s.end(), '\n', ' ' );
                out << "S " << s << "\n";
            }
            out << "H " << seen.size() << "\n";
            for ( uint64_t h : seen )
                out.write( reinterpret_cast<const char *>( &h ), 8 );
            out.close();
            shared->state = FINISHED;
            _exit( 0 );
        }

        struct Outcome
        {
            bool failed = false;
            bool infrastructure = false; // killed from outside
            bool timeout = false;
            std::string message;
            std::string known;
            std::string text;
            std::vector<uint8_t> last; // the case of a history which was running at the end
        };

        std::string statusText( int status )
        {
            if ( WIFSIGNALED( status ) )
                return std::string( "process died of signal " ) + strsignal( WTERMSIG( status ) );
            return "process ended unexpectedly with exit status " + std::to_string( WEXITSTATUS( status ) );
        }

        // A case must not take all memory of the machine
        bool tooBig( pid_t pid )
        {
            char path[64];
            snprintf( path, sizeof path, "/proc/%d/statm", static_cast<int>( pid ) );
            FILE * f = fopen( path, "r" );
            unsigned long total = 0, resident = 0;
            if ( f != nullptr ) {
                if ( fscanf( f, "%lu %lu", &total, &resident ) != 2 )
                    resident = 0;
                fclose( f );
            }
            return resident / 256 > 2500; // megabytes
        }

        typedef std::vector<uint8_t> Tape;

        // Cases of a worker, by their seeds
        struct History
        {
            uint64_t seed = 0;
            int number = 0, stride = 1;
            uint64_t from = 0, to = 0;
            std::string file; // tapes are written here
        };

        // True when no thread of the process can go on by itself: all of them sleep and nobody spends processor time.
        // A process which is only slow, because of other processes for example, has threads which run or wait for a processor.
        bool isDeadlock( pid_t pid )
        {
            auto sample = [pid]( unsigned long & ticks ) {
                ticks = 0;
                const std::string directory = "/proc/" + std::to_string( pid ) + "/task";
                DIR * d = opendir( directory.c_str() );
                if ( d == nullptr )
                    return false;
                bool sleeps = true;
                int threads = 0;
                while ( const dirent * e = readdir( d ) ) {
                    if ( e->d_name[0] == '.' )
                        continue;
                    FILE * f = fopen( ( directory + "/" + e->d_name + "/stat" ).c_str(), "r" );
                    if ( f == nullptr )
                        continue;
                    char text[1024];
                    const size_t n = fread( text, 1, sizeof text - 1, f );
                    fclose( f );
                    text[n] = 0;
                    const char * p = strrchr( text, ')' );
                    char state = 'R';
                    unsigned long user = 0, kernel = 0;
                    if ( p == nullptr || sscanf( p + 1, " %c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %lu %lu", &state, &user, &kernel ) != 3 )
                        sleeps = false;
                    ++threads;
                    sleeps = sleeps && state == 'S';
                    ticks += user + kernel;
                }
                closedir( d );
                return sleeps && threads > 0;
            };
            unsigned long first = 0, last = 0;
            int awake = 0;
            if ( !sample( first ) )
                ++awake;
            for ( int i = 0; i < 60; ++i ) {
                usleep( 50000 );
                if ( !sample( last ) )
                    ++awake;
            }
            return awake <= 1 && last <= first + 2;
        }

        // Runs tapes one after another in a fresh process
        Outcome runIsolated( const std::vector<Property> & list, const std::vector<Tape> & tapes, double timeoutFactor, bool describe, bool quiet, const History * history = nullptr,
                             int slot = 90 )
        {
            static Shared * shared = newShared();
            resetShared( shared );
            int fds[2];
            if ( pipe( fds ) != 0 )
                exit( 4 );
            fflush( stdout );
            fflush( stderr );
            const pid_t pid = fork();
            if ( pid == 0 ) {
                prctl( PR_SET_PDEATHSIG, SIGKILL );
                close( fds[0] );
                if ( quiet ) {
                    const int null = open( "/dev/null", O_WRONLY );
                    dup2( null, 1 );
                    dup2( null, 2 );
                }
                enterScratch( slot );
                for ( const auto & f : initialisers() )
                    f();
                auto run = [&]( Src & src ) {
                    Ctx ctx;
                    ctx.verbose = describe;
                    ctx.sink = describe ? fds[1] : -1;
                    std::string message;
                    bool discarded = false;
                    shared->caseStart = now();
                    const bool ok = runCase( list, src, ctx, shared, message, discarded );
                    if ( describe ) {
                        ctx.flush();
                    }
                    if ( !ok ) {
                        setText( shared->message, sizeof shared->message, message );
                        setText( shared->known, sizeof shared->known, ctx.knownId );
                        shared->state = FAILED;
                        _exit( 3 );
                    }
                };
                for ( const Tape & tape : tapes ) {
                    Src src( tape.data(), tape.size() );
                    run( src );
                }
                if ( history != nullptr ) {
                    std::ofstream out( history->file, std::ios::binary );
                    for ( uint64_t i = history->from; i <= history->to; ++i ) {
                        const uint64_t index = static_cast<uint64_t>( history->number ) + i * static_cast<uint64_t>( history->stride );
                        Src src( shared->tape, &shared->length, caseSeed( history->seed, list.front().id, index ) );
                        run( src );
                        const uint32_t length = shared->length;
                        out.write( reinterpret_cast<const char *>( &length ), sizeof length );
                        out.write( reinterpret_cast<const char *>( shared->tape ), length );
                        out.flush();
                    }
                }
                shared->state = FINISHED;
                _exit( 0 );
            }
            close( fds[1] );
            Outcome result;
            int status = 0;
            bool timedOut = false, big = false;
            double pause = 0.0002;
            while ( true ) {
                const pid_t r = waitpid( pid, &status, WNOHANG );
                if ( r == pid )
                    break;
                if ( now() - shared->caseStart > shared->timeout * timeoutFactor ) {
                    timedOut = true;
                    kill( pid, SIGKILL );
                    waitpid( pid, &status, 0 );
                    break;
                }
                if ( pause > 0.01 && tooBig( pid ) ) {
                    big = true;
                    kill( pid, SIGKILL );
                    waitpid( pid, &status, 0 );
                    break;
                }
                usleep( static_cast<useconds_t>( pause * 1e6 ) );
                pause = std::min( pause * 1.5, 0.02 );
            }
            if ( describe ) {
                char buffer[65536];
                ssize_t n;
                while ( ( n = read( fds[0], buffer, sizeof buffer ) ) > 0 )
                    result.text.append( buffer, static_cast<size_t>( n ) );
            }
            close( fds[0] );
            if ( result.last.empty() && shared->length > 0 )
                result.last.assign( shared->tape, shared->tape + shared->length );
            if ( timedOut ) {
                result.failed = true;
                result.timeout = true;
                result.message = "the case did not finish (hang)";
            }
            else if ( big ) {
                result.failed = true;
                result.message = "the case takes more than 2.5 GB of memory";
            }
            else if ( shared->state == FAILED ) {
                result.failed = true;
                result.message = shared->message;
                result.known = shared->known;
            }
            else if ( shared->state != FINISHED ) {
                if ( WIFSIGNALED( status ) && WTERMSIG( status ) == SIGKILL )
                    result.infrastructure = true;
                else {
                    result.failed = true;
                    result.message = statusText( status );
                }
            }
            return result;
        }

        std::string hex( const std::vector<uint8_t> & v )
        {
            static const char * d = "0123456789abcdef";
            std::string s;
            for ( uint8_t b : v ) {
                s += d[b >> 4];
                s += d[b & 15];
            }
            return s;
        }

        void trim( std::vector<uint8_t> & t )
        {
            while ( !t.empty() && t.back() == 0 )
                t.pop_back();
        }

        std::vector<uint8_t> shrink( const std::vector<Property> & list, const std::vector<Tape> & before, std::vector<uint8_t> best, double deadline, const std::string & wantKnown, bool timeoutCase, int & attempts )
        {
            const double factor = timeoutCase ? 0.34 : 1.0;
            auto test = [&]( std::vector<uint8_t> candidate ) {
                trim( candidate );
                if ( now() > deadline || candidate == best )
                    return false;
                ++attempts;
                std::vector<Tape> all = before;
                all.push_back( candidate );
                const Outcome o = runIsolated( list, all, factor, false, true );
                if ( o.failed && o.known == wantKnown && o.timeout == timeoutCase ) {
                    best = candidate;
                    return true;
                }
                return false;
            };
            trim( best );
            bool progress = true;
            while ( progress && now() < deadline ) {
                progress = false;
                // truncate
                for ( size_t keep = best.size() / 2; keep < best.size() && now() < deadline; ) {
                    std::vector<uint8_t> c( best.begin(), best.begin() + static_cast<std::ptrdiff_t>( keep ) );
                    if ( test( c ) ) {
                        progress = true;
                        keep = best.size() / 2;
                    }
                    else
                        keep += std::max<size_t>( 1, ( best.size() - keep ) / 2 );
                }
                // delete and zero chunks
                for ( size_t chunk : { size_t( 32 ), size_t( 16 ), size_t( 8 ), size_t( 4 ), size_t( 2 ), size_t( 1 ) } ) {
                    for ( size_t i = 0; i + chunk <= best.size() && now() < deadline; ) {
                        std::vector<uint8_t> c = best;
                        c.erase( c.begin() + static_cast<std::ptrdiff_t>( i ), c.begin() + static_cast<std::ptrdiff_t>( i + chunk ) );
                        if ( test( c ) ) {
                            progress = true;
                            continue;
                        }
                        c = best;
                        bool any = false;
                        for ( size_t k = i; k < i + chunk; ++k ) {
                            any = any || c[k] != 0;
                            c[k] = 0;
                        }
                        if ( any && test( c ) )
                            progress = true;
                        i += chunk;
                    }
                }
                // minimise bytes
                for ( size_t i = 0; i < best.size() && now() < deadline; ++i ) {
                    uint8_t lo = 0;
                    while ( i < best.size() && best[i] > lo && now() < deadline ) {
                        std::vector<uint8_t> c = best;
                        const uint8_t middle = static_cast<uint8_t>( lo + ( best[i] - lo ) / 2 );
                        c[i] = middle;
                        if ( test( c ) )
                            progress = true;
                        else {
                            if ( middle == best[i] - 1 || lo == middle )
                                break;
                            lo = middle;
                        }
                    }
                    if ( i < best.size() && best[i] > 0 ) {
                        std::vector<uint8_t> c = best;
                        --c[i];
                        if ( test( c ) )
                            progress = true;
                    }
                }
            }
            return best;
        }

        // Cases which fail together: as few of them as possible
        std::vector<Tape> shrinkHistory( const std::vector<Property> & list, std::vector<Tape> tapes, double deadline, const std::string & wantKnown, int & attempts )
        {
            auto test = [&]( const std::vector<Tape> & candidate ) {
                ++attempts;
                const Outcome o = runIsolated( list, candidate, 1.0, false, true );
                return o.failed && !o.timeout && o.known == wantKnown;
            };
            for ( size_t chunk = std::max<size_t>( 1, tapes.size() / 2 ); now() < deadline; ) {
                bool progress = false;
                for ( size_t i = 0; i + 1 < tapes.size() && now() < deadline; ) {
                    const size_t end = std::min( i + chunk, tapes.size() - 1 );
                    std::vector<Tape> c( tapes.begin(), tapes.begin() + static_cast<std::ptrdiff_t>( i ) );
                    c.insert( c.end(), tapes.begin() + static_cast<std::ptrdiff_t>( end ), tapes.end() );
                    if ( test( c ) ) {
                        tapes = c;
                        progress = true;
                    }
                    else
                        i = end;
                }
                if ( chunk == 1 && !progress )
                    break;
                chunk = std::max<size_t>( 1, chunk / 2 );
            }
            return tapes;
        }

        std::vector<uint8_t> unhex( const std::string & s )
        {
            std::vector<uint8_t> v;
            for ( size_t i = 0; i + 1 < s.size(); i += 2 )
                v.push_back( static_cast<uint8_t>( strtoul( s.substr( i, 2 ).c_str(), nullptr, 16 ) ) );
            return v;
        }

        std::string field( const std::string & text, const std::string & name )
        {
            const std::string key = "\"" + name + "\": \"";
            const size_t at = text.find( key );
            if ( at == std::string::npos )
                return std::string();
            const size_t end = text.find( '"', at + key.size() );
            return text.substr( at + key.size(), end - at - key.size() );
        }
    }

    void Ctx::flush()
    {
        if ( sink < 0 || written >= 60000 )
            return;
        const std::string all = text.str();
        const size_t end = std::min<size_t>( all.size(), 60000 );
        if ( end > written ) {
            const ssize_t r = ::write( sink, all.data() + written, end - written );
            (void)r;
            written = end;
        }
    }

    void Ctx::label( const std::string & name )
    {
        ++labels[name];
    }

    const std::string & scratchDirectory()
    {
        return scratchOwn;
    }

    bool thorough()
    {
        return isThorough;
    }
}

#ifndef PBT_LIBFUZZER
int main( int argc, char ** argv )
{
    using namespace pbt;
    std::map<std::string, std::string> opt;
    for ( int i = 1; i + 1 < argc; i += 2 )
        opt[argv[i]] = argv[i + 1];
    const std::string id = opt["--prop"];
    std::vector<Property> list;
    for ( const Property & p : properties() ) {
        if ( p.id == id && ( opt["--only"].empty() || opt["--only"] == p.name ) )
            list.push_back( p );
    }
    if ( list.empty() ) {
        fprintf( stderr, "no such property: %s\n", id.c_str() );
        return 4;
    }
    isThorough = opt["--tier"] == "thorough";
    scratchBase = opt["--scratch"];
    std::set<std::string> knownIds;
    {
        std::istringstream in( opt["--known"] );
        std::string k;
        while ( std::getline( in, k, ',' ) )
            if ( !k.empty() )
                knownIds.insert( k );
    }
    signal( SIGPIPE, SIG_IGN );

    if ( !opt["--replay"].empty() ) {
        std::ifstream in( opt["--replay"] );
        std::stringstream s;
        s << in.rdbuf();
        std::vector<Tape> tapes;
        std::istringstream before( field( s.str(), "before" ) );
        std::string one;
        while ( before >> one )
            tapes.push_back( one == "-" ? Tape() : unhex( one ) );
        tapes.push_back( unhex( field( s.str(), "tape" ) ) );
        const int times = opt["--times"].empty() ? 1 : atoi( opt["--times"].c_str() );
        int failures = 0;
        for ( int i = 0; i < times; ++i ) {
            const Outcome o = runIsolated( list, tapes, 1.0, i == 0, false );
            if ( i == 0 )
                printf( "case: %s\n", o.text.c_str() );
            if ( o.failed ) {
                ++failures;
                printf( "FAIL %s\n", o.message.c_str() );
            }
            else
                printf( "pass\n" );
        }
        return failures > 0 ? 1 : 0;
    }

    const uint64_t seed = strtoull( opt["--seed"].c_str(), nullptr, 10 );
    const double budget = atof( opt["--time"].c_str() );
    const int workers = opt["--workers"].empty() ? 8 : atoi( opt["--workers"].c_str() );
    const uint64_t maxCases = opt["--max-cases"].empty() ? ~0ull : strtoull( opt["--max-cases"].c_str(), nullptr, 10 );
    const double shrinkTime = opt["--shrink-time"].empty() ? 45 : atof( opt["--shrink-time"].c_str() );
    const std::string outFile = opt["--out"];
    const double begin = now();
    bool racy = false;
    for ( const Property & p : list )
        racy = racy || p.racy;

    std::vector<Shared *> shared;
    std::vector<pid_t> pids;
    std::vector<bool> alive;
    std::vector<uint64_t> firstCase( static_cast<size_t>( workers ), 0 );
    std::vector<int> restarts( static_cast<size_t>( workers ), 0 );
    const double deadline = begin + budget;

    auto start = [&]( int w ) {
        const size_t i = static_cast<size_t>( w );
        resetShared( shared[i] );
        fflush( stdout );
        fflush( stderr );
        const pid_t pid = fork();
        if ( pid == 0 ) {
            prctl( PR_SET_PDEATHSIG, SIGKILL );
            if ( opt["--verbose"].empty() ) {
                const int null = open( "/dev/null", O_WRONLY );
                dup2( null, 1 );
                dup2( null, 2 );
            }
            worker( list, shared[i], seed, w, workers, deadline, maxCases, firstCase[i],
                    scratchBase + "/result" + std::to_string( w ) + "_" + std::to_string( restarts[i] ), knownIds );
        }
        pids[i] = pid;
        alive[i] = true;
    };

    for ( int w = 0; w < workers; ++w ) {
        shared.push_back( newShared() );
        pids.push_back( 0 );
        alive.push_back( false );
    }
    for ( int w = 0; w < workers; ++w )
        start( w );

    struct Found
    {
        std::vector<uint8_t> tape;
        Outcome outcome;
        uint64_t caseIndex;
        int worker;
        uint64_t processStart = 0; // the first case of the process
        bool deadlock = false;
        std::vector<Tape> before; // cases of the same process without which this one does not fail
    };
    std::vector<Found> found;
    uint64_t flaky = 0, infrastructure = 0, lostEvaluations = 0;
    std::string flakyText;
    bool violation = false;
    Found report;
    std::string reportText;
    int reproductions = 0, replays = 0, shrinkAttempts = 0;

    uint64_t round = 0;
    while ( true ) {
        bool any = false;
        ++round;
        found.clear();
        for ( int w = 0; w < workers; ++w ) {
            const size_t i = static_cast<size_t>( w );
            if ( !alive[i] )
                continue;
            int status = 0;
            const pid_t r = waitpid( pids[i], &status, WNOHANG );
            bool failed = false, deadlock = false;
            Outcome o;
            if ( r == pids[i] ) {
                alive[i] = false;
                if ( shared[i]->state == FINISHED )
                    continue;
                lostEvaluations += shared[i]->caseIndex - firstCase[i] + 1;
                if ( shared[i]->state == FAILED ) {
                    o.failed = failed = true;
                    o.message = shared[i]->message;
                    o.known = shared[i]->known;
                }
                else if ( WIFSIGNALED( status ) && WTERMSIG( status ) == SIGKILL ) {
                    ++infrastructure;
                    if ( ++restarts[i] < 5 ) {
                        firstCase[i] = shared[i]->caseIndex + 1;
                        start( w );
                        any = true;
                    }
                    continue;
                }
                else {
                    o.failed = failed = true;
                    o.message = statusText( status );
                }
            }
            else {
                any = true;
                const bool big = round % 8 == 0 && tooBig( pids[i] );
                if ( big || now() - shared[i]->caseStart > shared[i]->timeout ) {
                    deadlock = !big && racy && isDeadlock( pids[i] );
                    kill( pids[i], SIGKILL );
                    waitpid( pids[i], &status, 0 );
                    alive[i] = false;
                    lostEvaluations += shared[i]->caseIndex - firstCase[i] + 1;
                    o.failed = failed = true;
                    o.timeout = !big;
                    o.message = big ? "the case takes more than 2.5 GB of memory" : "the case did not finish (hang)";
                }
            }
            if ( failed ) {
                Found f;
                f.tape.assign( shared[i]->tape, shared[i]->tape + shared[i]->length );
                f.outcome = o;
                f.caseIndex = shared[i]->caseIndex;
                f.worker = w;
                f.processStart = firstCase[i];
                f.deadlock = deadlock;
                found.push_back( f );
            }
        }
        for ( Found & f : found ) {
            // confirm in fresh processes
            int tries = racy || f.outcome.timeout ? ( racy ? 12 : 3 ) : 3;
            int hits = 0;
            Outcome last = f.outcome;
            for ( int t = 0; t < tries; ++t ) {
                const Outcome o = runIsolated( list, { f.tape }, 1.0, false, true );
                if ( o.failed ) {
                    ++hits;
                    last = o;
                    if ( racy && hits >= 3 )
                        break;
                    if ( o.timeout && hits >= 2 )
                        break;
                }
            }
            bool accept = racy ? ( hits > 0 || !f.outcome.timeout || f.deadlock ) : ( hits >= 2 );
            // it might depend on previous cases of the process
            if ( !accept && !f.outcome.timeout && f.caseIndex > f.processStart ) {
                History history;
                history.seed = seed;
                history.number = f.worker;
                history.stride = workers;
                history.to = f.caseIndex;
                history.file = scratchBase + "/history";
                const double limit = now() + 60;
                for ( uint64_t n = 1; now() < limit; n *= 4 ) {
                    history.from = f.caseIndex - f.processStart > n ? f.caseIndex - n : f.processStart;
                    const Outcome o = runIsolated( list, {}, 1.0, false, true, &history );
                    if ( o.failed && !o.timeout ) {
                        std::vector<Tape> tapes;
                        std::ifstream in( history.file, std::ios::binary );
                        uint32_t length = 0;
                        while ( in.read( reinterpret_cast<char *>( &length ), sizeof length ) ) {
                            tapes.push_back( Tape( length ) );
                            in.read( reinterpret_cast<char *>( tapes.back().data() ), length );
                        }
                        tapes.push_back( o.last );
                        int again = 0;
                        for ( int t = 0; t < 2; ++t ) {
                            const Outcome second = runIsolated( list, tapes, 1.0, false, true );
                            again += second.failed && !second.timeout && second.known == o.known;
                        }
                        if ( again == 2 ) {
                            accept = true;
                            hits = tries = 2;
                            last = o;
                            f.tape = tapes.back();
                            tapes.pop_back();
                            f.before = tapes;
                        }
                        break;
                    }
                    if ( history.from == f.processStart )
                        break;
                }
            }
            if ( accept ) {
                violation = true;
                report = f;
                if ( hits > 0 )
                    report.outcome = last;
                reproductions = hits;
                replays = tries;
                break;
            }
            ++flaky;
            if ( flakyText.empty() )
                flakyText = f.outcome.message + " tape=" + hex( f.tape ).substr( 0, 2000 );
            const size_t i = static_cast<size_t>( f.worker );
            if ( ++restarts[i] < 20 ) {
                firstCase[i] = f.caseIndex + 1;
                start( f.worker );
                any = true;
            }
        }
        if ( violation || ( !any && found.empty() ) )
            break;
        usleep( 5000 );
    }

    if ( violation ) {
        for ( size_t i = 0; i < pids.size(); ++i ) {
            if ( alive[i] ) {
                kill( pids[i], SIGKILL );
                int status;
                waitpid( pids[i], &status, 0 );
                lostEvaluations += shared[i]->caseIndex - firstCase[i];
            }
        }
        if ( !report.before.empty() ) {
            std::vector<Tape> all = report.before;
            all.push_back( report.tape );
            report.before = shrinkHistory( list, all, now() + shrinkTime / 2, report.outcome.known, shrinkAttempts );
            report.before.pop_back();
        }
        if ( reproductions >= 2 || ( !racy && reproductions > 0 ) )
            report.tape = shrink( list, report.before, report.tape, now() + shrinkTime, report.outcome.known, report.outcome.timeout, shrinkAttempts );
        std::vector<Tape> all = report.before;
        all.push_back( report.tape );
        for ( int t = 0; t < ( racy ? 6 : 1 ); ++t ) {
            const Outcome o = runIsolated( list, all, 1.0, true, true );
            if ( !o.text.empty() )
                reportText = o.text;
            if ( o.failed ) {
                report.outcome = o;
                break;
            }
        }
        // repeat once with stderr captured by the caller, to show a sanitizer report
        fflush( stdout );
        runIsolated( list, all, 1.0, false, false );
    }

    // collect
    uint64_t evaluations = lostEvaluations, discarded = 0;
    std::map<std::string, uint64_t> allLabels, known;
    std::vector<std::string> samples;
    std::unordered_set<uint64_t> hashes;
    for ( int w = 0; w < workers; ++w ) {
        for ( int k = 0; k <= restarts[static_cast<size_t>( w )]; ++k ) {
            std::ifstream in( scratchBase + "/result" + std::to_string( w ) + "_" + std::to_string( k ), std::ios::binary );
            std::string line;
            while ( std::getline( in, line ) ) {
                if ( line.size() < 2 )
                    continue;
                const std::string rest = line.substr( 2 );
                const size_t space = rest.find( ' ' );
                if ( line[0] == 'E' )
                    evaluations += strtoull( rest.c_str(), nullptr, 10 );
                else if ( line[0] == 'D' )
                    discarded += strtoull( rest.c_str(), nullptr, 10 );
                else if ( line[0] == 'L' )
                    allLabels[rest.substr( space + 1 )] += strtoull( rest.c_str(), nullptr, 10 );
                else if ( line[0] == 'K' )
                    known[rest.substr( space + 1 )] += strtoull( rest.c_str(), nullptr, 10 );
                else if ( line[0] == 'S' )
                    samples.push_back( rest );
                else if ( line[0] == 'H' ) {
                    const size_t n = strtoull( rest.c_str(), nullptr, 10 );
                    for ( size_t i = 0; i < n; ++i ) {
                        uint64_t h;
                        in.read( reinterpret_cast<char *>( &h ), 8 );
                        hashes.insert( h );
                    }
                    break;
                }
            }
        }
    }
    std::ofstream out( outFile );
    out << "{\n\"evaluations\": " << evaluations << ",\n\"discarded\": " << discarded << ",\n\"distinct_nontrivial\": " << hashes.size() << ",\n\"flaky\": " << flaky
        << ",\n\"flaky_text\": \"" << jsonEscape( flakyText ) << "\",\n\"infrastructure\": " << infrastructure << ",\n\"wall\": " << now() - begin << ",\n\"rule\": \"";
    for ( size_t i = 0; i < list.size(); ++i )
        out << ( i ? " | " : "" ) << jsonEscape( list[i].name + ": " + list[i].rule );
    out << "\",\n\"samples\": [";
    for ( size_t i = 0; i < samples.size() && i < 12; ++i )
        out << ( i ? ",\n" : "\n" ) << "\"" << jsonEscape( samples[i] ) << "\"";
    out << "],\n\"labels\": {";
    bool first = true;
    for ( const auto & l : allLabels ) {
        out << ( first ? "\n" : ",\n" ) << "\"" << jsonEscape( l.first ) << "\": " << l.second;
        first = false;
    }
    out << "},\n\"known\": {";
    first = true;
    for ( const auto & l : known ) {
        out << ( first ? "" : ", " ) << "\"" << jsonEscape( l.first ) << "\": " << l.second;
        first = false;
    }
    out << "},\n\"violation\": " << ( violation ? "true" : "false" );
    if ( violation ) {
        out << ",\n\"message\": \"" << jsonEscape( report.outcome.message ) << "\",\n\"found_known\": \"" << jsonEscape( report.outcome.known ) << "\",\n\"case\": \""
            << jsonEscape( reportText ) << "\",\n\"before\": \"";
        for ( size_t i = 0; i < report.before.size(); ++i )
            out << ( i ? " " : "" ) << ( report.before[i].empty() ? "-" : hex( report.before[i] ) );
        out << "\",\n\"tape\": \"" << hex( report.tape ) << "\",\n\"reproduced\": " << reproductions << ",\n\"replays\": " << replays
            << ",\n\"shrink_attempts\": " << shrinkAttempts << ",\n\"case_index\": " << report.caseIndex;
    }
    out << "\n}\n";
    return violation ? 1 : 0;
}
#else
// libFuzzer driver: the fuzzer's bytes are the tape
extern "C" int LLVMFuzzerTestOneInput( const uint8_t * data, size_t size )
{
    using namespace pbt;
    static std::vector<Property> list;
    static Shared * shared = nullptr;
    if ( shared == nullptr ) {
        shared = newShared();
        const char * id = getenv( "PBT_PROP" );
        for ( const Property & p : properties() )
            if ( id != nullptr && p.id == id )
                list.push_back( p );
        const char * dir = getenv( "PBT_SCRATCH" );
        scratchBase = dir ? dir : "";
        enterScratch( static_cast<int>( getpid() ) );
        isThorough = true;
        for ( const auto & f : initialisers() )
            f();
    }
    Src src( data, size );
    Ctx ctx;
    std::string message;
    bool discarded = false;
    if ( !runCase( list, src, ctx, shared, message, discarded ) ) {
        fprintf( stderr, "PBT-FAILURE %s\n", message.c_str() );
        abort();
    }
    return 0;
}
#endif
