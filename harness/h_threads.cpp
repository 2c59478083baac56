// P11, P12: histories of the thread pool against a model of what every task must have done
#ifdef PBT_THREADS_ID // the same histories under a race detector
#define PBT_P11 PBT_THREADS_ID
#define PBT_P12 PBT_THREADS_ID
#else
#define PBT_P11 "P11"
#define PBT_P12 "P12"
#endif
#include "pbt.h"
#include "perturb.h"

#include "function_pool.h"
#include "function_pool_task.h"
#include "image_buffer.h"
#include "penguinv_exception.h"
#include "thread_pool.h"

#include <chrono>
#include <memory>
#include <thread>

using pbt::Ctx;
using pbt::Src;

namespace
{
    enum Behaviour : uint8_t
    {
        Nothing,
        Yield,
        Spin,
        Sleep,
        Gate,
        ThrowStd,
        ThrowInt,
        ThrowLibrary
    };

    struct Gates
    {
        std::atomic<bool> open{ false };
        void wait()
        {
            for ( int i = 0; i < 20 && !open; ++i )
                std::this_thread::sleep_for( std::chrono::microseconds( 50 ) );
        }
    };

    struct Run
    {
        explicit Run( size_t n )
            : count( n )
        {
            for ( auto & c : count )
                c = 0;
        }
        std::vector<std::atomic<int>> count;
        std::vector<uint8_t> behaviour;
        std::atomic<int> active{ 0 };
        std::atomic<int> thrown{ 0 };
        std::atomic<int> foreign{ 0 };
        Gates * gates = nullptr;
    };

    void execute( Run * run, size_t id )
    {
        if ( run == nullptr )
            return;
        if ( id >= run->count.size() ) {
            ++run->foreign;
            return;
        }
        ++run->active;
        ++run->count[id];
        const uint8_t what = run->behaviour[id];
        switch ( what ) {
        case Yield:
            std::this_thread::yield();
            break;
        case Spin:
            for ( volatile int i = 0; i < 4000; ++i )
                ;
            break;
        case Sleep:
            std::this_thread::sleep_for( std::chrono::microseconds( 150 ) );
            break;
        case Gate:
            run->gates->wait();
            break;
        default:
            break;
        }
        if ( what >= ThrowStd )
            ++run->thrown;
        --run->active;
        if ( what == ThrowStd )
            throw std::runtime_error( "task failed" );
        if ( what == ThrowInt )
            throw 42;
        if ( what == ThrowLibrary )
            throw penguinVException( "task failed" );
    }

    struct Provider
    {
        virtual ~Provider() {}
        virtual void start( Run * run ) = 0;
        virtual bool wait() = 0;
        virtual bool ready() const = 0;
        virtual AbstractTaskProvider * base() = 0;
        virtual void detach() {}
    };

    class PoolProvider : public Provider, public TaskProvider
    {
    public:
        explicit PoolProvider( ThreadPool * pool )
            : TaskProvider( pool )
        {}
        ~PoolProvider()
        {
            _wait();
        }
        void start( Run * run ) override
        {
            _current = run;
            _run( run->count.size() );
        }
        bool wait() override
        {
            return _wait();
        }
        bool ready() const override
        {
            return TaskProvider::_ready();
        }
        AbstractTaskProvider * base() override
        {
            return this;
        }
        void detach() override
        {
            setThreadPool( nullptr );
        }

    protected:
        void _task( size_t id ) override
        {
            execute( _current, id );
        }

    private:
        std::atomic<Run *> _current{ nullptr };
    };

    class SingletonProvider : public Provider, public TaskProviderSingleton
    {
    public:
        ~SingletonProvider()
        {
            _wait();
        }
        void start( Run * run ) override
        {
            _current = run;
            _run( run->count.size() );
        }
        bool wait() override
        {
            return _wait();
        }
        bool ready() const override
        {
            return _ready();
        }
        AbstractTaskProvider * base() override
        {
            return this;
        }

    protected:
        void _task( size_t id ) override
        {
            execute( _current, id );
        }

    private:
        std::atomic<Run *> _current{ nullptr };
    };

    std::unique_ptr<Run> genRun( Src & s, Gates & gates, int failing ) // failing: chance in 256 that the run has failing tasks
    {
        const size_t n = 1 + ( s.chance( 40 ) ? s.upto( 60 ) : s.upto( 6 ) );
        std::unique_ptr<Run> run( new Run( n ) );
        run->gates = &gates;
        const uint8_t base = static_cast<uint8_t>( s.upto( 4 ) );
        const bool mixed = s.flag();
        pbt::Stream stream( mixed ? s.raw( 2 ) : 0 );
        for ( size_t i = 0; i < n; ++i )
            run->behaviour.push_back( mixed ? static_cast<uint8_t>( stream.below( Gate ) ) : base );
        if ( mixed && stream.below( 4 ) == 0 )
            run->behaviour[stream.below( static_cast<uint32_t>( n ) )] = Gate;
        if ( s.chance( failing ) ) {
            const size_t k = 1 + ( s.chance( 64 ) ? s.upto( n - 1 ) : 0 );
            for ( size_t i = 0; i < k; ++i )
                run->behaviour[s.upto( n - 1 )] = static_cast<uint8_t>( ThrowStd + s.upto( 2 ) );
        }
        return run;
    }

    // After wait() returned [success]. exact: nothing could have skipped tasks
    void verify( const Run & run, bool success, bool exact, const Provider & provider, const char * where )
    {
        PBT_CHECK( run.foreign == 0, where << ": " << run.foreign << " tasks with a number out of 0.." << run.count.size() - 1 << " were run" );
        PBT_CHECK( run.active == 0, where << ": waiting returned while " << run.active << " tasks were running" );
        for ( size_t i = 0; i < run.count.size(); ++i ) {
            PBT_CHECK( run.count[i] <= 1, where << ": task " << i << " of " << run.count.size() << " was run " << run.count[i] << " times" );
            if ( exact )
                PBT_CHECK( run.count[i] == 1, where << ": task " << i << " of " << run.count.size() << " was not run" );
        }
        PBT_CHECK( success == ( run.thrown == 0 ), where << ": waiting reported " << ( success ? "success" : "failure" ) << " while " << run.thrown << " tasks failed" );
        PBT_CHECK( provider.ready(), where << ": the provider is not ready after waiting" );
    }

    uint32_t genPerturbation( Src & s )
    {
        return s.pick<uint32_t>( { 0, 200, 1000, 4000, 12000 } );
    }

    // A history driven by one thread -----------------------------------------------------------------------------------

    struct Active
    {
        std::unique_ptr<Provider> provider;
        std::unique_ptr<Run> run; // null: idle
        bool exact = true;
        std::vector<int> frozen; // counts when the provider was removed from the pool and idle
    };

    void history( Src & s, Ctx & ctx, bool singleton, int failing )
    {
        Gates gates;
        perturb::Scope perturbation( genPerturbation( s ), s.raw( 2 ) );
        const bool openGates = s.chance( 100 );
        gates.open = openGates;
        std::unique_ptr<ThreadPool> own;
        ThreadPool * pool = nullptr;
        size_t threads = 0;
        if ( singleton ) {
            pool = &ThreadPoolMonoid::instance();
            threads = s.upto( 4 );
            if ( threads == 0 )
                pool->stop();
            else
                pool->resize( threads );
        }
        else {
            threads = s.upto( 4 );
            own.reset( s.flag() ? new ThreadPool( threads ) : new ThreadPool );
            pool = own.get();
            if ( threads > 0 )
                pool->resize( threads );
        }
        PBT_NOTE( ctx, "pool of " << threads << "; " );
        std::vector<Active> list( 1 + s.upto( 2 ) );
        for ( Active & a : list )
            a.provider.reset( singleton ? static_cast<Provider *>( new SingletonProvider ) : new PoolProvider( pool ) );
        const size_t steps = 2 + s.upto( 10 );
        size_t started = 0, special = 0;
        for ( size_t i = 0; i < steps; ++i ) {
            Active & a = list[s.upto( list.size() - 1 )];
            const size_t index = static_cast<size_t>( &a - list.data() );
            switch ( s.upto( 11 ) ) {
            case 0:
            case 1:
            case 2:
            case 3: // start, or wait when the provider is busy
                if ( !a.run ) {
                    a.run = genRun( s, gates, failing );
                    a.exact = true;
                    PBT_NOTE( ctx, "start " << index << " with " << a.run->count.size() << " tasks; " );
                    bool refused = false;
                    try {
                        a.provider->start( a.run.get() );
                    }
                    catch ( const penguinVException & ) {
                        refused = true;
                    }
                    PBT_CHECK( refused == ( threads == 0 ), ( refused ? "tasks were refused by a pool with threads" : "tasks were accepted by a pool without threads" ) );
                    if ( refused ) {
                        PBT_CHECK( a.provider->wait(), "waiting for refused tasks reports failure" );
                        a.run.reset();
                    }
                    else
                        ++started;
                    break;
                }
                // fall through
            case 4:
            case 5:
                if ( a.run ) {
                    PBT_NOTE( ctx, "wait " << index << "; " );
                    const bool success = a.provider->wait();
                    verify( *a.run, success, a.exact, *a.provider, "wait" );
                    a.run.reset();
                }
                break;
            case 6: { // up or down
                const size_t n = 1 + s.upto( 5 );
                PBT_NOTE( ctx, "resize to " << n << "; " );
                special += n != threads;
                pool->resize( n );
                threads = n;
                PBT_CHECK( pool->threadCount() == n, "the pool has " << pool->threadCount() << " threads instead of " << n );
                break;
            }
            case 7: {
                PBT_NOTE( ctx, "remove " << index << "; " );
                pool->remove( a.provider->base() );
                a.exact = false;
                ++special;
                break;
            }
            case 8: {
                PBT_NOTE( ctx, "clear; " );
                pool->clear();
                PBT_CHECK( pool->empty(), "the pool is not empty after it is cleared" );
                for ( Active & b : list )
                    b.exact = false;
                ++special;
                break;
            }
            case 9: {
                PBT_NOTE( ctx, "stop; " );
                pool->stop();
                threads = 0;
                PBT_CHECK( pool->threadCount() == 0, "a stopped pool has threads" );
                PBT_CHECK( pool->empty(), "a stopped pool is not empty" );
                for ( Active & b : list ) {
                    if ( b.run )
                        PBT_CHECK( b.run->active == 0, "tasks run after the pool is stopped" );
                    b.exact = false;
                }
                ++special;
                break;
            }
            case 10:
                PBT_NOTE( ctx, "pause; " );
                std::this_thread::sleep_for( std::chrono::microseconds( s.upto( 200 ) ) );
                break;
            case 11: // destroy while its tasks may be pending
                PBT_NOTE( ctx, "destroy " << index << "; " );
                if ( s.flag() ) {
                    pool->remove( a.provider->base() );
                    a.exact = false;
                }
                a.provider.reset();
                if ( a.run ) {
                    for ( size_t k = 0; k < a.run->count.size(); ++k ) {
                        PBT_CHECK( a.run->count[k] <= 1, "destruction: task " << k << " was run " << a.run->count[k] << " times" );
                        if ( a.exact )
                            PBT_CHECK( a.run->count[k] == 1, "destruction: task " << k << " of " << a.run->count.size() << " was not run" );
                    }
                    a.run.reset();
                }
                a.provider.reset( singleton ? static_cast<Provider *>( new SingletonProvider ) : new PoolProvider( pool ) );
                break;
            }
        }
        ctx.label( "special steps:" + std::to_string( std::min<size_t>( special, 4 ) ) );
        ctx.nontrivial = started > 0 && special > 0;
        gates.open = s.flag() || openGates;
        // the pool must still be usable, or it is destroyed while tasks are pending
        const bool destroyPool = !singleton && s.chance( 90 );
        if ( destroyPool ) {
            PBT_NOTE( ctx, "destroy the pool; " );
            own.reset();
            for ( Active & a : list ) {
                a.provider->detach();
                a.exact = false;
            }
        }
        gates.open = true;
        for ( Active & a : list )
            if ( a.run ) {
                const bool success = a.provider->wait();
                if ( !destroyPool )
                    verify( *a.run, success, a.exact, *a.provider, "last wait" );
                else {
                    PBT_CHECK( a.run->active == 0, "tasks run after the pool is destroyed" );
                    PBT_CHECK( success == ( a.run->thrown == 0 ), "wrong status after the pool is destroyed" );
                }
                a.run.reset();
            }
        if ( !destroyPool ) {
            const size_t n = 1 + s.upto( 3 );
            PBT_NOTE( ctx, "resize to " << n << " and run again; " );
            pool->resize( n );
            for ( Active & a : list ) {
                a.run.reset( new Run( 5 ) );
                a.run->behaviour.assign( 5, Yield );
                a.run->gates = &gates;
                a.provider->start( a.run.get() );
            }
            for ( Active & a : list ) {
                const bool success = a.provider->wait();
                verify( *a.run, success, true, *a.provider, "run at the end" );
            }
            PBT_CHECK( pool->empty(), "the pool is not empty although all tasks are done" );
        }
    }

    const char * HISTORY = "a history of start / wait / resize / remove / clear / stop / destroy with up to 60 tasks per start and perturbed schedules; "
                           "non-trivial: tasks were started and the pool was resized, cleared, stopped or a provider removed";

    pbt::Register p11a(
        PBT_P11, "history", 3, HISTORY, []( Src & s, Ctx & ctx ) { history( s, ctx, false, 24 ); }, 10, true );
    pbt::Register p11b(
        PBT_P11, "singleton history", 1, HISTORY, []( Src & s, Ctx & ctx ) { history( s, ctx, true, 24 ); }, 10, true );

    // Several client threads and a controller --------------------------------------------------------------------------

    struct Script
    {
        std::vector<std::unique_ptr<Run>> runs;
        std::vector<uint8_t> action; // before waiting: 0 nothing, 1 remove, 2 pause
        bool recreate = false;
        std::string failure;
    };

    void concurrent( Src & s, Ctx & ctx, int failing )
    {
        Gates gates;
        gates.open = s.flag();
        perturb::Scope perturbation( genPerturbation( s ), s.raw( 2 ) );
        const size_t initial = 1 + s.upto( 4 );
        std::vector<uint16_t> control; // kind, value
        const bool stops = s.chance( 90 );
        const size_t controls = s.upto( 6 );
        size_t interesting = 0;
        for ( size_t i = 0; i < controls; ++i ) {
            const uint16_t kind = static_cast<uint16_t>( s.upto( 5 ) );
            if ( kind < 3 || !stops ) {
                control.push_back( static_cast<uint16_t>( 1 + s.upto( 5 ) ) ); // resize
                ++interesting;
            }
            else if ( kind == 3 )
                control.push_back( 100 ); // clear
            else if ( kind == 4 )
                control.push_back( static_cast<uint16_t>( 200 + 1 + s.upto( 3 ) ) ); // stop and resize
            else
                control.push_back( static_cast<uint16_t>( 300 + s.upto( 100 ) ) ); // pause
        }
        std::vector<Script> scripts( 2 + s.upto( 2 ) );
        for ( Script & script : scripts ) {
            const size_t n = 1 + s.upto( 3 );
            for ( size_t i = 0; i < n; ++i ) {
                script.runs.push_back( genRun( s, gates, failing ) );
                script.action.push_back( static_cast<uint8_t>( s.chance( 60 ) ? 1 + s.upto( 1 ) : 0 ) );
            }
            script.recreate = s.flag();
        }
        if ( ctx.verbose ) {
            PBT_NOTE( ctx, "pool of " << initial << ", controller:" );
            for ( uint16_t c : control )
                PBT_NOTE( ctx, ' ' << c );
            for ( const Script & script : scripts ) {
                PBT_NOTE( ctx, "; client:" );
                for ( const auto & r : script.runs )
                    PBT_NOTE( ctx, ' ' << r->count.size() << " tasks" );
            }
        }
        ctx.nontrivial = interesting > 0 || stops;
        ctx.label( stops ? "with clear and stop" : "resize only" );
        {
            ThreadPool pool( initial );
            std::atomic<uint64_t> epoch( 0 ); // odd while tasks may be cleared
            std::vector<std::thread> clients;
            for ( Script & script : scripts )
                clients.emplace_back( [&pool, &epoch, &script]() {
                    try {
                        std::unique_ptr<Provider> provider( new PoolProvider( &pool ) );
                        for ( size_t i = 0; i < script.runs.size(); ++i ) {
                            Run & run = *script.runs[i];
                            const uint64_t before = epoch;
                            bool refused = false;
                            try {
                                provider->start( &run );
                            }
                            catch ( const penguinVException & ) {
                                refused = true;
                            }
                            if ( script.action[i] == 1 )
                                pool.remove( provider->base() );
                            else if ( script.action[i] == 2 )
                                std::this_thread::sleep_for( std::chrono::microseconds( 100 ) );
                            const bool success = provider->wait();
                            const bool quiet = before == epoch && before % 2 == 0;
                            PBT_CHECK( !refused || !quiet, "a running pool refused tasks" );
                            verify( run, success, quiet && script.action[i] != 1, *provider, "client" );
                            if ( script.recreate )
                                provider.reset( new PoolProvider( &pool ) );
                        }
                    }
                    catch ( const pbt::Failure & f ) {
                        script.failure = f.message;
                    }
                } );
            for ( uint16_t c : control ) {
                if ( c == 100 ) {
                    ++epoch;
                    pool.clear();
                    ++epoch;
                }
                else if ( c > 300 )
                    std::this_thread::sleep_for( std::chrono::microseconds( c - 300 ) );
                else if ( c > 200 ) {
                    ++epoch;
                    pool.stop();
                    pool.resize( c - 200u );
                    ++epoch;
                }
                else if ( c < 100 )
                    pool.resize( c );
                pool.empty();
            }
            gates.open = true;
            for ( std::thread & t : clients )
                t.join();
            for ( const Script & script : scripts )
                PBT_CHECK( script.failure.empty(), script.failure );
            PBT_CHECK( pool.empty(), "the pool is not empty after all clients are done" );
            // late runs of tasks which were removed or counted as done
            std::this_thread::yield();
            for ( const Script & script : scripts )
                for ( const auto & run : script.runs )
                    for ( const auto & n : run->count )
                        PBT_CHECK( n <= 1, "a task was run " << n << " times" );
        }
    }

    pbt::Register p11c(
        PBT_P11, "concurrent", 3, "two to four client threads start, remove and wait while a controller resizes, clears, stops and restarts the pool; non-trivial: the controller acts",
        []( Src & s, Ctx & ctx ) { concurrent( s, ctx, 24 ); }, 10, true );

    // Tasks which occupy threads until they are released
    struct Meeting
    {
        std::atomic<size_t> arrived{ 0 };
        std::atomic<bool> open{ false };
    };

    class MeetingProvider : public TaskProvider
    {
    public:
        MeetingProvider( ThreadPool * pool, Meeting & meeting )
            : TaskProvider( pool )
            , _meeting( meeting )
        {}
        ~MeetingProvider()
        {
            _meeting.open = true;
            _wait();
        }
        void start( size_t n )
        {
            _run( n );
        }
        bool wait()
        {
            return _wait();
        }

    protected:
        void _task( size_t ) override
        {
            ++_meeting.arrived;
            while ( !_meeting.open )
                std::this_thread::sleep_for( std::chrono::microseconds( 20 ) );
        }

    private:
        Meeting & _meeting;
    };

    void meeting( Src & s, Ctx & ctx )
    {
        perturb::Scope perturbation( genPerturbation( s ), s.raw( 2 ) );
        ThreadPool pool;
        size_t threads = 0;
        const size_t resizes = 1 + s.upto( 2 );
        for ( size_t i = 0; i < resizes; ++i ) {
            threads = 1 + s.upto( 5 );
            pool.resize( threads );
            PBT_NOTE( ctx, "resize to " << threads << "; " );
            if ( s.flag() ) { // use it
                Gates gates;
                gates.open = true;
                std::unique_ptr<Run> run = genRun( s, gates, 24 );
                PoolProvider provider( &pool );
                provider.start( run.get() );
                verify( *run, provider.wait(), true, provider, "run before the meeting" );
            }
            if ( s.flag() )
                std::this_thread::sleep_for( std::chrono::microseconds( s.upto( 150 ) ) ); // threads may fall asleep
        }
        const size_t rounds = 1 + s.upto( 2 );
        for ( size_t round = 0; round < rounds; ++round ) {
            Meeting together;
            std::vector<std::unique_ptr<MeetingProvider>> occupants;
            size_t busy = 0;
            const size_t wanted = 1 + s.upto( threads - 1 );
            while ( busy < wanted ) {
                const size_t n = 1 + s.upto( wanted - busy - 1 );
                occupants.emplace_back( new MeetingProvider( &pool, together ) );
                occupants.back()->start( n );
                busy += n;
                PBT_NOTE( ctx, n << " tasks wait; " );
            }
            const std::chrono::steady_clock::time_point begin = std::chrono::steady_clock::now();
            while ( together.arrived < busy && std::chrono::steady_clock::now() - begin < std::chrono::seconds( 5 ) )
                std::this_thread::sleep_for( std::chrono::microseconds( 20 ) );
            PBT_CHECK( together.arrived == busy, "only " << together.arrived << " of " << busy << " tasks run at the same time in a pool of " << threads << " threads" );
            ctx.nontrivial = ctx.nontrivial || busy > 1;
            const size_t guests = s.upto( 2 );
            for ( size_t i = 0; i < guests; ++i ) {
                if ( busy == threads && s.flag() ) {
                    ++threads;
                    PBT_NOTE( ctx, "resize to " << threads << "; " );
                    pool.resize( threads );
                }
                Gates gates;
                gates.open = true;
                std::unique_ptr<Run> run = genRun( s, gates, 24 );
                PoolProvider provider( &pool );
                if ( busy < threads ) {
                    // free threads have to do this
                    PBT_NOTE( ctx, run->count.size() << " tasks beside; " );
                    provider.start( run.get() );
                    verify( *run, provider.wait(), true, provider, "run beside occupied threads" );
                }
                else { // never to be run
                    PBT_NOTE( ctx, run->count.size() << " tasks are removed; " );
                    provider.start( run.get() );
                    PBT_CHECK( !pool.empty(), "a pool with " << run->count.size() << " pending tasks is empty" );
                    pool.remove( &provider );
                    PBT_CHECK( pool.empty(), "a pool without pending tasks is not empty" );
                    verify( *run, provider.wait(), false, provider, "removed while all threads are occupied" );
                    for ( const std::atomic<int> & count : run->count )
                        PBT_CHECK( count == 0, "a task was run although all threads were occupied before it was removed" );
                }
            }
            together.open = true;
            for ( std::unique_ptr<MeetingProvider> & provider : occupants )
                PBT_CHECK( provider->wait(), "waiting reports failure of tasks which did not fail" );
            PBT_CHECK( together.arrived == busy, together.arrived << " of " << busy << " tasks were run" );
        }
    }

    class CopyProvider : public TaskProvider
    {
    public:
        CopyProvider() {}
        explicit CopyProvider( ThreadPool * pool )
            : TaskProvider( pool )
        {}
        CopyProvider( const CopyProvider & other )
            : TaskProvider( other )
        {}
        CopyProvider & operator=( const CopyProvider & other )
        {
            TaskProvider::operator=( other );
            return *this;
        }
        ~CopyProvider()
        {
            _wait();
        }
        void start( Run * run )
        {
            current = run;
            _run( run->count.size() );
        }
        bool wait()
        {
            return _wait();
        }
        bool ready() const
        {
            return _ready();
        }
        Run * current = nullptr;

    protected:
        void _task( size_t id ) override
        {
            execute( current, id );
        }
    };

    void copies( Src & s, Ctx & ctx )
    {
        perturb::Scope perturbation( genPerturbation( s ), s.raw( 2 ) );
        struct Place
        {
            ThreadPool pool;
            size_t threads = 0;
        };
        std::vector<std::unique_ptr<Place>> pools;
        for ( int i = 0; i < 2; ++i )
            pools.emplace_back( new Place );
        struct Entry
        {
            std::unique_ptr<CopyProvider> provider;
            int pool = -1;
            std::unique_ptr<Run> run;
        };
        Gates gates;
        std::vector<Entry> list( 3 );
        for ( Entry & e : list ) {
            e.pool = static_cast<int>( s.upto( 2 ) ) - 1;
            e.provider.reset( e.pool < 0 ? new CopyProvider : new CopyProvider( &pools[static_cast<size_t>( e.pool )]->pool ) );
            PBT_NOTE( ctx, "provider of pool " << e.pool << "; " );
        }
        const size_t steps = 3 + s.upto( 12 );
        size_t copied = 0;
        for ( size_t i = 0; i < steps; ++i ) {
            const size_t index = s.upto( list.size() - 1 ), from = s.upto( list.size() - 1 );
            Entry & e = list[index];
            switch ( s.upto( 6 ) ) {
            case 0: { // threads of a pool
                Place & place = *pools[s.upto( 1 )];
                bool busy = false;
                for ( Entry & other : list )
                    busy = busy || ( other.run && other.pool >= 0 && pools[static_cast<size_t>( other.pool )].get() == &place );
                if ( s.flag() && !busy ) {
                    place.pool.stop();
                    place.threads = 0;
                }
                else {
                    place.threads = 1 + s.upto( 3 );
                    place.pool.resize( place.threads );
                }
                PBT_NOTE( ctx, "a pool has " << place.threads << " threads; " );
                break;
            }
            case 1: // copy, also of a busy one
                if ( index != from && !e.run ) {
                    PBT_NOTE( ctx, index << " becomes a copy of " << from << "; " );
                    e.provider.reset( new CopyProvider( *list[from].provider ) );
                    e.pool = list[from].pool;
                    PBT_CHECK( e.provider->wait(), "waiting for a copy reports failure" );
                    PBT_CHECK( e.provider->ready() == ( e.pool >= 0 ), "a copy of a provider is " << ( e.pool >= 0 ? "not " : "" ) << "ready" );
                    ++copied;
                }
                break;
            case 2:
                if ( !e.run ) {
                    PBT_NOTE( ctx, index << " is assigned from " << from << "; " );
                    *e.provider = *list[from].provider;
                    e.pool = list[from].pool;
                    PBT_CHECK( e.provider->ready() == ( e.pool >= 0 ), "an assigned provider is " << ( e.pool >= 0 ? "not " : "" ) << "ready" );
                    ++copied;
                }
                break;
            case 3:
                if ( !e.run ) {
                    e.pool = static_cast<int>( s.upto( 2 ) ) - 1;
                    PBT_NOTE( ctx, index << " moves to pool " << e.pool << "; " );
                    e.provider->setThreadPool( e.pool < 0 ? nullptr : &pools[static_cast<size_t>( e.pool )]->pool );
                }
                break;
            case 4:
            case 5:
                if ( !e.run && s.chance( 20 ) ) {
                    PBT_NOTE( ctx, "start " << index << " with nothing; " );
                    Run nothing( 0 );
                    e.provider->start( &nothing );
                    PBT_CHECK( e.provider->wait(), "waiting for no tasks reports failure" );
                    e.provider->current = nullptr;
                    break;
                }
                if ( !e.run ) {
                    std::unique_ptr<Run> run = genRun( s, gates, 40 );
                    PBT_NOTE( ctx, "start " << index << " with " << run->count.size() << " tasks; " );
                    bool refused = false;
                    try {
                        e.provider->start( run.get() );
                    }
                    catch ( const penguinVException & ) {
                        refused = true;
                    }
                    if ( e.pool < 0 ) { // nobody to run them
                        PBT_CHECK( e.provider->wait(), "waiting for a provider without a pool reports failure" );
                        for ( const std::atomic<int> & count : run->count )
                            PBT_CHECK( count == 0, "a task of a provider without a pool was run" );
                        e.provider->current = nullptr;
                        break;
                    }
                    const size_t threads = pools[static_cast<size_t>( e.pool )]->threads;
                    PBT_CHECK( refused == ( threads == 0 ), "tasks for pool " << e.pool << " of " << threads << " threads are " << ( refused ? "refused" : "accepted" ) );
                    if ( refused )
                        e.provider->current = nullptr;
                    else
                        e.run = std::move( run );
                    break;
                }
                // fall through
            default:
                if ( e.run ) {
                    PBT_NOTE( ctx, "wait " << index << "; " );
                    const bool success = e.provider->wait();
                    struct Ready : Provider
                    {
                        void start( Run * ) override {}
                        bool wait() override
                        {
                            return true;
                        }
                        bool ready() const override
                        {
                            return value;
                        }
                        AbstractTaskProvider * base() override
                        {
                            return nullptr;
                        }
                        bool value = true;
                    } ready;
                    ready.value = e.provider->ready();
                    verify( *e.run, success, true, ready, "wait" );
                    e.run.reset();
                    e.provider->current = nullptr;
                }
                break;
            }
        }
        gates.open = true;
        ctx.nontrivial = copied > 0;
        for ( Entry & e : list ) {
            if ( e.run ) {
                const bool success = e.provider->wait();
                PBT_CHECK( success == ( e.run->thrown == 0 ), "wrong status at the end" );
                for ( const std::atomic<int> & count : e.run->count )
                    PBT_CHECK( count == 1, "a task was run " << count << " times" );
            }
            e.provider.reset();
        }
    }

    pbt::Register p11e(
        PBT_P11, "copies", 1, "providers are copied (also while they are busy), assigned, moved between two pools and used; non-trivial: something was copied or assigned",
        copies, 12, true );

    pbt::Register p11d(
        PBT_P11, "occupied threads", 2, "tasks occupy some or all of up to eight threads until they are released, while other tasks must be run by the remaining ones; non-trivial: two tasks must run at the same time",
        meeting, 12, true );

    // P12 --------------------------------------------------------------------------------------------------------------

    pbt::Register p12a(
        PBT_P12, "failing tasks in histories", 2, HISTORY, []( Src & s, Ctx & ctx ) { history( s, ctx, s.chance( 64 ), 140 ); }, 10, true );
    pbt::Register p12b(
        PBT_P12, "failing tasks of concurrent clients", 2, "several clients, most of whose runs have failing tasks", []( Src & s, Ctx & ctx ) { concurrent( s, ctx, 140 ); }, 10, true );

    pbt::Register p12c(
        PBT_P12, "failing next to healthy", 2, "failing and healthy providers in flight on one pool, then reused; non-trivial: at least one failing task among several tasks",
        []( Src & s, Ctx & ctx ) {
            Gates gates;
            perturb::Scope perturbation( genPerturbation( s ), s.raw( 2 ) );
            ThreadPool pool( 1 + s.upto( 4 ) );
            const size_t n = 2 + s.upto( 2 );
            std::vector<std::unique_ptr<PoolProvider>> providers;
            for ( size_t i = 0; i < n; ++i )
                providers.emplace_back( new PoolProvider( &pool ) );
            const size_t rounds = 1 + s.upto( 3 );
            std::vector<std::unique_ptr<Run>> keep;
            for ( size_t round = 0; round < rounds; ++round ) {
                std::vector<Run *> runs;
                for ( size_t i = 0; i < n; ++i ) {
                    keep.push_back( genRun( s, gates, 128 ) );
                    runs.push_back( keep.back().get() );
                    for ( uint8_t b : runs.back()->behaviour )
                        ctx.nontrivial = ctx.nontrivial || ( b >= ThrowStd && runs.back()->count.size() > 1 );
                    PBT_NOTE( ctx, runs.back()->count.size() << " tasks; " );
                }
                for ( size_t i = 0; i < n; ++i )
                    providers[i]->start( runs[i] );
                const bool backwards = s.flag();
                for ( size_t k = 0; k < n; ++k ) {
                    const size_t i = backwards ? n - 1 - k : k;
                    const bool success = providers[i]->wait();
                    verify( *runs[i], success, true, *providers[i], "round" );
                }
            }
        },
        10, true );

    // Function pool tasks: a failing sub-area makes the call throw
    class PictureTask : public Function_Pool::FunctionPoolTask
    {
    public:
        void process( const penguinV::Image & image, const std::vector<uint8_t> & failing, std::vector<std::atomic<int>> & runs )
        {
            _failing = &failing;
            _runs = &runs;
            _setup( image, 0, 0, image.width(), image.height() );
            _processTask();
        }
        size_t areas() const
        {
            return _infoIn1->_size();
        }

    protected:
        void _task( size_t id ) override
        {
            ++( *_runs )[id];
            if ( ( *_failing )[id % _failing->size()] )
                throw std::runtime_error( "sub-area failed" );
        }

    private:
        const std::vector<uint8_t> * _failing = nullptr;
        std::vector<std::atomic<int>> * _runs = nullptr;
    };

    pbt::Register p12d(
        PBT_P12, "function pool", 2, "function pool tasks and image functions whose sub-areas fail, then valid calls; non-trivial: something failed",
        []( Src & s, Ctx & ctx ) {
            perturb::Scope perturbation( genPerturbation( s ), s.raw( 2 ) );
            ThreadPoolMonoid::instance().resize( 1 + s.upto( 5 ) );
            const uint32_t w = 1 + static_cast<uint32_t>( s.upto( 70 ) ), h = 1 + static_cast<uint32_t>( s.upto( 12 ) );
            penguinV::Image image( w, h );
            image.fill( 9 );
            PictureTask task;
            const size_t calls = 1 + s.upto( 3 );
            for ( size_t c = 0; c < calls; ++c ) {
                const uint64_t kind = s.upto( 3 );
                if ( kind <= 1 ) {
                    std::vector<uint8_t> failing( 8 );
                    const uint64_t mask = s.upto( 255 );
                    for ( size_t i = 0; i < 8; ++i )
                        failing[i] = ( mask >> i ) & 1;
                    std::vector<std::atomic<int>> runs( 64 );
                    for ( auto & r : runs )
                        r = 0;
                    bool thrown = false;
                    try {
                        task.process( image, failing, runs );
                    }
                    catch ( const penguinVException & ) {
                        thrown = true;
                    }
                    bool expected = false;
                    for ( size_t i = 0; i < runs.size(); ++i ) {
                        const int want = i < task.areas() ? 1 : 0;
                        PBT_CHECK( runs[i] == want, "sub-area " << i << " was processed " << runs[i] << " times instead of " << want );
                        expected = expected || ( want && failing[i % 8] );
                    }
                    PBT_NOTE( ctx, "task " << w << 'x' << h << " failing mask " << mask << "; " );
                    ctx.nontrivial = ctx.nontrivial || expected;
                    PBT_CHECK( thrown == expected, ( thrown ? "the call threw although no sub-area failed" : "the call did not throw although a sub-area failed" ) );
                }
                else if ( kind == 2 ) { // an image function all of whose sub-areas refuse
                    PBT_NOTE( ctx, "refused image function; " );
                    ctx.nontrivial = true;
                    bool thrown = false;
                    penguinV::Image color( w, h, penguinV::RGB );
                    color.fill( 1 );
                    try {
                        switch ( s.upto( 3 ) ) {
                        case 0:
                            Function_Pool::ConvertToRgb( image, 0, 0, image, 0, 0, w, h );
                            break;
                        case 1:
                            Function_Pool::ExtractChannel( color, 0, 0, image, 0, 0, w, h, 3 );
                            break;
                        case 2:
                            Function_Pool::Threshold( image, 0, 0, image, 0, 0, w, h, 200, 100 );
                            break;
                        default:
                            Function_Pool::LookupTable( image, 0, 0, image, 0, 0, w, h, std::vector<uint8_t>( 100, 1 ) );
                        }
                    }
                    catch ( const std::exception & ) {
                        thrown = true;
                    }
                    PBT_CHECK( thrown, "an image function on the pool with invalid parameters returned normally" );
                }
                else {
                    PBT_NOTE( ctx, "Sum; " );
                    PBT_CHECK( Function_Pool::Sum( image, 0, 0, w, h ) == 9 * w * h, "Sum is wrong after earlier failures" );
                }
            }
            PBT_CHECK( Function_Pool::Sum( image, 0, 0, w, h ) == 9 * w * h, "Sum is wrong after earlier failures" );
        },
        10, true );
}
