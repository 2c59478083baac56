// P31: the Python module against the library, in an interpreter of the same process
#define PY_SSIZE_T_CLEAN
#include <Python.h>

#include "file/bmp_image.h"
#include "image_function.h"
#include "img.h"
#include <fstream>
#include <functional>
#include <memory>
#include <unistd.h>

extern "C" PyObject * PyInit__penguinV( void );

using namespace hv;

namespace
{
    PyObject * module = nullptr;

    // Starts the interpreter; every worker is a copy of this process
    pbt::RegisterInit start( []() {
        PyImport_AppendInittab( "_penguinV", PyInit__penguinV );
        PyConfig config;
        PyConfig_InitIsolatedConfig( &config );
        config.site_import = 0;
        const PyStatus status = Py_InitializeFromConfig( &config );
        if ( PyStatus_Exception( status ) ) {
            fprintf( stderr, "no Python interpreter: %s\n", status.err_msg ? status.err_msg : "" );
            exit( 2 );
        }
        PyConfig_Clear( &config );
        const char * directory = getenv( "PBT_PYTHON_MODULE" );
        PyObject * path = PySys_GetObject( "path" );
        PyObject * entry = PyUnicode_FromString( directory ? directory : "." );
        PyList_Insert( path, 0, entry );
        Py_DECREF( entry );
        module = PyImport_ImportModule( "penguinV" );
        if ( module == nullptr )
            PyErr_Print(); // cases report it
    } );

    std::string pythonError()
    {
        PyObject * error = PyErr_GetRaisedException();
        if ( error == nullptr )
            return "";
        PyObject * text = PyObject_Repr( error );
        std::string out = text ? PyUnicode_AsUTF8( text ) : "an exception";
        if ( out.size() > 200 )
            out.resize( 200 );
        Py_XDECREF( text );
        const bool ordinary = PyErr_GivenExceptionMatches( error, PyExc_Exception );
        Py_DECREF( error );
        PBT_CHECK( ordinary, "not an ordinary Python exception: " << out );
        return out.empty() ? "an exception" : out;
    }

    struct Session
    {
        PyObject * globals;
        Session()
        {
            PBT_CHECK( module != nullptr, "the Python module cannot be imported" );
            globals = PyDict_New();
            PyDict_SetItemString( globals, "__builtins__", PyEval_GetBuiltins() );
            PyDict_SetItemString( globals, "p", module );
        }
        ~Session()
        {
            PyErr_Clear();
            PyDict_Clear( globals );
            Py_DECREF( globals );
        }
        // Runs statements; returns the text of an exception
        std::string run( const std::string & code )
        {
            PyObject * r = PyRun_String( code.c_str(), Py_file_input, globals, globals );
            if ( r != nullptr ) {
                Py_DECREF( r );
                return "";
            }
            return pythonError();
        }
        std::vector<long long> numbers( const std::string & expression )
        {
            PyObject * r = PyRun_String( ( "[int(v) for v in " + expression + "]" ).c_str(), Py_eval_input, globals, globals );
            if ( r == nullptr )
                PBT_CHECK( false, expression << " raises " << pythonError() );
            std::vector<long long> out;
            for ( Py_ssize_t i = 0; i < PyList_Size( r ); ++i )
                out.push_back( PyLong_AsLongLong( PyList_GetItem( r, i ) ) );
            Py_DECREF( r );
            return out;
        }
        Image & image( const std::string & name )
        {
            return *reinterpret_cast<Image *>( static_cast<uintptr_t>( numbers( "(" + name + ".this,)" )[0] ) );
        }
    };

    const size_t SLOTS = 4;

    struct History
    {
        Src & s;
        Ctx & ctx;
        Session py;
        std::vector<std::shared_ptr<Image>> twin; // objects shared between names like in Python
        std::vector<bool> saved; // files
        size_t valid = 0;

        History( Src & src, Ctx & context )
            : s( src )
            , ctx( context )
            , twin( SLOTS )
            , saved( 3, false )
        {
        }

        ~History()
        {
            for ( size_t f = 0; f < saved.size(); ++f )
                if ( saved[f] ) {
                    unlink( file( f, true ).c_str() );
                    unlink( file( f, false ).c_str() );
                }
        }

        static std::string name( size_t i )
        {
            return "i" + std::to_string( i );
        }
        static std::string file( size_t f, bool python )
        {
            return pbt::scratchDirectory() + "/p31_" + std::to_string( getpid() ) + "_" + std::to_string( f ) + ( python ? "p" : "c" ) + ".bmp";
        }
        static std::string list( const std::vector<uint32_t> & v )
        {
            std::string out = "[";
            for ( uint32_t x : v )
                out += std::to_string( x ) + ",";
            return out + "]";
        }

        // The same step in Python and in the library
        bool step( const std::string & code, const std::function<void()> & f, const std::string & shown = "" )
        {
            PBT_NOTE( ctx, ( shown.empty() ? code : shown ) << '\n' );
            std::string expected;
            try {
                f();
            }
            catch ( const std::exception & e ) {
                expected = e.what();
                if ( expected.empty() )
                    expected = "an exception";
            }
            const std::string got = py.run( code );
            PBT_CHECK( got.empty() == expected.empty(),
                       ( shown.empty() ? code : shown ) << ( got.empty() ? ": no exception in Python while the library refuses: " + expected : " raises " + got + " while the library works" ) );
            ctx.label( expected.empty() ? "accepted" : "refused" );
            return expected.empty();
        }

        // new contents for the pixels of an image whose pixels are not specified
        void contents( size_t i )
        {
            Image & t = *twin[i];
            if ( t.empty() )
                return;
            Image & o = py.image( name( i ) );
            PBT_CHECK( o.width() == t.width() && o.height() == t.height() && o.rowSize() == t.rowSize(), name( i ) << " has another size" );
            pbt::Stream r( s.raw( 3 ) );
            const uint32_t kind = static_cast<uint32_t>( r.below( 3 ) ), base = static_cast<uint32_t>( r.below( 256 ) );
            const size_t n = static_cast<size_t>( t.rowSize() ) * t.height();
            for ( size_t k = 0; k < n; ++k ) {
                const uint8_t v = static_cast<uint8_t>( kind == 0 ? r.next() : kind == 1 ? base + r.below( 3 ) : ( r.below( 2 ) ? 255 : base ) );
                t.data()[k] = v;
                o.data()[k] = v;
            }
        }

        void check( size_t i )
        {
            if ( !twin[i] )
                return;
            const Image & t = *twin[i];
            const std::string n = name( i );
            const std::vector<long long> got
                = py.numbers( "(" + n + ".width()," + n + ".height()," + n + ".rowSize()," + n + ".colorCount()," + n + ".alignment()," + n + ".empty()," + n + ".type())" );
            const std::vector<long long> want{ t.width(), t.height(), t.rowSize(), t.colorCount(), t.alignment(), t.empty(), t.type() };
            static const char * what[] = { "width", "height", "rowSize", "colorCount", "alignment", "empty", "type" };
            for ( size_t k = 0; k < want.size(); ++k )
                PBT_CHECK( got[k] == want[k], n << '.' << what[k] << " is " << got[k] << " instead of " << want[k] );
            if ( t.empty() )
                return;
            const Image & o = py.image( n );
            for ( uint32_t y = 0; y < t.height(); ++y )
                for ( uint32_t x = 0; x < t.width() * t.colorCount(); ++x )
                    PBT_CHECK( o.data()[static_cast<size_t>( y ) * o.rowSize() + x] == t.data()[static_cast<size_t>( y ) * t.rowSize() + x],
                               n << ": byte " << x << " of row " << y << " is " << int( o.data()[static_cast<size_t>( y ) * o.rowSize() + x] ) << " instead of "
                                 << int( t.data()[static_cast<size_t>( y ) * t.rowSize() + x] ) );
        }

        void numbersOf( const std::string & expression, const std::vector<uint32_t> & want )
        {
            const std::vector<long long> got = py.numbers( expression );
            PBT_CHECK( got.size() == want.size(), expression << " has " << got.size() << " elements instead of " << want.size() );
            for ( size_t i = 0; i < want.size(); ++i )
                PBT_CHECK( got[i] == want[i], "element " << i << " of " << expression << " is " << got[i] << " instead of " << want[i] );
        }

        struct Area
        {
            uint32_t x, y, w, h;
            std::string text() const
            {
                return std::to_string( x ) + ", " + std::to_string( y ) + ", " + std::to_string( w ) + ", " + std::to_string( h );
            }
        };
        // mostly inside of the image
        Area area( const Image & im )
        {
            Area a{ 0, 0, im.width(), im.height() };
            if ( !im.empty() ) {
                a.x = static_cast<uint32_t>( s.upto( im.width() - 1 ) );
                a.y = static_cast<uint32_t>( s.upto( im.height() - 1 ) );
                a.w = 1 + static_cast<uint32_t>( s.upto( im.width() - a.x - 1 ) );
                a.h = 1 + static_cast<uint32_t>( s.upto( im.height() - a.y - 1 ) );
            }
            if ( s.chance( 30 ) ) {
                uint32_t * part[] = { &a.x, &a.y, &a.w, &a.h };
                *part[s.upto( 3 )] = s.pick<uint32_t>( { 0, 1, 5000, 0xFFFFFFFFu, im.width(), im.height() } );
            }
            return a;
        }

        size_t used()
        {
            for ( int tries = 0; tries < 6; ++tries ) {
                const size_t i = s.upto( SLOTS - 1 );
                if ( twin[i] )
                    return i;
            }
            for ( size_t i = 0; i < SLOTS; ++i )
                if ( twin[i] )
                    return i;
            create( 0 );
            return 0;
        }

        void create( size_t i )
        {
            uint32_t w, h;
            genSize( s, w, h, 400, 60 );
            if ( s.chance( 10 ) )
                w = 0;
            const uint8_t cc = s.pick<uint8_t>( { 1, 1, 3, 4, 2 } ), al = genAlignment( s );
            const uint32_t args = s.chance( 200 ) ? 4 : static_cast<uint32_t>( s.upto( 4 ) );
            std::string code = name( i ) + " = p.Image(";
            const uint32_t value[] = { w, h, cc, al };
            for ( uint32_t k = 0; k < args; ++k )
                code += ( k ? ", " : "" ) + std::to_string( value[k] );
            if ( step( code + ")", [&] {
                     twin[i].reset( new Image( args > 0 ? w : 0u, args > 1 ? h : 0u, args > 2 ? cc : uint8_t( 1 ), args > 3 ? al : uint8_t( 1 ) ) );
                 } ) )
                contents( i );
        }

        void one()
        {
            switch ( s.upto( 21 ) ) {
            case 0:
            case 1:
            case 2:
                create( s.upto( SLOTS - 1 ) );
                break;
            case 3: {
                const size_t j = used(), i = s.upto( SLOTS - 1 );
                step( name( i ) + " = p.Image(" + name( j ) + ")", [&] { twin[i].reset( new Image( *twin[j] ) ); } );
                break;
            }
            case 4: {
                const size_t j = used(), i = s.upto( SLOTS - 1 );
                step( name( i ) + " = " + name( j ), [&] { twin[i] = twin[j]; } );
                break;
            }
            case 5: {
                const size_t i = used();
                step( "del " + name( i ), [&] { twin[i].reset(); } );
                break;
            }
            case 6: {
                const size_t j = used(), i = s.upto( SLOTS - 1 );
                const uint32_t w = static_cast<uint32_t>( s.upto( 20 ) ), h = static_cast<uint32_t>( s.upto( 20 ) );
                const uint8_t cc = s.pick<uint8_t>( { 1, 3, 4 } ), al = genAlignment( s );
                const std::string code = name( i ) + " = " + name( j ) + ".generate(" + std::to_string( w ) + ", " + std::to_string( h ) + ", " + std::to_string( cc );
                bool ok;
                if ( s.flag() )
                    ok = step( code + ")", [&] { twin[i].reset( new Image( twin[j]->generate( w, h, cc ) ) ); } );
                else
                    ok = step( code + ", " + std::to_string( al ) + ")", [&] { twin[i].reset( new Image( twin[j]->generate( w, h, cc, al ) ) ); } );
                if ( ok )
                    contents( i );
                break;
            }
            case 7: {
                const size_t i = used();
                const uint32_t w = static_cast<uint32_t>( s.upto( 20 ) ), h = static_cast<uint32_t>( s.upto( 20 ) );
                if ( step( name( i ) + ".resize(" + std::to_string( w ) + ", " + std::to_string( h ) + ")", [&] { twin[i]->resize( w, h ); } ) )
                    contents( i );
                break;
            }
            case 8: {
                const size_t i = used();
                step( name( i ) + ".clear()", [&] { twin[i]->clear(); } );
                break;
            }
            case 9: {
                const size_t i = used();
                const uint8_t v = s.byte();
                step( name( i ) + ".fill(" + std::to_string( v ) + ")", [&] { twin[i]->fill( v ); } );
                break;
            }
            case 10: {
                const size_t i = used();
                const uint8_t v = s.pick<uint8_t>( { 1, 3, 4, 2, 0 } );
                if ( s.flag() ) {
                    if ( step( name( i ) + ".setColorCount(" + std::to_string( v ) + ")", [&] { twin[i]->setColorCount( v ); } ) )
                        contents( i );
                }
                else {
                    const uint8_t al = genAlignment( s );
                    if ( step( name( i ) + ".setAlignment(" + std::to_string( al ) + ")", [&] { twin[i]->setAlignment( al ); } ) )
                        contents( i );
                }
                break;
            }
            case 11: {
                const size_t i = used(), j = used();
                step( name( i ) + ".swap(" + name( j ) + ")", [&] { twin[i]->swap( *twin[j] ); } );
                break;
            }
            case 12: {
                const size_t i = used(), j = used();
                step( name( i ) + ".copy(" + name( j ) + ")", [&] { twin[i]->copy( *twin[j] ); } );
                break;
            }
            case 13:
            case 14: { // gray
                const size_t j = used(), i = s.upto( SLOTS - 1 );
                const Image & in = *twin[j];
                switch ( s.upto( 3 ) ) {
                case 0:
                    step( name( i ) + " = p.ConvertToGrayScale(" + name( j ) + ")", [&] { twin[i].reset( new Image( Image_Function::ConvertToGrayScale( *twin[j] ) ) ); } );
                    break;
                case 1: {
                    const size_t o = used();
                    step( "p.ConvertToGrayScale(" + name( j ) + ", " + name( o ) + ")", [&] { Image_Function::ConvertToGrayScale( in, *twin[o] ); } );
                    break;
                }
                case 2: {
                    const Area a = area( in );
                    step( name( i ) + " = p.ConvertToGrayScale(" + name( j ) + ", " + a.text() + ")",
                          [&] { twin[i].reset( new Image( Image_Function::ConvertToGrayScale( *twin[j], a.x, a.y, a.w, a.h ) ) ); } );
                    break;
                }
                default: {
                    const size_t o = used();
                    const Area a = area( in ), b = twin[o] == twin[j] ? a : area( *twin[o] ); // areas of the same image do not overlap in part
                    const uint32_t w = s.chance( 220 ) ? std::min( a.w, b.w ) : a.w, h = s.chance( 220 ) ? std::min( a.h, b.h ) : a.h;
                    step( "p.ConvertToGrayScale(" + name( j ) + ", " + std::to_string( a.x ) + ", " + std::to_string( a.y ) + ", " + name( o ) + ", " + std::to_string( b.x ) + ", " + std::to_string( b.y )
                              + ", " + std::to_string( w ) + ", " + std::to_string( h ) + ")",
                          [&] { Image_Function::ConvertToGrayScale( in, a.x, a.y, *twin[o], b.x, b.y, w, h ); } );
                    break;
                }
                }
                break;
            }
            case 15:
            case 16: { // threshold
                const size_t j = used(), i = s.upto( SLOTS - 1 );
                const Image & in = *twin[j];
                const uint8_t t = s.byte();
                const std::string level = ", " + std::to_string( t ) + ")";
                switch ( s.upto( 3 ) ) {
                case 0:
                    step( name( i ) + " = p.Threshold(" + name( j ) + level, [&] { twin[i].reset( new Image( Image_Function::Threshold( *twin[j], t ) ) ); } );
                    break;
                case 1: {
                    const size_t o = used();
                    step( "p.Threshold(" + name( j ) + ", " + name( o ) + level, [&] { Image_Function::Threshold( in, *twin[o], t ); } );
                    break;
                }
                case 2: {
                    const Area a = area( in );
                    step( name( i ) + " = p.Threshold(" + name( j ) + ", " + a.text() + level, [&] { twin[i].reset( new Image( Image_Function::Threshold( *twin[j], a.x, a.y, a.w, a.h, t ) ) ); } );
                    break;
                }
                default: {
                    const size_t o = used();
                    const Area a = area( in ), b = twin[o] == twin[j] ? a : area( *twin[o] ); // areas of the same image do not overlap in part
                    const uint32_t w = s.chance( 220 ) ? std::min( a.w, b.w ) : a.w, h = s.chance( 220 ) ? std::min( a.h, b.h ) : a.h;
                    step( "p.Threshold(" + name( j ) + ", " + std::to_string( a.x ) + ", " + std::to_string( a.y ) + ", " + name( o ) + ", " + std::to_string( b.x ) + ", " + std::to_string( b.y ) + ", "
                              + std::to_string( w ) + ", " + std::to_string( h ) + level,
                          [&] { Image_Function::Threshold( in, a.x, a.y, *twin[o], b.x, b.y, w, h, t ); } );
                    break;
                }
                }
                break;
            }
            case 17: { // histogram and threshold of it
                const size_t j = used();
                const Image & in = *twin[j];
                std::vector<uint32_t> h;
                const Area a = area( in );
                bool ok;
                switch ( s.upto( 3 ) ) {
                case 0:
                    ok = step( "h = p.Histogram(" + name( j ) + ")", [&] { h = Image_Function::Histogram( in ); } );
                    break;
                case 1:
                    ok = step( "h = p.vectorUInt32()\np.Histogram(" + name( j ) + ", h)", [&] { Image_Function::Histogram( in, h ); } );
                    break;
                case 2:
                    ok = step( "h = p.Histogram(" + name( j ) + ", " + a.text() + ")", [&] { h = Image_Function::Histogram( in, a.x, a.y, a.w, a.h ); } );
                    break;
                default:
                    ok = step( "h = p.vectorUInt32([1, 2, 3])\np.Histogram(" + name( j ) + ", " + a.text() + ", h)", [&] { Image_Function::Histogram( in, a.x, a.y, a.w, a.h, h ); } );
                    break;
                }
                if ( ok ) {
                    numbersOf( "h", h );
                    uint8_t t = 0;
                    if ( step( "t = p.GetThreshold(h)", [&] { t = Image_Function::GetThreshold( h ); } ) )
                        numbersOf( "(t,)", { t } );
                }
                break;
            }
            case 18: {
                pbt::Stream r( s.raw( 3 ) );
                std::vector<uint32_t> h( s.chance( 220 ) ? 256 : s.upto( 300 ), 0 );
                for ( uint32_t & v : h )
                    v = r.below( 4 ) ? 0 : static_cast<uint32_t>( r.next() );
                uint8_t t = 0;
                const std::string how = s.pick<std::string>( { "", "tuple", "p.vectorUInt32" } );
                if ( step( "t = p.GetThreshold(" + how + "(" + list( h ) + "))", [&] { t = Image_Function::GetThreshold( h ); }, "t = p.GetThreshold(" + how + "(... " + std::to_string( h.size() ) + " numbers))" ) )
                    numbersOf( "(t,)", { t } );
                break;
            }
            case 19: { // save
                const size_t i = used(), f = s.upto( saved.size() - 1 );
                bool ok;
                if ( s.flag() )
                    ok = step( "p.Save('" + file( f, true ) + "', " + name( i ) + ")", [&] { Bitmap_Operation::Save( file( f, false ), *twin[i] ); } );
                else {
                    const Area a = area( *twin[i] );
                    ok = step( "p.Save('" + file( f, true ) + "', " + name( i ) + ", " + a.text() + ")", [&] { Bitmap_Operation::Save( file( f, false ), *twin[i], a.x, a.y, a.w, a.h ); } );
                }
                if ( ok ) {
                    saved[f] = true;
                    auto bytes = []( const std::string & path ) {
                        std::ifstream in( path, std::ios::binary );
                        return std::string( std::istreambuf_iterator<char>( in ), std::istreambuf_iterator<char>() );
                    };
                    PBT_CHECK( bytes( file( f, true ) ) == bytes( file( f, false ) ), "files differ" );
                }
                break;
            }
            case 20: { // load
                const size_t f = s.upto( saved.size() - 1 );
                if ( s.flag() ) {
                    const size_t i = s.upto( SLOTS - 1 );
                    step( name( i ) + " = p.Load('" + file( f, true ) + "')", [&] { twin[i].reset( new Image( Bitmap_Operation::Load( file( f, false ) ) ) ); } );
                }
                else {
                    const size_t i = used();
                    step( "p.Load('" + file( f, true ) + "', " + name( i ) + ")", [&] { Bitmap_Operation::Load( file( f, false ), *twin[i] ); } );
                }
                break;
            }
            default: { // arguments no function has
                const size_t i = used();
                static const char * const wrong[] = { ".fill(256)",       ".fill(-1)",          ".fill(1.5)",     ".fill('a')",      ".resize(-1, 2)", ".resize(4294967296, 1)", ".resize(1)",
                                                      ".setColorCount(256)", ".swap(None)",        ".copy(None)",    ".swap(5)",        ".generate('x')",  ".resize(1, None)",     ".width(1)" };
                static const char * const calls[] = { "p.Threshold(%, 256)", "p.Threshold(%, -1)", "p.Threshold(None, 3)", "p.Threshold(%, None, 3)", "p.Threshold()", "p.Threshold(%, 0, 0, 4294967296, 1, 3)",
                                                      "p.ConvertToGrayScale(%, None)", "p.ConvertToGrayScale(3)", "p.ConvertToGrayScale(%, 0, 0, -1, 1)", "p.Histogram(None)", "p.Histogram(%, 5)",
                                                      "p.GetThreshold(%)", "p.GetThreshold([-1] * 256)", "p.GetThreshold(['a'] * 256)", "p.GetThreshold(None)", "p.GetThreshold([4294967296] * 256)",
                                                      "p.Image(-1, 2)", "p.Image(2, 2, 256)", "p.Image(2, 2, 1, 256)", "p.Image('a')", "p.Image(None)", "p.Save(%, 'x')", "p.Save(None, %)", "p.Load(5)",
                                                      "p.Load('x', None)", "p.vectorUInt32(-1)", "p.vectorUInt32(['a'])" };
                std::string code;
                if ( s.flag() )
                    code = name( i ) + s.pickFrom( std::vector<std::string>( std::begin( wrong ), std::end( wrong ) ) );
                else {
                    code = s.pickFrom( std::vector<std::string>( std::begin( calls ), std::end( calls ) ) );
                    const size_t at = code.find( '%' );
                    if ( at != std::string::npos )
                        code.replace( at, 1, name( i ) );
                }
                PBT_NOTE( ctx, code << '\n' );
                PBT_CHECK( !py.run( code ).empty(), code << " is accepted" );
                break;
            }
            }
        }
    };

    pbt::Register p31( "P31", "histories", 1,
                       "3 to 30 statements over 4 names, several of which may share an image: construction, copies, deletion, all member functions, all exported functions in all forms, files, wrong arguments; "
                       "non-trivial: more than 4 statements",
                       []( Src & s, Ctx & ctx ) {
                           History h( s, ctx );
                           const uint32_t steps = 3 + static_cast<uint32_t>( s.upto( 27 ) );
                           for ( uint32_t i = 0; i < steps; ++i ) {
                               h.one();
                               for ( size_t k = 0; k < SLOTS; ++k )
                                   h.check( k );
                           }
                           h.numbersOf( "(p.GRAY_SCALE, p.RGB, p.RGBA)", { penguinV::GRAY_SCALE, penguinV::RGB, penguinV::RGBA } );
                           ctx.nontrivial = steps > 4;
                       } );
}
