// P34: X11 windows: what a window shows, which resources it keeps
#include "../pbt/x11/xserver.h"
#undef None
#undef Status
#undef Bool
#undef True
#undef False
#include "img.h"
#include "ui/x11/x11_ui.h"
#include <memory>

using namespace hv;

namespace
{
    using xserver::state;

    struct Point
    {
        double x, y;
        uint32_t value;
    };

    // pixels of an image on the screen: files are kept in the order blue, green, red
    std::vector<uint32_t> shown( const Snap & image )
    {
        std::vector<uint32_t> v;
        for ( uint32_t y = 0; y < image.h; ++y )
            for ( uint32_t x = 0; x < image.w; ++x ) {
                const uint32_t b = image.at( x, y, 0 ), g = image.at( x, y, image.cc == 1 ? 0 : 1 ), r = image.at( x, y, image.cc == 1 ? 0 : 2 );
                v.push_back( r << 16 | g << 8 | b );
            }
        return v;
    }

    void mark( std::vector<uint32_t> & pixels, uint32_t w, uint32_t h, const Point & p )
    {
        const long cx = static_cast<long>( p.x ), cy = static_cast<long>( p.y );
        for ( long d = -1; d <= 1; ++d )
            if ( cx + d >= 0 && cy + d >= 0 && cx + d < static_cast<long>( w ) && cy + d < static_cast<long>( h ) )
                pixels[static_cast<size_t>( cy + d ) * w + static_cast<size_t>( cx + d )] = p.value;
    }

    XEvent event( int type )
    {
        XEvent e;
        memset( &e, 0, sizeof( e ) );
        e.type = type;
        return e;
    }

    pbt::Register p34a( "P34", "windows", 4,
                        "gray and color images of any size and alignment, points inside and outside, exposures, keys and messages in any order, new images; non-trivial: an image of more than one pixel is shown",
                        []( Src & s, Ctx & ctx ) {
        xserver::reset();
        auto make = [&s, &ctx]( const char * what ) {
            uint32_t w = 0, h = 0;
            if ( !s.chance( 25 ) )
                genSize( s, w, h, 3000, 400 );
            Image image = w == 0 ? Image() : genImage( s, w, h, s.flag() ? 1 : 3, genAlignment( s ) );
            PBT_NOTE( ctx, what << ' ' << show( snap( image ) ) << "; " );
            return image;
        };
        Image image = make( "window of" );
        const bool titled = s.chance( 200 );
        const std::string title = titled && s.flag() ? "image" : std::string();
        Snap model = snap( image );
        {
            const std::unique_ptr<UiWindowX11> ui( titled ? new UiWindowX11( image, title ) : new UiWindowX11( image ) );
            PBT_CHECK( snap( image ) == model, "the image is changed" );
            image = Image(); // the window has its own copy
            PBT_CHECK( state().windows.size() == 1 && state().displays == 1, state().windows.size() << " windows of " << state().displays << " displays" );
            const Window id = state().windows.begin()->first;
            std::vector<Point> points;
            bool wasShown = false;
            const uint32_t steps = 1 + static_cast<uint32_t>( s.upto( 6 ) );
            for ( uint32_t step = 0; step <= steps; ++step ) {
                PBT_CHECK( state().windows.count( id ) == 1, "the window is lost" );
                const xserver::WindowState & window = state().windows[id];
                // what happens while the window is shown: events until it is closed
                std::vector<uint32_t> kinds;
                auto events = [&]() {
                    const uint32_t count = static_cast<uint32_t>( s.upto( 4 ) );
                    for ( uint32_t i = 0; i < count; ++i ) {
                        const uint32_t kind = static_cast<uint32_t>( s.upto( 3 ) );
                        XEvent e = event( kind == 1 ? KeyPress : kind == 2 ? ClientMessage : kind == 3 ? ConfigureNotify : Expose );
                        e.xany.window = id;
                        if ( kind == 2 )
                            e.xclient.data.l[0] = static_cast<long>( xserver::deleteWindow() + 1 );
                        kinds.push_back( kind );
                        state().events.push_back( e );
                    }
                    XEvent e = event( ClientMessage );
                    e.xclient.window = id;
                    e.xclient.data.l[0] = static_cast<long>( xserver::deleteWindow() );
                    state().events.push_back( e );
                    state().events.push_back( event( KeyPress ) ); // is not for this window any more
                };
                auto afterEvents = [&]( bool exposed ) {
                    PBT_CHECK( state().events.size() == 1, state().events.size() << " events are left instead of 1" );
                    state().events.clear();
                    for ( uint32_t kind : kinds )
                        exposed = exposed || kind == 0;
                    if ( !exposed || model.w == 0 )
                        return;
                    ctx.nontrivial = ctx.nontrivial || model.w * model.h > 1;
                    std::vector<uint32_t> wanted = shown( model );
                    for ( const Point & p : points )
                        mark( wanted, model.w, model.h, p );
                    PBT_CHECK( window.w == model.w && window.h == model.h, "the window has a size " << window.w << 'x' << window.h );
                    for ( uint32_t y = 0; y < model.h; ++y )
                        for ( uint32_t x = 0; x < model.w; ++x )
                            PBT_CHECK( window.pixels[y * model.w + x] == wanted[y * model.w + x],
                                       "pixel (" << x << ", " << y << ") is shown as " << window.pixels[y * model.w + x] << " instead of " << wanted[y * model.w + x] );
                };
                try {
                    switch ( step == steps ? 0 : s.upto( 3 ) ) {
                    case 0:
                        PBT_NOTE( ctx, "show; " );
                        events();
                        ui->show();
                        wasShown = true;
                        PBT_CHECK( window.mapped && ( window.events & ExposureMask ) != 0 && std::count( window.protocols.begin(), window.protocols.end(), xserver::deleteWindow() ) == 1,
                                   "the window is not on the screen or does not get its events" );
                        PBT_CHECK( window.title == title, "the title is " << window.title );
                        afterEvents( false );
                        break;
                    case 1: {
                        auto coordinate = [&s]( uint32_t size ) {
                            const double v = static_cast<double>( s.upto( size + 4 ) );
                            return s.chance( 30 ) ? -v : s.chance( 30 ) ? v + 1.25 : v;
                        };
                        const Point p{ coordinate( model.w ), coordinate( model.h ), static_cast<uint32_t>( s.raw( 3 ) & 0xffffff ) };
                        PBT_NOTE( ctx, "point (" << p.x << ", " << p.y << ") of " << p.value << "; " );
                        ui->drawPoint( Point2d( p.x, p.y ), PaintColor( static_cast<uint8_t>( p.value >> 16 ), static_cast<uint8_t>( p.value >> 8 ), static_cast<uint8_t>( p.value ) ) );
                        points.push_back( p );
                        break;
                    }
                    case 2: {
                        const Image other = make( "image" );
                        if ( wasShown )
                            events();
                        ui->setImage( other );
                        model = snap( other );
                        if ( wasShown )
                            afterEvents( true ); // the new image is shown without an exposure by the user
                        break;
                    }
                    default: {
                        PBT_NOTE( ctx, "refused image; " );
                        const Image wrong( 3, 2, s.flag() ? 4 : 2 );
                        bool refused = false;
                        if ( s.flag() ) {
                            const size_t images = state().images;
                            try {
                                UiWindowX11 second( wrong );
                            }
                            catch ( const penguinVException & ) {
                                refused = true;
                            }
                            PBT_CHECK( state().displays == 1 && state().images == images, "a refused window is left" );
                        }
                        else {
                            try {
                                ui->setImage( wrong );
                            }
                            catch ( const penguinVException & ) {
                                refused = true;
                            }
                        }
                        PBT_CHECK( refused, "an image which cannot be shown is not refused" );
                        break;
                    }
                    }
                }
                catch ( const xserver::Exhausted & ) {
                    PBT_CHECK( false, "the window waits for events although it is " << ( wasShown ? "closed" : "not shown" ) );
                }
                PBT_CHECK( wasShown || state().puts == 0, "the image is drawn although the window is not shown" );
                PBT_CHECK( state().faults.empty(), "the server refuses a request: " << state().faults[0] );
            }
        }
        PBT_CHECK( state().displays == 0 && state().windows.empty() && state().images == 0 && state().contexts == 0,
                   "after the window is destroyed " << state().displays << " displays, " << state().windows.size() << " windows, " << state().images << " images and " << state().contexts << " contexts are left" );
        PBT_CHECK( state().faults.empty(), "the server refuses a request: " << state().faults[0] );
    } );

    pbt::Register p34b( "P34", "no display", 1, "windows without a display have to be refused; non-trivial: always", []( Src & s, Ctx & ctx ) {
        xserver::reset();
        state().unavailable = true;
        ctx.nontrivial = true;
        const Image image = genImage( s, 1 + static_cast<uint32_t>( s.upto( 40 ) ), 1 + static_cast<uint32_t>( s.upto( 20 ) ), s.flag() ? 1 : 3, genAlignment( s ) );
        PBT_NOTE( ctx, show( snap( image ) ) );
        bool refused = false;
        try {
            UiWindowX11 window( image, "title" );
        }
        catch ( const penguinVException & ) {
            refused = true;
        }
        PBT_CHECK( refused, "a window without a display is not refused" );
        PBT_CHECK( state().faults.empty(), "the server gets a request: " << state().faults[0] );
    } );
}
