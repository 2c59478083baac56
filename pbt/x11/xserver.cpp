#include "xserver.h"
#include <cstdlib>
#include <cstring>
#include <type_traits>

struct _XGC
{
    unsigned long foreground, background;
    bool own;
};

namespace
{
    typedef std::remove_pointer<_XPrivDisplay>::type DisplayData;

    struct Server
    {
        DisplayData display;
        Screen screen;
        Visual visual;
        _XGC gc;
        std::map<std::string, Atom> atoms;
        Window next;
    };

    xserver::State current;
    std::map<std::string, Atom> atoms;
    Window nextWindow = 100;
    std::map<Display *, Server *> opened;

    void fault( const std::string & text )
    {
        current.faults.push_back( text );
    }

    bool valid( Display * display, const char * function )
    {
        if ( opened.count( display ) == 1 )
            return true;
        fault( std::string( function ) + ": the display is not open" );
        return false;
    }

    xserver::WindowState * window( Display * display, Window id, const char * function )
    {
        if ( !valid( display, function ) )
            return 0;
        const std::map<Window, xserver::WindowState>::iterator found = current.windows.find( id );
        if ( found == current.windows.end() ) {
            if ( id != opened[display]->screen.root )
                fault( std::string( function ) + ": BadWindow" );
            return 0;
        }
        return &found->second;
    }

    void put( xserver::WindowState & w, long x, long y, unsigned long value )
    {
        if ( x >= 0 && y >= 0 && x < static_cast<long>( w.w ) && y < static_cast<long>( w.h ) )
            w.pixels[static_cast<size_t>( y ) * w.w + static_cast<size_t>( x )] = static_cast<uint32_t>( value & 0xffffff );
    }

    int destroyImage( XImage * image )
    {
        --current.images;
        free( image->data );
        free( image );
        return 1;
    }

    unsigned long getPixel( XImage * image, int x, int y )
    {
        uint32_t value;
        memcpy( &value, image->data + static_cast<size_t>( y ) * static_cast<size_t>( image->bytes_per_line ) + static_cast<size_t>( x ) * 4, 4 );
        return value;
    }

    int putPixel( XImage * image, int x, int y, unsigned long value )
    {
        const uint32_t v = static_cast<uint32_t>( value );
        memcpy( image->data + static_cast<size_t>( y ) * static_cast<size_t>( image->bytes_per_line ) + static_cast<size_t>( x ) * 4, &v, 4 );
        return 1;
    }
}

namespace xserver
{
    State & state()
    {
        return current;
    }

    void reset()
    {
        for ( std::pair<Display * const, Server *> & d : opened )
            delete d.second;
        opened.clear();
        current = State();
    }

    Atom deleteWindow()
    {
        const std::map<std::string, Atom>::const_iterator found = atoms.find( "WM_DELETE_WINDOW" );
        return found == atoms.end() ? 999999 : found->second;
    }
}

extern "C"
{
    Display * XOpenDisplay( const char * )
    {
        if ( current.unavailable )
            return NULL;
        Server * server = new Server();
        memset( &server->display, 0, sizeof( server->display ) );
        memset( &server->screen, 0, sizeof( server->screen ) );
        memset( &server->visual, 0, sizeof( server->visual ) );
        server->gc = _XGC();
        server->visual.red_mask = 0xff0000;
        server->visual.green_mask = 0xff00;
        server->visual.blue_mask = 0xff;
        server->visual.c_class = TrueColor;
        server->screen.root = 1;
        server->screen.root_visual = &server->visual;
        server->screen.default_gc = &server->gc;
        server->screen.root_depth = 24;
        server->screen.white_pixel = 0xffffff;
        server->screen.width = 4000;
        server->screen.height = 4000;
        server->display.screens = &server->screen;
        server->display.nscreens = 1;
        server->display.byte_order = LSBFirst;
        Display * display = reinterpret_cast<Display *>( &server->display );
        server->screen.display = display;
        opened[display] = server;
        ++current.displays;
        return display;
    }

    int XCloseDisplay( Display * display )
    {
        if ( !valid( display, "XCloseDisplay" ) )
            return 0;
        delete opened[display];
        opened.erase( display );
        --current.displays;
        if ( opened.empty() )
            current.windows.clear(); // the server closes windows of a client which leaves
        return 0;
    }

    Window XCreateSimpleWindow( Display * display, Window parent, int, int, unsigned int width, unsigned int height, unsigned int, unsigned long, unsigned long background )
    {
        if ( !valid( display, "XCreateSimpleWindow" ) )
            return 0;
        if ( parent != 1 && current.windows.count( parent ) == 0 )
            fault( "XCreateSimpleWindow: BadWindow" );
        if ( width == 0 || height == 0 || width > 65535 || height > 65535 ) {
            fault( "XCreateSimpleWindow: BadValue" ); // the default handler of errors ends the process
            return 0;
        }
        const Window id = ++nextWindow;
        xserver::WindowState & w = current.windows[id];
        w.w = width;
        w.h = height;
        w.pixels.assign( static_cast<size_t>( width ) * height, static_cast<uint32_t>( background & 0xffffff ) );
        return id;
    }

    Window XCreateWindow( Display * display, Window parent, int x, int y, unsigned int width, unsigned int height, unsigned int border, int, unsigned int, Visual *, unsigned long, XSetWindowAttributes * )
    {
        return XCreateSimpleWindow( display, parent, x, y, width, height, border, 0, 0xffffff );
    }

    int XDestroyWindow( Display * display, Window id )
    {
        if ( window( display, id, "XDestroyWindow" ) )
            current.windows.erase( id );
        return 1;
    }

    int XResizeWindow( Display * display, Window id, unsigned int width, unsigned int height )
    {
        xserver::WindowState * w = window( display, id, "XResizeWindow" );
        if ( width == 0 || height == 0 || width > 65535 || height > 65535 )
            fault( "XResizeWindow: BadValue" );
        else if ( w ) {
            w->w = width;
            w->h = height;
            w->pixels.assign( static_cast<size_t>( width ) * height, 0xffffff );
        }
        return 1;
    }

    int XClearArea( Display * display, Window id, int x, int y, unsigned int width, unsigned int height, Bool exposures )
    {
        xserver::WindowState * w = window( display, id, "XClearArea" );
        if ( !w )
            return 0;
        const long right = width == 0 ? w->w : x + static_cast<long>( width ), bottom = height == 0 ? w->h : y + static_cast<long>( height );
        for ( long row = y; row < bottom; ++row )
            for ( long column = x; column < right; ++column )
                put( *w, column, row, 0xffffff );
        if ( exposures && w->mapped ) {
            XEvent e;
            memset( &e, 0, sizeof( e ) );
            e.type = Expose;
            e.xexpose.window = id;
            current.events.push_front( e );
        }
        return 1;
    }

    int XClearWindow( Display * display, Window id )
    {
        return XClearArea( display, id, 0, 0, 0, 0, 0 );
    }

    int XSelectInput( Display * display, Window id, long mask )
    {
        if ( xserver::WindowState * w = window( display, id, "XSelectInput" ) )
            w->events = mask;
        return 1;
    }

    int XMapWindow( Display * display, Window id )
    {
        if ( xserver::WindowState * w = window( display, id, "XMapWindow" ) )
            w->mapped = true;
        return 1;
    }

    int XMapRaised( Display * display, Window id )
    {
        return XMapWindow( display, id );
    }

    int XUnmapWindow( Display * display, Window id )
    {
        if ( xserver::WindowState * w = window( display, id, "XUnmapWindow" ) )
            w->mapped = false;
        return 1;
    }

    int XStoreName( Display * display, Window id, const char * name )
    {
        if ( xserver::WindowState * w = window( display, id, "XStoreName" ) )
            w->title = name;
        return 1;
    }

    Atom XInternAtom( Display * display, const char * name, Bool onlyIfExists )
    {
        if ( !valid( display, "XInternAtom" ) )
            return None;
        const std::map<std::string, Atom>::const_iterator found = atoms.find( name );
        if ( found != atoms.end() )
            return found->second;
        if ( onlyIfExists )
            return None;
        const Atom atom = 300 + 7 * atoms.size();
        return atoms[name] = atom;
    }

    Status XSetWMProtocols( Display * display, Window id, Atom * protocols, int count )
    {
        if ( xserver::WindowState * w = window( display, id, "XSetWMProtocols" ) )
            w->protocols.assign( protocols, protocols + count );
        return 1;
    }

    int XNextEvent( Display * display, XEvent * event )
    {
        valid( display, "XNextEvent" );
        ++current.waits;
        if ( current.events.empty() ) {
            current.exhausted = true;
            throw xserver::Exhausted();
        }
        *event = current.events.front();
        current.events.pop_front();
        return 0;
    }

    int XPending( Display * display )
    {
        valid( display, "XPending" );
        return static_cast<int>( current.events.size() );
    }

    int XFlush( Display * display )
    {
        valid( display, "XFlush" );
        return 1;
    }

    int XSync( Display * display, Bool )
    {
        valid( display, "XSync" );
        return 1;
    }

    XImage * XCreateImage( Display * display, Visual * visual, unsigned int depth, int format, int offset, char * data, unsigned int width, unsigned int height, int pad, int bytesPerLine )
    {
        if ( !valid( display, "XCreateImage" ) )
            return NULL;
        if ( width == 0 || height == 0 || depth == 0 || depth > 32 || format != ZPixmap || ( pad != 8 && pad != 16 && pad != 32 ) )
            return NULL;
        XImage * image = static_cast<XImage *>( calloc( 1, sizeof( XImage ) ) );
        image->width = static_cast<int>( width );
        image->height = static_cast<int>( height );
        image->format = format;
        image->data = data;
        image->xoffset = offset;
        image->bitmap_pad = pad;
        image->depth = static_cast<int>( depth );
        image->bits_per_pixel = 32;
        image->bytes_per_line = bytesPerLine == 0 ? static_cast<int>( width * 4 ) : bytesPerLine;
        image->red_mask = visual->red_mask;
        image->green_mask = visual->green_mask;
        image->blue_mask = visual->blue_mask;
        image->f.destroy_image = destroyImage;
        image->f.get_pixel = getPixel;
        image->f.put_pixel = putPixel;
        ++current.images;
        return image;
    }

    int XPutImage( Display * display, Drawable id, GC gc, XImage * image, int fromX, int fromY, int toX, int toY, unsigned int width, unsigned int height )
    {
        xserver::WindowState * w = window( display, id, "XPutImage" );
        if ( !w )
            return 0;
        if ( gc == NULL )
            fault( "XPutImage: BadGC" );
        ++current.puts;
        for ( int y = 0; y < static_cast<int>( height ) && fromY + y < image->height; ++y )
            for ( int x = 0; x < static_cast<int>( width ) && fromX + x < image->width; ++x )
                put( *w, toX + x, toY + y, getPixel( image, fromX + x, fromY + y ) );
        return 0;
    }

    GC XCreateGC( Display * display, Drawable, unsigned long, XGCValues * )
    {
        valid( display, "XCreateGC" );
        ++current.contexts;
        _XGC * gc = new _XGC();
        gc->own = true;
        return gc;
    }

    int XFreeGC( Display * display, GC gc )
    {
        valid( display, "XFreeGC" );
        if ( !gc->own )
            fault( "XFreeGC: the default context is freed" );
        else {
            --current.contexts;
            delete gc;
        }
        return 1;
    }

    int XSetForeground( Display * display, GC gc, unsigned long value )
    {
        valid( display, "XSetForeground" );
        gc->foreground = value;
        return 1;
    }

    int XDrawPoint( Display * display, Drawable id, GC gc, int x, int y )
    {
        if ( xserver::WindowState * w = window( display, id, "XDrawPoint" ) )
            put( *w, x, y, gc->foreground );
        return 1;
    }

    int XDrawLine( Display * display, Drawable id, GC gc, int x1, int y1, int x2, int y2 )
    {
        xserver::WindowState * w = window( display, id, "XDrawLine" );
        if ( !w )
            return 0;
        // positions are 16 bit numbers in requests to the server
        const long ax = static_cast<short>( x1 ), ay = static_cast<short>( y1 ), bx = static_cast<short>( x2 ), by = static_cast<short>( y2 );
        const long dx = bx > ax ? bx - ax : ax - bx, dy = by > ay ? by - ay : ay - by, sx = bx > ax ? 1 : -1, sy = by > ay ? 1 : -1;
        long error = dx - dy, x = ax, y = ay;
        while ( true ) {
            put( *w, x, y, gc->foreground );
            if ( x == bx && y == by )
                break;
            const long twice = 2 * error;
            if ( twice > -dy ) {
                error -= dy;
                x += sx;
            }
            if ( twice < dx ) {
                error += dx;
                y += sy;
            }
        }
        return 1;
    }

    int XDrawLines( Display * display, Drawable id, GC gc, XPoint * points, int count, int mode )
    {
        int x = 0, y = 0;
        for ( int i = 0; i < count; ++i ) {
            const bool relative = mode == CoordModePrevious && i > 0;
            const int nextX = points[i].x + ( relative ? x : 0 ), nextY = points[i].y + ( relative ? y : 0 );
            if ( i > 0 )
                XDrawLine( display, id, gc, x, y, nextX, nextY );
            x = nextX;
            y = nextY;
        }
        return 1;
    }

    int XDrawSegments( Display * display, Drawable id, GC gc, XSegment * segments, int count )
    {
        for ( int i = 0; i < count; ++i )
            XDrawLine( display, id, gc, segments[i].x1, segments[i].y1, segments[i].x2, segments[i].y2 );
        return 1;
    }

    int XDrawPoints( Display * display, Drawable id, GC gc, XPoint * points, int count, int mode )
    {
        int x = 0, y = 0;
        for ( int i = 0; i < count; ++i ) {
            const bool relative = mode == CoordModePrevious && i > 0;
            x = points[i].x + ( relative ? x : 0 );
            y = points[i].y + ( relative ? y : 0 );
            XDrawPoint( display, id, gc, x, y );
        }
        return 1;
    }

    int XFree( void * )
    {
        return 1;
    }
}
