// P19 - P22: blob detection, edge detection and neighbourhood filters
#include "blob_detection.h"
#include "edge_detection.h"
#include "filtering.h"
#include "img.h"
#include <map>
#include <set>

using namespace hv;

namespace
{
    typedef std::pair<uint32_t, uint32_t> XY;

    // A gray image with a rectangle in it; everything outside of the rectangle and in the padding is arbitrary
    struct Scene
    {
        Image image;
        uint32_t x = 0, y = 0, w = 1, h = 1;
        bool whole = false;

        uint8_t at( uint32_t px, uint32_t py ) const
        {
            return image.data()[static_cast<size_t>( y + py ) * image.rowSize() + x + px];
        }
        void set( uint32_t px, uint32_t py, uint8_t v )
        {
            image.data()[static_cast<size_t>( y + py ) * image.rowSize() + x + px] = v;
        }
    };

    void genScene( Src & s, Scene & c, uint32_t w, uint32_t h )
    {
        c.w = w;
        c.h = h;
        c.whole = s.chance( 80 );
        uint32_t right = 0, bottom = 0;
        if ( !c.whole ) {
            c.x = static_cast<uint32_t>( s.upto( s.flag() ? 1 : 9 ) );
            c.y = static_cast<uint32_t>( s.upto( s.flag() ? 1 : 9 ) );
            right = static_cast<uint32_t>( s.upto( 3 ) );
            bottom = static_cast<uint32_t>( s.upto( 3 ) );
            // coordinates which do not fit into 16 bits
            if ( s.chance( 1 ) && s.chance( 64 ) ) {
                if ( s.flag() && h <= 12 )
                    c.x = 65520 + static_cast<uint32_t>( s.upto( 30 ) );
                else if ( w <= 12 )
                    c.y = 65520 + static_cast<uint32_t>( s.upto( 30 ) );
            }
        }
        c.image = Image( c.x + w + right, c.y + h + bottom, 1, genAlignment( s ) );
        fillImage( s, c.image );
    }

    std::string picture( const Scene & c, size_t limit = 400 )
    {
        std::ostringstream o;
        o << c.w << 'x' << c.h << " at (" << c.x << ", " << c.y << ") of " << c.image.width() << 'x' << c.image.height();
        if ( static_cast<size_t>( c.w ) * c.h <= limit && c.image.colorCount() == 1 && static_cast<uint64_t>( c.x ) + c.w <= c.image.width()
             && static_cast<uint64_t>( c.y ) + c.h <= c.image.height() ) {
            for ( uint32_t y = 0; y < c.h; ++y ) {
                o << "\n ";
                for ( uint32_t x = 0; x < c.w; ++x )
                    o << ' ' << int( c.at( x, y ) );
            }
        }
        return o.str();
    }

    // -------------------------------------------------------------------------------------------------- blobs

    // Draws bright regions on a dark ground: every value at or above [threshold] is bright
    void drawRegions( Src & s, Scene & c, uint32_t threshold )
    {
        auto bright = [&]( pbt::Stream & r ) { return static_cast<uint8_t>( threshold + r.below( 256 - threshold ) ); };
        auto dark = [&]( pbt::Stream & r ) { return static_cast<uint8_t>( threshold == 0 ? r.below( 256 ) : r.below( threshold ) ); };
        const uint32_t kind = static_cast<uint32_t>( s.upto( 11 ) );
        std::vector<uint8_t> on( static_cast<size_t>( c.w ) * c.h, 0 );
        auto put = [&]( int64_t x, int64_t y, uint8_t v ) {
            if ( x >= 0 && y >= 0 && x < c.w && y < c.h )
                on[static_cast<size_t>( y ) * c.w + static_cast<size_t>( x )] = v;
        };
        auto line = [&]( double x1, double y1, double x2, double y2, uint8_t v ) {
            const int n = static_cast<int>( std::max( std::fabs( x2 - x1 ), std::fabs( y2 - y1 ) ) ) + 1;
            for ( int i = 0; i <= n; ++i )
                put( std::llround( x1 + ( x2 - x1 ) * i / n ), std::llround( y1 + ( y2 - y1 ) * i / n ), v );
        };
        pbt::Stream r( kind == 0 ? 0 : s.raw( 3 ) );
        switch ( kind ) {
        case 0: { // explicit pixels
            const uint32_t n = static_cast<uint32_t>( s.upto( 12 ) );
            for ( uint32_t i = 0; i < n; ++i )
                put( static_cast<int64_t>( s.upto( c.w - 1 ) ), static_cast<int64_t>( s.upto( c.h - 1 ) ), 1 );
            break;
        }
        case 1:
        case 2:
        case 3: { // noise of some density
            static const uint32_t density[] = { 3, 13, 26, 64, 100, 128, 160, 200, 240, 254 };
            const uint32_t d = density[s.upto( 9 )];
            for ( uint8_t & v : on )
                v = r.below( 256 ) < d;
            break;
        }
        case 4: { // rectangles, drawn and cut
            const uint32_t n = 1 + static_cast<uint32_t>( s.upto( 7 ) );
            for ( uint32_t i = 0; i < n; ++i ) {
                const uint32_t x = r.below( c.w ), y = r.below( c.h ), w = 1 + r.below( c.w ), h = 1 + r.below( c.h );
                const uint8_t v = r.below( 3 ) != 0;
                for ( uint32_t py = y; py < std::min( c.h, y + h ); ++py )
                    for ( uint32_t px = x; px < std::min( c.w, x + w ); ++px )
                        put( px, py, v );
            }
            break;
        }
        case 5: { // nested rings
            const uint32_t period = 2 + static_cast<uint32_t>( s.upto( 3 ) ), width = 1 + static_cast<uint32_t>( s.upto( period - 2 ) );
            for ( uint32_t y = 0; y < c.h; ++y )
                for ( uint32_t x = 0; x < c.w; ++x ) {
                    const uint32_t d = std::min( std::min( x, y ), std::min( c.w - 1 - x, c.h - 1 - y ) );
                    put( x, y, d % period < width );
                }
            break;
        }
        case 6: { // spiral
            int64_t x = 0, y = 0, left = 0, top = 0, rightEnd = c.w - 1, bottomEnd = c.h - 1;
            uint32_t direction = 0;
            put( x, y, 1 );
            for ( int turn = 0; turn < 60 && left <= rightEnd && top <= bottomEnd; ++turn ) {
                const int64_t toX = direction == 0 ? rightEnd : direction == 2 ? left : x, toY = direction == 1 ? bottomEnd : direction == 3 ? top : y;
                line( static_cast<double>( x ), static_cast<double>( y ), static_cast<double>( toX ), static_cast<double>( toY ), 1 );
                x = toX;
                y = toY;
                if ( direction == 0 )
                    top += 2;
                else if ( direction == 1 )
                    rightEnd -= 2;
                else if ( direction == 2 )
                    bottomEnd -= 2;
                else
                    left += 2;
                direction = ( direction + 1 ) % 4;
            }
            break;
        }
        case 7: // chess board, bars or grid
        {
            const uint32_t a = 1 + r.below( 3 ), b = 1 + r.below( 3 ), mode = r.below( 3 );
            for ( uint32_t y = 0; y < c.h; ++y )
                for ( uint32_t x = 0; x < c.w; ++x )
                    put( x, y, mode == 0 ? ( ( x / a + y / b ) % 2 ) : mode == 1 ? ( ( x / a ) % 2 || y == c.h - 1 ) : ( x % ( a + 1 ) == 0 || y % ( b + 1 ) == 0 ) );
            break;
        }
        case 8:
        case 9: { // lines
            const uint32_t n = 1 + static_cast<uint32_t>( s.upto( 5 ) );
            for ( uint32_t i = 0; i < n; ++i )
                line( r.below( c.w ), r.below( c.h ), r.below( c.w ), r.below( c.h ), 1 );
            break;
        }
        case 10: { // discs and rings
            const uint32_t n = 1 + static_cast<uint32_t>( s.upto( 3 ) );
            for ( uint32_t i = 0; i < n; ++i ) {
                const double cx = r.below( c.w * 2 ) * 0.5, cy = r.below( c.h * 2 ) * 0.5, radius = 1 + r.below( std::max( c.w, c.h ) ) * 0.5, inner = r.below( 2 ) ? radius * 0.6 : -1;
                for ( uint32_t y = 0; y < c.h; ++y )
                    for ( uint32_t x = 0; x < c.w; ++x ) {
                        const double d = std::hypot( x - cx, y - cy );
                        if ( d <= radius && d > inner )
                            put( x, y, 1 );
                    }
            }
            break;
        }
        default: // everything or nothing
            std::fill( on.begin(), on.end(), static_cast<uint8_t>( r.below( 2 ) ) );
            break;
        }
        pbt::Stream level( s.raw( 2 ) );
        const bool exact = s.flag(); // values right at the limit
        for ( uint32_t y = 0; y < c.h; ++y )
            for ( uint32_t x = 0; x < c.w; ++x ) {
                const bool b = on[static_cast<size_t>( y ) * c.w + x] != 0;
                uint8_t v = b ? bright( level ) : dark( level );
                if ( exact && threshold > 0 )
                    v = static_cast<uint8_t>( b ? threshold : threshold - 1 );
                c.set( x, y, v );
            }
    }

    struct Region
    {
        std::set<XY> points, edge, contour;
    };

    // Connected regions by union-find; points in image coordinates
    std::vector<Region> regionsOf( const Scene & c, uint32_t threshold )
    {
        const size_t n = static_cast<size_t>( c.w ) * c.h;
        std::vector<uint32_t> parent( n );
        for ( size_t i = 0; i < n; ++i )
            parent[i] = static_cast<uint32_t>( i );
        auto root = [&]( uint32_t i ) {
            while ( parent[i] != i )
                i = parent[i] = parent[parent[i]];
            return i;
        };
        auto on = [&]( int64_t x, int64_t y ) {
            return x >= 0 && y >= 0 && x < c.w && y < c.h && c.at( static_cast<uint32_t>( x ), static_cast<uint32_t>( y ) ) >= threshold;
        };
        for ( int64_t y = 0; y < c.h; ++y )
            for ( int64_t x = 0; x < c.w; ++x ) {
                if ( !on( x, y ) )
                    continue;
                const int64_t dx[] = { -1, -1, 0, 1 }, dy[] = { 0, -1, -1, -1 };
                for ( int k = 0; k < 4; ++k ) {
                    if ( on( x + dx[k], y + dy[k] ) ) {
                        const uint32_t a = root( static_cast<uint32_t>( y * c.w + x ) ), b = root( static_cast<uint32_t>( ( y + dy[k] ) * c.w + x + dx[k] ) );
                        parent[std::max( a, b )] = std::min( a, b );
                    }
                }
            }
        std::map<uint32_t, Region> found;
        for ( int64_t y = 0; y < c.h; ++y )
            for ( int64_t x = 0; x < c.w; ++x ) {
                if ( !on( x, y ) )
                    continue;
                Region & region = found[root( static_cast<uint32_t>( y * c.w + x ) )];
                const XY p( static_cast<uint32_t>( c.x + x ), static_cast<uint32_t>( c.y + y ) );
                region.points.insert( p );
                bool inner = true;
                for ( int64_t dy = -1; dy <= 1; ++dy )
                    for ( int64_t dx = -1; dx <= 1; ++dx )
                        inner = inner && on( x + dx, y + dy );
                if ( !inner )
                    region.edge.insert( p );
            }
        std::vector<Region> out;
        for ( auto & f : found ) {
            Region & region = f.second;
            // the topmost, then leftmost point is an edge point; the contour are edge points joined to it by edge points
            XY first = *region.points.begin();
            for ( const XY & p : region.points )
                if ( p.second < first.second || ( p.second == first.second && p.first < first.first ) )
                    first = p;
            std::vector<XY> queue( 1, first );
            region.contour.insert( first );
            while ( !queue.empty() ) {
                const XY p = queue.back();
                queue.pop_back();
                for ( int dy = -1; dy <= 1; ++dy )
                    for ( int dx = -1; dx <= 1; ++dx ) {
                        const XY q( p.first + static_cast<uint32_t>( dx ), p.second + static_cast<uint32_t>( dy ) );
                        if ( region.edge.count( q ) && region.contour.insert( q ).second )
                            queue.push_back( q );
                    }
            }
            out.push_back( region );
        }
        return out;
    }

    std::set<XY> setOf( const std::vector<uint32_t> & x, const std::vector<uint32_t> & y, const char * what )
    {
        PBT_CHECK( x.size() == y.size(), what << ": " << x.size() << " abscissas and " << y.size() << " ordinates" );
        std::set<XY> out;
        for ( size_t i = 0; i < x.size(); ++i )
            PBT_CHECK( out.insert( XY( x[i], y[i] ) ).second, what << ": point (" << x[i] << ", " << y[i] << ") is reported twice" );
        return out;
    }

    void comparePoints( const std::set<XY> & got, const std::set<XY> & expected, const char * what )
    {
        for ( const XY & p : got )
            PBT_CHECK( expected.count( p ), what << ": (" << p.first << ", " << p.second << ") is reported but it should not be" );
        for ( const XY & p : expected )
            PBT_CHECK( got.count( p ), what << ": (" << p.first << ", " << p.second << ") is missing" );
    }

    typedef Blob_Detection::BlobDetection Detection;
    typedef Blob_Detection::BlobInfo BlobInfo;

    void callFind( Src & s, Detection & detection, const Scene & c, const Blob_Detection::BlobParameters & parameter, uint8_t threshold )
    {
        const std::vector<BlobInfo> * result;
        if ( c.whole && s.flag() )
            result = &detection.find( c.image, parameter, threshold );
        else
            result = &detection.find( c.image, c.x, c.y, c.w, c.h, parameter, threshold );
        const Detection & constant = detection;
        PBT_CHECK( result == &constant.get() && result == &constant() && result == &detection() && result == &detection.get(), "find() returns another list than get()" );
    }

    // blob -> region by any of its points
    std::vector<const Region *> match( const std::vector<BlobInfo> & blobs, const std::vector<Region> & regions, bool all )
    {
        std::map<XY, const Region *> owner;
        for ( const Region & r : regions )
            owner[*r.points.begin()] = &r;
        std::vector<const Region *> out;
        std::set<const Region *> used;
        for ( const BlobInfo & b : blobs ) {
            const std::set<XY> points = setOf( b.pointX(), b.pointY(), "points of a blob" );
            PBT_CHECK( !points.empty(), "a blob without a point" );
            auto it = owner.find( *points.begin() );
            if ( it == owner.end() ) {
                for ( const Region & r : regions )
                    if ( r.points.count( *points.begin() ) )
                        comparePoints( points, r.points, "points of a blob" );
                pbt::fail( "a blob starts at a dark point" );
            }
            PBT_CHECK( used.insert( it->second ).second, "a region is reported twice" );
            comparePoints( points, it->second->points, "points of a blob" );
            out.push_back( it->second );
        }
        PBT_CHECK( !all || blobs.size() == regions.size(), "found " << blobs.size() << " blobs of " << regions.size() );
        return out;
    }

    void genBlobScene( Src & s, Scene & c, uint32_t & threshold, uint32_t limit )
    {
        uint32_t w = 1 + static_cast<uint32_t>( s.upto( s.flag() ? 8 : limit ) ), h = 1 + static_cast<uint32_t>( s.upto( s.flag() ? 8 : limit ) );
        if ( s.chance( 10 ) ) {
            if ( s.flag() )
                w = 1 + static_cast<uint32_t>( s.upto( 700 ) );
            else
                h = 1 + static_cast<uint32_t>( s.upto( 700 ) );
            if ( limit >= 40 && s.chance( 2 ) && w < 3 )
                h = 65520 + static_cast<uint32_t>( s.upto( 30 ) );
            else if ( limit >= 40 && s.chance( 2 ) && h < 3 )
                w = 65520 + static_cast<uint32_t>( s.upto( 30 ) );
            else if ( limit >= 40 && s.chance( 1 ) ) { // an area which has more than 2^16 or 2^18 points
                w = 260 + static_cast<uint32_t>( s.upto( 400 ) );
                h = 260 + static_cast<uint32_t>( s.upto( 260 ) );
            }
        }
        const uint32_t k = static_cast<uint32_t>( s.upto( 9 ) );
        threshold = k < 4 ? 1 : k == 4 ? 0 : k == 5 ? 255 : k == 6 ? 128 : static_cast<uint32_t>( s.byte() );
        genScene( s, c, w, h );
        drawRegions( s, c, threshold );
    }

    pbt::Register p19( "P19", "regions", 4, "noise, rings, spirals, grids, lines, discs and cut rectangles in an image with margins; non-trivial: two regions or a hole",
                       []( Src & s, Ctx & ctx ) {
                           Scene c;
                           uint32_t threshold;
                           genBlobScene( s, c, threshold, pbt::thorough() ? 60 : 40 );
                           PBT_NOTE( ctx, "find blobs at level " << threshold << " in " << picture( c ) << '\n' );
                           const std::vector<Region> regions = regionsOf( c, threshold );
                           bool hole = false;
                           for ( const Region & r : regions )
                               hole = hole || r.contour.size() != r.edge.size();
                           ctx.nontrivial = regions.size() > 1 || hole;
                           if ( hole )
                               ctx.label( "hole" );
                           ctx.label( regions.empty() ? "regions:0" : regions.size() == 1 ? "regions:1" : regions.size() < 10 ? "regions:2-9" : "regions:10+" );
                           const Snap before = snap( c.image );
                           Detection detection;
                           const bool again = s.chance( 60 );
                           if ( again ) { // an object which was used before
                               Scene other;
                               uint32_t level;
                               genBlobScene( s, other, level, 12 );
                               detection.find( other.image, other.x, other.y, other.w, other.h, Blob_Detection::BlobParameters(), static_cast<uint8_t>( level ) );
                               ctx.label( "object used again" );
                           }
                           if ( threshold == 1 && c.whole && s.flag() )
                               detection.find( c.image );
                           else
                               callFind( s, detection, c, Blob_Detection::BlobParameters(), static_cast<uint8_t>( threshold ) );
                           PBT_CHECK( snap( c.image ) == before, "the image was changed" );
                           const std::vector<BlobInfo> & blobs = detection();
                           const std::vector<const Region *> of = match( blobs, regions, true );
                           for ( size_t i = 0; i < blobs.size(); ++i ) {
                               comparePoints( setOf( blobs[i].edgeX(), blobs[i].edgeY(), "edge points" ), of[i]->edge, "edge points" );
                               comparePoints( setOf( blobs[i].contourX(), blobs[i].contourY(), "contour points" ), of[i]->contour, "contour points" );
                               PBT_CHECK( blobs[i].size() == of[i]->points.size(), "size is " << blobs[i].size() << " instead of " << of[i]->points.size() );
                               PBT_CHECK( blobs[i].isSolid() == ( of[i]->contour.size() == of[i]->edge.size() ), "isSolid() is wrong" );
                           }
                       } );

    pbt::Register p19b( "P19", "refusals", 1, "rectangles which leave the image, empty, color or invalid parameters; non-trivial: always", []( Src & s, Ctx & ctx ) {
        Scene c;
        uint32_t threshold;
        genBlobScene( s, c, threshold, 12 );
        ctx.nontrivial = true;
        Detection detection;
        Blob_Detection::BlobParameters parameter;
        uint32_t x = c.x, y = c.y, w = c.w, h = c.h;
        const uint32_t kind = static_cast<uint32_t>( s.upto( 7 ) );
        PBT_NOTE( ctx, "refusal " << kind << " of " << picture( c, 0 ) );
        switch ( kind ) {
        case 0:
            w = c.image.width() - x + 1 + static_cast<uint32_t>( s.upto( 5 ) );
            break;
        case 1:
            h = c.image.height() - y + 1 + static_cast<uint32_t>( s.upto( 5 ) );
            break;
        case 2:
            ( s.flag() ? w : h ) = 0;
            break;
        case 3:
            w = 0xFFFFFFFFu - static_cast<uint32_t>( s.upto( 20 ) );
            x = 1 + static_cast<uint32_t>( s.upto( 30 ) );
            break;
        case 4:
            c.image = Image();
            break;
        case 5: {
            const uint8_t cc = s.pick<uint8_t>( { 3, 4 } );
            c.image = Image( c.image.width(), c.image.height(), cc );
            c.image.fill( 255 );
            break;
        }
        default: {
            auto broken = [&]( Blob_Detection::Parameter<double> & p ) { p.set( 2, 1 ); };
            auto brokenInt = [&]( Blob_Detection::Parameter<uint32_t> & p ) { p.set( 2, 1 ); };
            switch ( s.upto( 5 ) ) {
            case 0:
                broken( parameter.circularity );
                break;
            case 1:
                broken( parameter.elongation );
                break;
            case 2:
                broken( parameter.length );
                break;
            case 3:
                brokenInt( parameter.width );
                break;
            case 4:
                brokenInt( parameter.height );
                break;
            default:
                brokenInt( parameter.size );
                break;
            }
            break;
        }
        }
        bool refused = false;
        try {
            detection.find( c.image, x, y, w, h, parameter, static_cast<uint8_t>( threshold ) );
        }
        catch ( const penguinVException & ) {
            refused = true;
        }
        PBT_CHECK( refused, "invalid parameters are accepted" );
    } );

    // P20 ------------------------------------------------------------------------------------------------------------

    struct Measures
    {
        uint32_t left, top, right, bottom;
        double cx, cy, circularity, length;
        std::vector<double> elongation; // one value for every longest chord
    };

    Measures measure( const Region & r )
    {
        Measures m;
        m.left = m.top = 0xFFFFFFFFu;
        m.right = m.bottom = 0;
        long double sx = 0, sy = 0;
        for ( const XY & p : r.points ) {
            m.left = std::min( m.left, p.first );
            m.top = std::min( m.top, p.second );
            m.right = std::max( m.right, p.first + 1 );
            m.bottom = std::max( m.bottom, p.second + 1 );
            sx += p.first;
            sy += p.second;
        }
        m.cx = static_cast<double>( sx / r.points.size() );
        m.cy = static_cast<double>( sy / r.points.size() );
        const double radius = std::sqrt( r.points.size() / 3.14159265358979323846 );
        double difference = 0;
        for ( const XY & p : r.contour )
            difference += std::fabs( std::hypot( p.first - m.cx, p.second - m.cy ) - radius );
        m.circularity = 1 - difference / ( r.contour.size() * radius );
        const std::vector<XY> c( r.contour.begin(), r.contour.end() );
        uint64_t longest = 0;
        std::vector<std::pair<size_t, size_t>> chord;
        for ( size_t i = 0; i < c.size(); ++i )
            for ( size_t j = i + 1; j < c.size(); ++j ) {
                const int64_t dx = static_cast<int64_t>( c[i].first ) - c[j].first, dy = static_cast<int64_t>( c[i].second ) - c[j].second;
                const uint64_t d = static_cast<uint64_t>( dx * dx + dy * dy );
                if ( d > longest ) {
                    longest = d;
                    chord.clear();
                }
                if ( d == longest )
                    chord.emplace_back( i, j );
            }
        m.length = std::sqrt( static_cast<double>( longest ) );
        if ( c.size() == 1 )
            m.elongation.push_back( 1 );
        for ( size_t k = 0; k < chord.size() && k < 64; ++k ) {
            const XY a = c[chord[k].first], b = c[chord[k].second];
            const double ux = ( static_cast<double>( b.first ) - a.first ) / m.length, uy = ( static_cast<double>( b.second ) - a.second ) / m.length;
            double lo = 0, hi = 0;
            for ( const XY & p : c ) {
                const double d = ( static_cast<double>( p.second ) - a.second ) * ux - ( static_cast<double>( p.first ) - a.first ) * uy;
                lo = std::min( lo, d );
                hi = std::max( hi, d );
            }
            m.elongation.push_back( m.length / std::max( 1.0, hi - lo ) );
        }
        return m;
    }

    bool near( double a, double b, double tolerance = 1e-9 )
    {
        return std::fabs( a - b ) <= tolerance * std::max( 1.0, std::max( std::fabs( a ), std::fabs( b ) ) );
    }

    void checkMeasures( BlobInfo & blob, const Region & region, const Measures & m, uint64_t order )
    {
        // each value is computed when it is asked for the first time: the order must not matter
        for ( int k = 0; k < 14; ++k ) {
            switch ( ( order + k * 5 ) % 7 ) {
            case 0: {
                const Blob_Detection::Area a = blob.area();
                PBT_CHECK( a.left == m.left && a.top == m.top && a.right == m.right && a.bottom == m.bottom,
                           "area is [" << a.left << ", " << a.right << ") x [" << a.top << ", " << a.bottom << ") instead of [" << m.left << ", " << m.right << ") x [" << m.top
                                       << ", " << m.bottom << ")" );
                break;
            }
            case 1: {
                const Point2d p = blob.center();
                PBT_CHECK( near( p.x, m.cx ) && near( p.y, m.cy ), "center is (" << p.x << ", " << p.y << ") instead of (" << m.cx << ", " << m.cy << ")" );
                break;
            }
            case 2:
                PBT_CHECK( near( blob.circularity(), m.circularity ), "circularity is " << blob.circularity() << " instead of " << m.circularity );
                break;
            case 3: {
                const double e = blob.elongation();
                bool good = false;
                for ( double v : m.elongation )
                    good = good || near( v, e );
                PBT_CHECK( good, "elongation is " << e << " instead of " << m.elongation[0] << ( m.elongation.size() > 1 ? " (or of another longest chord)" : "" ) );
                break;
            }
            case 4:
                PBT_CHECK( blob.width() == m.right - m.left, "width is " << blob.width() << " instead of " << m.right - m.left );
                break;
            case 5:
                PBT_CHECK( blob.height() == m.bottom - m.top, "height is " << blob.height() << " instead of " << m.bottom - m.top );
                break;
            default:
                PBT_CHECK( near( blob.length(), m.length ), "length is " << blob.length() << " instead of " << m.length );
                break;
            }
        }
        PBT_CHECK( blob.size() == region.points.size(), "size is " << blob.size() << " instead of " << region.points.size() );
        const BlobInfo & constant = blob;
        PBT_CHECK( constant.width() == blob.width() && constant.height() == blob.height() && constant.length() == blob.length() && constant.circularity() == blob.circularity()
                       && constant.elongation() == blob.elongation() && constant.center() == blob.center(),
                   "values of a constant blob differ" );
    }

    pbt::Register p20( "P20", "measures", 3, "all values of every blob of the same scenes, asked in any order; non-trivial: a blob of three or more points", []( Src & s, Ctx & ctx ) {
        Scene c;
        uint32_t threshold;
        genBlobScene( s, c, threshold, 30 );
        PBT_NOTE( ctx, "measure blobs at level " << threshold << " in " << picture( c ) << '\n' );
        const std::vector<Region> regions = regionsOf( c, threshold );
        Detection detection;
        callFind( s, detection, c, Blob_Detection::BlobParameters(), static_cast<uint8_t>( threshold ) );
        const std::vector<const Region *> of = match( detection(), regions, true );
        pbt::Stream order( s.raw( 2 ) );
        for ( size_t i = 0; i < of.size(); ++i ) {
            ctx.nontrivial = ctx.nontrivial || of[i]->points.size() > 2;
            checkMeasures( detection()[i], *of[i], measure( *of[i] ), order.next() & 0xFFFF );
        }
    } );

    // sums and squares which do not fit into 32 bits
    pbt::Register p20big( "P20", "large", 1, "filled rectangles of millions of points; a small part of all cases; non-trivial: always", []( Src & s, Ctx & ctx ) {
        const bool slow = s.raw( 2 ) >= ( 0xFFD0 );
        if ( !slow )
            throw pbt::Discard();
        ctx.nontrivial = true;
        uint32_t w, h;
        const uint32_t kind = static_cast<uint32_t>( s.upto( 1 ) );
        if ( kind == 0 ) {
            w = 46342 + static_cast<uint32_t>( s.upto( 3000 ) );
            h = 1;
        }
        else {
            w = 900 + static_cast<uint32_t>( s.upto( 1800 ) );
            h = 2500000 / w;
        }
        if ( s.flag() )
            std::swap( w, h );
        Image image( w, h );
        image.fill( 9 );
        ctx.label( kind == 0 ? "long line" : "large area" );
        PBT_NOTE( ctx, "a blob of " << w << "x" << h );
        Detection detection;
        detection.find( image );
        PBT_CHECK( detection().size() == 1, "found " << detection().size() << " blobs instead of one" );
        BlobInfo & b = detection()[0];
        PBT_CHECK( b.size() == static_cast<size_t>( w ) * h && b.width() == w && b.height() == h, "wrong size" );
        PBT_CHECK( near( b.center().x, ( w - 1 ) / 2.0 ) && near( b.center().y, ( h - 1 ) / 2.0 ), "center is (" << b.center().x << ", " << b.center().y << ")" );
        PBT_CHECK( near( b.length(), std::hypot( w - 1.0, h - 1.0 ) ), "length is " << b.length() << " instead of " << std::hypot( w - 1.0, h - 1.0 ) );
        if ( kind == 0 )
            PBT_CHECK( near( b.elongation(), std::max( w, h ) - 1.0 ), "elongation is " << b.elongation() );
    } );

    double valueOf( const BlobInfo & b, Detection::BlobCriterion criterion )
    {
        switch ( criterion ) {
        case Detection::BlobCriterion::BY_CIRCULARITY:
            return b.circularity();
        case Detection::BlobCriterion::BY_ELONGATION:
            return b.elongation();
        case Detection::BlobCriterion::BY_HEIGHT:
            return b.height();
        case Detection::BlobCriterion::BY_LENGTH:
            return b.length();
        case Detection::BlobCriterion::BY_SIZE:
            return static_cast<double>( b.size() );
        default:
            return b.width();
        }
    }

    template <typename T>
    void genRange( Src & s, Blob_Detection::Parameter<T> & p, const std::vector<double> & values, bool exact, std::string & text, const char * name )
    {
        if ( values.empty() || !s.chance( 90 ) )
            return;
        double a = s.pickFrom( values ), b = s.pickFrom( values );
        if ( !exact ) { // away from all values
            a -= 1e-6 * ( 1 + std::fabs( a ) );
            b += 1e-6 * ( 1 + std::fabs( b ) );
        }
        if ( a > b && exact )
            std::swap( a, b );
        if ( a > b )
            b = a;
        const uint32_t kind = static_cast<uint32_t>( s.upto( 2 ) );
        if ( kind == 0 )
            p.set( static_cast<T>( a ), static_cast<T>( b ) );
        else if ( kind == 1 )
            p.setMinimum( static_cast<T>( a ) );
        else
            p.setMaximum( static_cast<T>( b ) );
        std::ostringstream o;
        o << ' ' << name << ( p.checkMinimum ? " >= " : "" );
        if ( p.checkMinimum )
            o << +p.minimum;
        o << ( p.checkMaximum ? " <= " : "" );
        if ( p.checkMaximum )
            o << +p.maximum;
        text += o.str();
    }

    template <typename T>
    bool inside( const Blob_Detection::Parameter<T> & p, double value )
    {
        return ( !p.checkMinimum || value >= static_cast<double>( p.minimum ) ) && ( !p.checkMaximum || value <= static_cast<double>( p.maximum ) );
    }

    pbt::Register p20b( "P20", "selection", 3, "ranges of one or several values whose limits are values of blobs, then the best blob and sorting; non-trivial: some blobs are left and some are removed",
                        []( Src & s, Ctx & ctx ) {
                            Scene c;
                            uint32_t threshold;
                            genBlobScene( s, c, threshold, 30 );
                            const std::vector<Region> regions = regionsOf( c, threshold );
                            // values as the library computes them (checked by the sub-check of measures)
                            Detection all;
                            callFind( s, all, c, Blob_Detection::BlobParameters(), static_cast<uint8_t>( threshold ) );
                            const std::vector<const Region *> of = match( all(), regions, true );
                            std::vector<double> circularity, elongation, length, width, height, size;
                            for ( BlobInfo & b : all() ) {
                                circularity.push_back( b.circularity() );
                                elongation.push_back( b.elongation() );
                                length.push_back( b.length() );
                                width.push_back( b.width() );
                                height.push_back( b.height() );
                                size.push_back( static_cast<double>( b.size() ) );
                            }
                            Blob_Detection::BlobParameters p;
                            std::string text;
                            genRange( s, p.circularity, circularity, false, text, "circularity" );
                            genRange( s, p.elongation, elongation, false, text, "elongation" );
                            genRange( s, p.length, length, true, text, "length" );
                            genRange( s, p.width, width, true, text, "width" );
                            genRange( s, p.height, height, true, text, "height" );
                            genRange( s, p.size, size, true, text, "size" );
                            PBT_NOTE( ctx, "find blobs at level " << threshold << " with" << text << " in " << picture( c ) << '\n' );
                            std::set<XY> expected;
                            for ( size_t i = 0; i < of.size(); ++i )
                                if ( inside( p.circularity, circularity[i] ) && inside( p.elongation, elongation[i] ) && inside( p.length, length[i] ) && inside( p.width, width[i] )
                                     && inside( p.height, height[i] ) && inside( p.size, size[i] ) )
                                    expected.insert( *of[i]->points.begin() );
                            ctx.nontrivial = !expected.empty() && expected.size() < of.size();
                            Detection detection;
                            callFind( s, detection, c, p, static_cast<uint8_t>( threshold ) );
                            std::set<XY> got;
                            const std::vector<const Region *> left = match( detection(), regions, false );
                            for ( const Region * r : left )
                                got.insert( *r->points.begin() );
                            comparePoints( got, expected, "blobs which fit the parameters (first points)" );
                            // values of the criteria in use are available in constant blobs
                            const Detection & constant = detection;
                            for ( const BlobInfo & b : constant() ) {
                                PBT_CHECK( !p.width.checkMinimum || b.width() > 0, "width of a constant blob is not known" );
                                PBT_CHECK( !p.height.checkMinimum || b.height() > 0, "height of a constant blob is not known" );
                                PBT_CHECK( !p.elongation.checkMinimum || b.elongation() > 0, "elongation of a constant blob is not known" );
                            }
                            if ( detection().empty() )
                                return;
                            typedef Detection::BlobCriterion C;
                            const C criterion = s.pick<C>( { C::BY_SIZE, C::BY_CIRCULARITY, C::BY_ELONGATION, C::BY_HEIGHT, C::BY_LENGTH, C::BY_WIDTH } );
                            for ( BlobInfo & b : detection() ) {
                                b.circularity();
                                b.elongation();
                                b.height();
                                b.length();
                                b.width();
                            }
                            double best = valueOf( detection()[0], criterion );
                            for ( const BlobInfo & b : constant() )
                                best = std::max( best, valueOf( b, criterion ) );
                            const BlobInfo & winner = constant.getBestBlob( criterion );
                            PBT_CHECK( &winner >= detection().data() && &winner < detection().data() + detection().size(), "the best blob is not one of blobs" );
                            PBT_CHECK( valueOf( winner, criterion ) == best, "value of the best blob is " << valueOf( winner, criterion ) << " while the biggest one is " << best );
                            detection.sort( criterion );
                            for ( size_t i = 1; i < detection().size(); ++i )
                                PBT_CHECK( valueOf( detection()[i - 1], criterion ) >= valueOf( detection()[i], criterion ),
                                           "sorted blobs " << i - 1 << " and " << i << " have values " << valueOf( detection()[i - 1], criterion ) << " and "
                                                           << valueOf( detection()[i], criterion ) );
                            std::set<XY> sorted;
                            const std::vector<const Region *> now = match( detection(), regions, false );
                            for ( size_t i = 0; i < now.size(); ++i ) {
                                sorted.insert( *now[i]->points.begin() );
                                checkMeasures( detection()[i], *now[i], measure( *now[i] ), i );
                            }
                            comparePoints( sorted, expected, "sorted blobs (first points)" );
                        } );

    // ------------------------------------------------------------------------------------------------------- edges

    typedef EdgeParameter::DirectionType Direction;
    typedef EdgeParameter::GradientType Gradient;
    typedef EdgeParameter::EdgeType Edge;

    struct Setting
    {
        Direction direction = Direction::LEFT_TO_RIGHT;
        Gradient gradient = Gradient::ANY;
        Edge edge = Edge::ALL;
        uint32_t group = 1, skip = 1, left = 0, right = 0;
        uint32_t contrast = 10;

        EdgeParameter parameter() const
        {
            return EdgeParameter( direction, gradient, edge, group, skip, left, right, static_cast<uint8_t>( contrast ) );
        }
        bool horizontal() const
        {
            return direction == Direction::LEFT_TO_RIGHT || direction == Direction::RIGHT_TO_LEFT;
        }
        bool forward() const
        {
            return direction == Direction::LEFT_TO_RIGHT || direction == Direction::TOP_TO_BOTTOM;
        }
    };

    std::string show( const Setting & p )
    {
        static const char * d[] = { "left to right", "right to left", "top to bottom", "bottom to top" };
        static const char * g[] = { "positive", "negative", "any" };
        static const char * e[] = { "first", "last", "all" };
        std::ostringstream o;
        o << d[int( p.direction )] << ", " << g[int( p.gradient )] << " edges, " << e[int( p.edge )] << ", group " << p.group << ", skip " << p.skip << ", offsets " << p.left << ' '
          << p.right << ", contrast " << p.contrast;
        return o.str();
    }

    Setting genSetting( Src & s, uint32_t across )
    {
        Setting p;
        p.direction = s.pick<Direction>( { Direction::LEFT_TO_RIGHT, Direction::RIGHT_TO_LEFT, Direction::TOP_TO_BOTTOM, Direction::BOTTOM_TO_TOP } );
        p.gradient = s.pick<Gradient>( { Gradient::ANY, Gradient::ANY, Gradient::POSITIVE, Gradient::NEGATIVE } );
        p.edge = s.pick<Edge>( { Edge::ALL, Edge::ALL, Edge::FIRST, Edge::LAST } );
        p.group = s.flag() ? 1 : 1 + static_cast<uint32_t>( s.upto( across - 1 ) );
        p.skip = s.flag() ? 1 : 1 + static_cast<uint32_t>( s.upto( across + 1 ) );
        if ( s.chance( 60 ) ) {
            p.left = static_cast<uint32_t>( s.upto( 5 ) );
            p.right = static_cast<uint32_t>( s.upto( 5 ) );
            if ( s.chance( 20 ) )
                p.right = 0xFFFFFFFFu - static_cast<uint32_t>( s.upto( 60 ) );
            if ( s.chance( 20 ) )
                p.left = 0xFFFFFFFFu - static_cast<uint32_t>( s.upto( 60 ) );
        }
        p.contrast = s.pick<uint32_t>( { 10, 1, 2, 5, 20, 50, 100, 200, 255 } );
        return p;
    }

    struct Pt
    {
        double x, y;
        bool operator<( const Pt & o ) const
        {
            return y != o.y ? y < o.y : x < o.x;
        }
    };

    struct Edges
    {
        std::vector<Pt> positive, negative;
    };

    template <typename T>
    Edges findAs( const Scene & c, const Setting & p, bool defaults = false )
    {
        EdgeDetectionBase<T> detection;
        if ( defaults )
            detection.find( c.image, p.parameter() );
        else
            detection.find( c.image, c.x, c.y, c.w, c.h, p.parameter() );
        Edges e;
        for ( const auto & q : detection.positiveEdge() )
            e.positive.push_back( Pt{ static_cast<double>( q.x ), static_cast<double>( q.y ) } );
        for ( const auto & q : detection.negativeEdge() )
            e.negative.push_back( Pt{ static_cast<double>( q.x ), static_cast<double>( q.y ) } );
        return e;
    }

    std::string show( const std::vector<Pt> & v )
    {
        std::ostringstream o;
        o << v.size() << " points";
        for ( size_t i = 0; i < v.size() && i < 12; ++i )
            o << " (" << v[i].x << ", " << v[i].y << ')';
        return o.str();
    }

    // the same points up to their order
    void same( std::vector<Pt> a, std::vector<Pt> b, const char * what, double tolerance = 1e-6 )
    {
        // scan lines have exact coordinates, so points are compared line by line
        auto key = []( std::vector<Pt> & v ) { std::sort( v.begin(), v.end() ); };
        key( a );
        key( b );
        PBT_CHECK( a.size() == b.size(), what << ": " << show( a ) << " against " << show( b ) );
        for ( size_t i = 0; i < a.size(); ++i )
            PBT_CHECK( std::fabs( a[i].x - b[i].x ) <= tolerance && std::fabs( a[i].y - b[i].y ) <= tolerance,
                       what << ": (" << a[i].x << ", " << a[i].y << ") against (" << b[i].x << ", " << b[i].y << ")" );
    }

    // line [id] of the scan: sums of groups of rows or columns in the order of increasing coordinates
    std::vector<int> profile( const Scene & c, const Setting & p, uint32_t start )
    {
        const uint32_t n = p.horizontal() ? c.w : c.h;
        std::vector<int> out( n, 0 );
        for ( uint32_t i = 0; i < n; ++i )
            for ( uint32_t g = 0; g < p.group; ++g )
                out[i] += p.horizontal() ? c.at( i, start + g ) : c.at( start + g, i );
        return out;
    }

    // A profile of clean edges: positions k where the level changes between k and k + 1
    struct Step
    {
        double at; // true position relative to the start of the line
        int from, to;
        double begin, end; // where the intensity changes
        uint32_t before, after; // flat pixels at both sides
    };

    void drawEdges( Src & s, Scene & c, bool horizontal )
    {
        const uint32_t n = horizontal ? c.w : c.h, m = horizontal ? c.h : c.w;
        const uint32_t kind = static_cast<uint32_t>( s.upto( 6 ) );
        pbt::Stream r( kind == 6 ? 0 : s.raw( 3 ) );
        auto put = [&]( uint32_t along, uint32_t across, int v ) {
            const uint8_t b = static_cast<uint8_t>( v < 0 ? 0 : v > 255 ? 255 : v );
            if ( horizontal )
                c.set( along, across, b );
            else
                c.set( across, along, b );
        };
        if ( kind == 6 && n * m <= 200 ) { // explicit
            for ( uint32_t a = 0; a < m; ++a )
                for ( uint32_t i = 0; i < n; ++i )
                    put( i, a, s.byte() );
            return;
        }
        const int noise = static_cast<int>( s.pick<uint32_t>( { 0, 1, 3, 10, 40 } ) );
        std::vector<int> base( n, 128 );
        switch ( kind ) {
        case 1: // pieces of constant levels
        case 2: {
            int level = static_cast<int>( r.below( 256 ) );
            for ( uint32_t i = 0; i < n; ++i ) {
                if ( r.below( 5 ) == 0 )
                    level = static_cast<int>( r.below( 256 ) );
                base[i] = level;
            }
            break;
        }
        case 3: { // waves
            const double period = 2 + r.below( 30 ), amplitude = r.below( 128 );
            for ( uint32_t i = 0; i < n; ++i )
                base[i] = 128 + static_cast<int>( amplitude * std::sin( i * 6.283 / period ) );
            break;
        }
        case 4: { // ramps
            int level = static_cast<int>( r.below( 256 ) ), slope = 0;
            for ( uint32_t i = 0; i < n; ++i ) {
                if ( r.below( 6 ) == 0 )
                    slope = static_cast<int>( r.below( 61 ) ) - 30;
                level = std::max( 0, std::min( 255, level + slope ) );
                base[i] = level;
            }
            break;
        }
        case 5:
            for ( uint32_t i = 0; i < n; ++i )
                base[i] = r.below( 2 ) ? 255 : 0;
            break;
        default:
            for ( uint32_t i = 0; i < n; ++i )
                base[i] = static_cast<int>( r.below( 256 ) );
            break;
        }
        const bool lean = s.flag();
        for ( uint32_t a = 0; a < m; ++a )
            for ( uint32_t i = 0; i < n; ++i )
                put( i, a, base[lean ? ( i + a / 3 ) % n : i] + ( noise ? static_cast<int>( r.below( static_cast<uint32_t>( 2 * noise + 1 ) ) ) - noise : 0 ) );
    }

    void genEdgeCase( Src & s, Scene & c, Setting & p )
    {
        uint32_t along = 4 + static_cast<uint32_t>( s.upto( s.flag() ? 8 : 60 ) ), across = 1 + static_cast<uint32_t>( s.upto( s.flag() ? 2 : 9 ) );
        if ( s.chance( 2 ) )
            across = 10 + static_cast<uint32_t>( s.upto( 300 ) );
        if ( s.chance( 1 ) && s.chance( 4 ) ) {
            along = 65520 + static_cast<uint32_t>( s.upto( 30 ) );
            across = std::min( across, 2u );
        }
        p = genSetting( s, across );
        genScene( s, c, p.horizontal() ? along : across, p.horizontal() ? across : along );
        drawEdges( s, c, p.horizontal() );
    }

    double alongOf( const Setting & p, const Pt & q )
    {
        return p.horizontal() ? q.x : q.y;
    }
    double acrossOf( const Setting & p, const Pt & q )
    {
        return p.horizontal() ? q.y : q.x;
    }

    // which scan lines are taken: start -> coordinate of the line
    std::vector<uint32_t> starts( const Scene & c, const Setting & p )
    {
        std::vector<uint32_t> out;
        const uint32_t m = p.horizontal() ? c.h : c.w;
        for ( uint64_t i = 0; i + p.group <= m; i += p.skip )
            out.push_back( static_cast<uint32_t>( i ) );
        return out;
    }

    const char * EDGE_RULE = "noise, levels, ramps and waves in rectangles of images with margins, all settings; non-trivial: a point is found";

    pbt::Register p21( "P21", "real places", 3, EDGE_RULE, []( Src & s, Ctx & ctx ) {
        Scene c;
        Setting p;
        genEdgeCase( s, c, p );
        PBT_NOTE( ctx, show( p ) << " in " << picture( c ) << '\n' );
        const Snap before = snap( c.image );
        const bool defaults = c.whole && s.flag();
        const Edges e = findAs<double>( c, p, defaults );
        PBT_CHECK( snap( c.image ) == before, "the image was changed" );
        ctx.nontrivial = !e.positive.empty() || !e.negative.empty();
        PBT_NOTE( ctx, "positive: " << show( e.positive ) << "\nnegative: " << show( e.negative ) << '\n' );
        PBT_CHECK( p.gradient != Gradient::POSITIVE || e.negative.empty(), "negative edges are reported without a demand" );
        PBT_CHECK( p.gradient != Gradient::NEGATIVE || e.positive.empty(), "positive edges are reported without a demand" );
        const uint32_t n = p.horizontal() ? c.w : c.h;
        const double origin = p.horizontal() ? c.x : c.y, originAcross = p.horizontal() ? c.y : c.x;
        std::map<double, uint32_t> lines;
        for ( uint32_t id : starts( c, p ) )
            lines[originAcross + id + ( p.group - 1 ) / 2.0] = id;
        for ( int sign = 0; sign < 2; ++sign ) {
            std::map<uint32_t, uint32_t> count;
            std::map<uint32_t, std::vector<int>> seen;
            for ( const Pt & q : sign ? e.negative : e.positive ) {
                auto line = lines.find( acrossOf( p, q ) );
                PBT_CHECK( line != lines.end(), "point (" << q.x << ", " << q.y << ") is not on a scan line" );
                ++count[line->second];
                const double at = alongOf( p, q ) - origin;
                PBT_CHECK( at >= 0 && at <= n - 1, "point (" << q.x << ", " << q.y << ") is out of the rectangle" );
                // intensity seen along the direction of the scan; the demanded direction of change is made an increase
                std::vector<int> & v = seen[line->second];
                double pos = at;
                const bool backward = p.forward() == ( sign == 1 );
                if ( v.empty() ) {
                    v = profile( c, p, line->second );
                    if ( backward )
                        std::reverse( v.begin(), v.end() );
                }
                if ( backward ) {
                    pos = n - 1 - at;
                }
                bool good = false;
                // a position at a pixel may belong to the rise on either side of it
                for ( int64_t i = static_cast<int64_t>( std::floor( pos - 1e-6 ) ); i <= static_cast<int64_t>( std::floor( pos + 1e-6 ) ); ++i ) {
                    if ( i < 0 || i + 1 >= static_cast<int64_t>( n ) )
                        continue;
                    size_t a = static_cast<size_t>( i ), b = static_cast<size_t>( i ) + 1;
                    if ( v[b] <= v[a] )
                        continue;
                    while ( a > 0 && v[a - 1] <= v[a] )
                        --a;
                    while ( b + 1 < n && v[b + 1] >= v[b] )
                        ++b;
                    good = good || v[b] - v[a] >= static_cast<int>( p.contrast * p.group );
                }
                PBT_CHECK( good, ( sign ? "negative" : "positive" ) << " edge at (" << q.x << ", " << q.y << ") is not a place where the intensity changes by " << p.contrast );
            }
            if ( p.edge != Edge::ALL )
                for ( const auto & k : count )
                    PBT_CHECK( k.second <= 1, "several points of a scan line though only one is demanded" );
        }
    } );

    Scene mirrored( const Scene & c, bool horizontally )
    {
        Scene m = c;
        for ( uint32_t y = 0; y < c.h; ++y )
            for ( uint32_t x = 0; x < c.w; ++x )
                m.set( horizontally ? c.w - 1 - x : x, horizontally ? y : c.h - 1 - y, c.at( x, y ) );
        return m;
    }

    pbt::Register p21b( "P21", "laws", 4, EDGE_RULE, []( Src & s, Ctx & ctx ) {
        Scene c;
        Setting p;
        genEdgeCase( s, c, p );
        const uint32_t kind = static_cast<uint32_t>( s.upto( 9 ) );
        static const char * name[] = { "mirror", "transpose", "opposite direction", "offset", "crop", "first and last", "gradient", "skip", "float", "group" };
        ctx.label( std::string( "law:" ) + name[kind] );
        PBT_NOTE( ctx, name[kind] << ", " << show( p ) << " in " << picture( c ) << '\n' );
        const Edges e = findAs<double>( c, p );
        ctx.nontrivial = !e.positive.empty() || !e.negative.empty();
        PBT_NOTE( ctx, "positive: " << show( e.positive ) << "\nnegative: " << show( e.negative ) << '\n' );
        Setting q = p;
        auto opposite = []( Direction d ) {
            return d == Direction::LEFT_TO_RIGHT   ? Direction::RIGHT_TO_LEFT
                   : d == Direction::RIGHT_TO_LEFT ? Direction::LEFT_TO_RIGHT
                   : d == Direction::TOP_TO_BOTTOM ? Direction::BOTTOM_TO_TOP
                                                   : Direction::TOP_TO_BOTTOM;
        };
        switch ( kind ) {
        case 0: { // mirrored image, mirrored direction, mirrored points
            const Scene m = mirrored( c, p.horizontal() );
            q.direction = opposite( p.direction );
            Edges f = findAs<double>( m, q );
            for ( std::vector<Pt> * list : { &f.positive, &f.negative } )
                for ( Pt & t : *list )
                    ( p.horizontal() ? t.x : t.y ) = p.horizontal() ? 2 * c.x + c.w - 1 - t.x : 2 * c.y + c.h - 1 - t.y;
            same( e.positive, f.positive, "positive edges of the mirrored image" );
            same( e.negative, f.negative, "negative edges of the mirrored image" );
            break;
        }
        case 1: { // rows exchanged with columns
            Scene t;
            t.x = c.y;
            t.y = c.x;
            t.w = c.h;
            t.h = c.w;
            t.image = Image( c.image.height(), c.image.width(), 1, genAlignment( s ) );
            t.image.fill( 0 );
            for ( uint32_t y = 0; y < c.image.height(); ++y )
                for ( uint32_t x = 0; x < c.image.width(); ++x )
                    t.image.data()[static_cast<size_t>( x ) * t.image.rowSize() + y] = c.image.data()[static_cast<size_t>( y ) * c.image.rowSize() + x];
            q.direction = p.direction == Direction::LEFT_TO_RIGHT   ? Direction::TOP_TO_BOTTOM
                          : p.direction == Direction::TOP_TO_BOTTOM ? Direction::LEFT_TO_RIGHT
                          : p.direction == Direction::RIGHT_TO_LEFT ? Direction::BOTTOM_TO_TOP
                                                                    : Direction::RIGHT_TO_LEFT;
            Edges f = findAs<double>( t, q );
            for ( std::vector<Pt> * list : { &f.positive, &f.negative } )
                for ( Pt & u : *list )
                    std::swap( u.x, u.y );
            same( e.positive, f.positive, "positive edges of the transposed image" );
            same( e.negative, f.negative, "negative edges of the transposed image" );
            break;
        }
        case 2: { // seen from the other side: signs are exchanged, first becomes last
            q.direction = opposite( p.direction );
            q.gradient = p.gradient == Gradient::ANY ? Gradient::ANY : p.gradient == Gradient::POSITIVE ? Gradient::NEGATIVE : Gradient::POSITIVE;
            q.edge = p.edge == Edge::ALL ? Edge::ALL : p.edge == Edge::FIRST ? Edge::LAST : Edge::FIRST;
            const Edges f = findAs<double>( c, q );
            same( e.positive, f.negative, "positive edges seen from the other side" );
            same( e.negative, f.positive, "negative edges seen from the other side" );
            break;
        }
        case 3: { // brighter image
            int top = 0, bottom = 255;
            for ( uint32_t y = 0; y < c.h; ++y )
                for ( uint32_t x = 0; x < c.w; ++x ) {
                    top = std::max<int>( top, c.at( x, y ) );
                    bottom = std::min<int>( bottom, c.at( x, y ) );
                }
            Scene b = c;
            const int shift = static_cast<int>( s.range( -bottom, 255 - top ) );
            for ( uint32_t y = 0; y < c.h; ++y )
                for ( uint32_t x = 0; x < c.w; ++x )
                    b.set( x, y, static_cast<uint8_t>( c.at( x, y ) + shift ) );
            // averages which differ exactly by the contrast can be rounded in both directions
            auto exact = []( uint32_t n ) { return ( n & ( n - 1 ) ) == 0; };
            if ( p.left > 0 && p.right > 0 && !( exact( p.left + 1 ) && exact( p.right ) ) )
                throw pbt::Discard();
            const Edges f = findAs<double>( b, p );
            same( e.positive, f.positive, "positive edges of the brighter image" );
            same( e.negative, f.negative, "negative edges of the brighter image" );
            break;
        }
        case 4: { // only the rectangle matters
            Scene b;
            b.w = c.w;
            b.h = c.h;
            b.image = Image( c.w, c.h );
            for ( uint32_t y = 0; y < c.h; ++y )
                for ( uint32_t x = 0; x < c.w; ++x )
                    b.set( x, y, c.at( x, y ) );
            Edges f = findAs<double>( b, p, s.flag() );
            for ( std::vector<Pt> * list : { &f.positive, &f.negative } )
                for ( Pt & t : *list ) {
                    t.x += c.x;
                    t.y += c.y;
                }
            same( e.positive, f.positive, "positive edges of a copy of the rectangle" );
            same( e.negative, f.negative, "negative edges of a copy of the rectangle" );
            break;
        }
        case 5: { // the extreme ones of all
            q.edge = Edge::ALL;
            const Edges f = findAs<double>( c, q );
            for ( int sign = 0; sign < 2; ++sign ) {
                std::map<double, Pt> extreme;
                for ( const Pt & t : sign ? f.negative : f.positive ) {
                    auto it = extreme.find( acrossOf( p, t ) );
                    const bool lower = p.forward() == ( p.edge == Edge::FIRST );
                    if ( it == extreme.end() )
                        extreme[acrossOf( p, t )] = t;
                    else if ( lower == ( alongOf( p, t ) < alongOf( p, it->second ) ) )
                        it->second = t;
                }
                if ( p.edge == Edge::ALL )
                    continue;
                std::vector<Pt> expected;
                for ( const auto & k : extreme )
                    expected.push_back( k.second );
                same( sign ? e.negative : e.positive, expected, sign ? "extreme negative edges" : "extreme positive edges" );
            }
            break;
        }
        case 6: { // both signs contain each
            q.gradient = Gradient::ANY;
            const Edges f = findAs<double>( c, q );
            if ( p.gradient != Gradient::NEGATIVE )
                same( e.positive, f.positive, "positive edges" );
            if ( p.gradient != Gradient::POSITIVE )
                same( e.negative, f.negative, "negative edges" );
            break;
        }
        case 7: { // skipped lines have no influence on others
            q.skip = 1;
            const Edges f = findAs<double>( c, q );
            std::set<double> taken;
            for ( uint32_t id : starts( c, p ) )
                taken.insert( ( p.horizontal() ? c.y : c.x ) + id + ( p.group - 1 ) / 2.0 );
            for ( int sign = 0; sign < 2; ++sign ) {
                std::vector<Pt> expected;
                for ( const Pt & t : sign ? f.negative : f.positive )
                    if ( taken.count( acrossOf( p, t ) ) )
                        expected.push_back( t );
                same( sign ? e.negative : e.positive, expected, "edges of lines which are not skipped" );
            }
            break;
        }
        case 8: {
            if ( std::max( std::max( c.x, c.y ), std::max( c.w, c.h ) ) > 1000 ) // coordinates lose precision
                throw pbt::Discard();
            const Edges f = findAs<float>( c, p );
            // a point closer than one pixel to the previous one is dropped, and a gap of exactly one pixel can be rounded in both directions
            for ( int sign = 0; sign < 2; ++sign ) {
                std::map<double, std::pair<std::vector<double>, std::vector<double>>> line;
                for ( const Pt & t : sign ? e.negative : e.positive )
                    line[acrossOf( p, t )].first.push_back( alongOf( p, t ) );
                for ( const Pt & t : sign ? f.negative : f.positive )
                    line[acrossOf( p, t )].second.push_back( alongOf( p, t ) );
                for ( auto & k : line ) {
                    std::vector<double> &a = k.second.first, &b = k.second.second, both = a;
                    both.insert( both.end(), b.begin(), b.end() );
                    bool unsure = p.edge != Edge::ALL;
                    for ( double t : both )
                        for ( double u : both )
                            unsure = unsure || std::fabs( std::fabs( t - u ) - 1 ) < 1e-3;
                    std::sort( a.begin(), a.end() );
                    std::sort( b.begin(), b.end() );
                    bool good = !a.empty() && !b.empty();
                    if ( unsure ) {
                        auto near = []( const std::vector<double> & from, const std::vector<double> & to ) {
                            for ( double t : from ) {
                                double best = 1e9;
                                for ( double u : to )
                                    best = std::min( best, std::fabs( t - u ) );
                                if ( best > 1.001 )
                                    return false;
                            }
                            return true;
                        };
                        good = good && near( a, b ) && near( b, a );
                    }
                    else {
                        good = good && a.size() == b.size();
                        for ( size_t i = 0; good && i < a.size(); ++i )
                            good = std::fabs( a[i] - b[i] ) <= 1e-3;
                    }
                    PBT_CHECK( good, ( sign ? "negative" : "positive" ) << " edges of line " << k.first << " differ in single precision: " << show( sign ? f.negative : f.positive ) );
                }
            }
            break;
        }
        default: { // the first group alone
            Scene b = c;
            if ( p.horizontal() )
                b.h = p.group;
            else
                b.w = p.group;
            const double line = ( p.horizontal() ? c.y : c.x ) + ( p.group - 1 ) / 2.0;
            const Edges f = findAs<double>( b, p );
            for ( int sign = 0; sign < 2; ++sign ) {
                std::vector<Pt> expected;
                for ( const Pt & t : sign ? e.negative : e.positive )
                    if ( acrossOf( p, t ) == line )
                        expected.push_back( t );
                same( sign ? f.negative : f.positive, expected, "edges of the first group" );
            }
            break;
        }
        }
    } );

    pbt::Register p21c( "P21", "clean patterns", 4, "steps, ramps and blurred steps with a little noise at known places; non-trivial: always", []( Src & s, Ctx & ctx ) {
        Setting p;
        const bool many = s.chance( 4 ); // sums and contrasts of big groups
        const uint32_t across = many ? 30 + static_cast<uint32_t>( s.upto( 300 ) ) : 1 + static_cast<uint32_t>( s.upto( 6 ) );
        p = genSetting( s, across );
        if ( many )
            p.group = across - static_cast<uint32_t>( s.upto( 3 ) );
        p.left = std::min( p.left, 5u );
        p.right = std::min( p.right, 5u );
        int contrast = static_cast<int>( p.contrast );
        // alternating levels with flat pieces between changes
        std::vector<int> v;
        std::vector<Step> steps;
        const uint32_t changes = static_cast<uint32_t>( s.upto( 4 ) );
        const uint32_t kind = static_cast<uint32_t>( s.upto( 2 ) ); // 0: steps, 1: ramps, 2: blurred steps
        const uint32_t minimumFlat = std::max<uint32_t>( 2, p.left > 0 && p.right > 0 ? std::max( p.left, p.right ) + 1 : 0 ) + ( kind != 0 ? 3 : 0 );
        const bool justFits = kind == 0 && s.flag(); // the contrast is checked up to the last pixel of a flat piece
        const int noise = kind == 0 && s.flag() ? std::min( ( contrast - 1 ) / 2, static_cast<int>( s.upto( 8 ) ) ) : 0;
        auto flat = [&]( int level ) {
            uint32_t n = minimumFlat + static_cast<uint32_t>( s.upto( 6 ) );
            if ( justFits && s.flag() ) // the pixel at the edge belongs to the check of the side where the scan comes from
                n = std::max( { 2u, p.left > 0 && p.right > 0 ? p.left + 1 : 0u, p.left > 0 && p.right > 0 ? p.right : 0u } );
            for ( uint32_t i = 0; i < n; ++i )
                v.push_back( level );
            return n;
        };
        int level = static_cast<int>( s.upto( 255 ) );
        if ( noise > 0 )
            level = std::max( noise, std::min( 255 - noise, level ) );
        uint32_t before = flat( level );
        for ( uint32_t k = 0; k < changes; ++k ) {
            // a change with enough of contrast; with noise it must be well above the noise itself
            const int lo = noise, hi = 255 - noise, least = std::max( contrast + 2 * noise, noise > 0 ? 8 * noise + 4 : 1 );
            std::vector<int> candidates;
            for ( int t = lo; t <= hi; ++t )
                if ( std::abs( t - level ) >= least )
                    candidates.push_back( t );
            if ( candidates.empty() )
                break;
            Step step;
            step.from = level;
            int target = s.pickFrom( candidates );
            std::vector<int> rise; // differences
            if ( kind == 1 ) {
                const uint32_t length = 2 + static_cast<uint32_t>( s.upto( 5 ) );
                int slope = std::abs( target - level ) / static_cast<int>( length );
                if ( slope * static_cast<int>( length ) < contrast || slope < 1 )
                    break;
                rise.assign( length, target > level ? slope : -slope );
            }
            else if ( kind == 2 ) { // d1 < d2 < ... symmetric
                const int sign = target > level ? 1 : -1;
                int rest = std::abs( target - level );
                const uint32_t half = 1 + static_cast<uint32_t>( s.upto( 2 ) );
                std::vector<int> d;
                for ( uint32_t i = 0; i < half; ++i )
                    d.push_back( ( i ? d.back() : 0 ) + 1 + static_cast<int>( s.upto( 12 ) ) );
                const int middle = d.back() + 1 + static_cast<int>( s.upto( 60 ) );
                int total = middle;
                for ( int x : d )
                    total += 2 * x;
                if ( total > rest )
                    break;
                for ( int x : d )
                    rise.push_back( sign * x );
                rise.push_back( sign * middle );
                for ( size_t i = d.size(); i-- > 0; )
                    rise.push_back( sign * d[i] );
                // outer parts below a third of the maximum are not part of an edge
                int seen = middle;
                for ( int x : d )
                    if ( 3 * x >= middle )
                        seen += 2 * x;
                if ( steps.empty() && s.chance( 80 ) ) { // the whole change is needed
                    contrast = std::max( 1, seen - static_cast<int>( s.upto( 2 ) ) );
                    p.contrast = static_cast<uint32_t>( contrast );
                }
                if ( seen < contrast )
                    break;
            }
            else {
                rise.push_back( target - level );
            }
            step.begin = static_cast<double>( v.size() - 1 );
            step.at = step.begin + rise.size() / 2.0;
            step.end = step.begin + static_cast<double>( rise.size() );
            step.before = before;
            for ( size_t i = 0; i < rise.size(); ++i ) {
                level += rise[i];
                if ( i + 1 < rise.size() )
                    v.push_back( level );
            }
            step.to = level;
            step.after = before = flat( level );
            steps.push_back( step );
        }
        while ( v.size() < 4 )
            v.push_back( level );
        const uint32_t n = static_cast<uint32_t>( v.size() );
        Scene c;
        genScene( s, c, p.horizontal() ? n : across, p.horizontal() ? across : n );
        pbt::Stream r( s.raw( 2 ) );
        for ( uint32_t a = 0; a < across; ++a )
            for ( uint32_t i = 0; i < n; ++i ) {
                const int value = v[i] + ( noise ? static_cast<int>( r.below( static_cast<uint32_t>( 2 * noise + 1 ) ) ) - noise : 0 );
                if ( p.horizontal() )
                    c.set( i, a, static_cast<uint8_t>( value ) );
                else
                    c.set( a, i, static_cast<uint8_t>( value ) );
            }
        static const char * kinds[] = { "steps", "ramps", "blurred steps" };
        ctx.label( std::string( kinds[kind] ) + ( noise ? " with noise" : "" ) );
        ctx.nontrivial = !steps.empty();
        PBT_NOTE( ctx, kinds[kind] << ", " << show( p ) << ", noise " << noise << " in " << picture( c ) << "\nexpected at" );
        for ( const Step & t : steps )
            PBT_NOTE( ctx, ' ' << t.at << " (" << t.from << " to " << t.to << ")" );
        const Edges e = findAs<double>( c, p );
        PBT_NOTE( ctx, "\npositive: " << show( e.positive ) << "\nnegative: " << show( e.negative ) << '\n' );
        const double origin = p.horizontal() ? c.x : c.y, originAcross = p.horizontal() ? c.y : c.x;
        const bool contrastCheck = p.left > 0 && p.right > 0;
        for ( int sign = 0; sign < 2; ++sign ) {
            // edges of this sign along the scan
            std::vector<const Step *> mine;
            for ( const Step & t : steps )
                if ( ( ( t.to > t.from ) == p.forward() ) == ( sign == 0 ) )
                    mine.push_back( &t );
            const bool wanted = p.gradient == Gradient::ANY || ( p.gradient == Gradient::POSITIVE ) == ( sign == 0 );
            std::map<double, std::vector<double>> got;
            for ( const Pt & q : sign ? e.negative : e.positive )
                got[acrossOf( p, q )].push_back( alongOf( p, q ) - origin );
            // nothing outside of changes
            for ( const auto & line : got )
                for ( double at : line.second ) {
                    bool good = false;
                    for ( const Step * t : mine )
                        good = good || ( at >= t->begin - 1e-6 && at <= t->end + 1e-6 );
                    PBT_CHECK( wanted && good, ( sign ? "negative" : "positive" ) << " edge at " << at << " of the line where there is none" );
                }
            if ( !wanted || mine.empty() )
                continue;
            std::vector<const Step *> expected = mine;
            if ( contrastCheck && kind != 0 )
                continue; // the contrast is checked around the place only
            if ( p.edge != Edge::ALL ) {
                const bool lower = p.forward() == ( p.edge == Edge::FIRST );
                expected.assign( 1, lower ? mine.front() : mine.back() );
            }
            for ( uint32_t id : starts( c, p ) ) {
                const std::vector<double> & line = got[originAcross + id + ( p.group - 1 ) / 2.0];
                for ( const Step * t : expected ) {
                    size_t close = 0, within = 0;
                    for ( double at : line ) {
                        close += std::fabs( at - t->at ) <= ( p.edge == Edge::ALL || kind != 1 ? 0.5 + 1e-6 : t->end - t->begin );
                        within += at >= t->begin - 1e-6 && at <= t->end + 1e-6;
                    }
                    PBT_CHECK( close >= 1, ( sign ? "negative" : "positive" ) << " edge at " << t->at << " of line " << id << " is not found" );
                    PBT_CHECK( kind == 1 || within == 1, "edge at " << t->at << " of line " << id << " is found " << within << " times" );
                }
            }
        }
    } );

    pbt::Register p21d( "P21", "limits", 1, "invalid or extreme parameters and rectangles; non-trivial: always", []( Src & s, Ctx & ctx ) {
        Scene c;
        Setting p;
        genEdgeCase( s, c, p );
        ctx.nontrivial = true;
        uint32_t x = c.x, y = c.y, w = c.w, h = c.h;
        const uint32_t kind = static_cast<uint32_t>( s.upto( 9 ) );
        bool refuse = true;
        switch ( kind ) {
        case 0:
            w = c.image.width() - x + 1 + static_cast<uint32_t>( s.upto( 5 ) );
            break;
        case 1:
            h = c.image.height() - y + 1 + static_cast<uint32_t>( s.upto( 5 ) );
            break;
        case 2:
            ( s.flag() ? w : h ) = 0;
            break;
        case 3:
            c.image = Image();
            break;
        case 4:
            c.image = Image( c.image.width(), c.image.height(), s.pick<uint8_t>( { 3, 4 } ) );
            c.image.fill( 255 );
            break;
        case 5:
            p.group = 0;
            break;
        case 6:
            p.skip = 0;
            break;
        case 7:
            p.contrast = 0;
            break;
        case 8: { // more lines in a group than there are
            const uint32_t m = p.horizontal() ? h : w;
            p.group = s.pick<uint32_t>( { m + 1, m + 2, 2 * m, m + 100, 0x7FFFFFFFu, 0x80000000u, 0xFFFFFFFFu } );
            refuse = false;
            break;
        }
        default: // too short for derivatives, or everything is skipped
            if ( s.flag() )
                ( p.horizontal() ? w : h ) = 1 + static_cast<uint32_t>( s.upto( 2 ) );
            else
                p.skip = s.pick<uint32_t>( { 0xFFFFFFFFu, 0x80000000u, 1000 } );
            refuse = false;
            break;
        }
        PBT_NOTE( ctx, "limit " << kind << ", " << show( p ) << ", " << picture( c ) );
        EdgeDetection detection;
        bool refused = false;
        try {
            detection.find( c.image, x, y, w, h, p.parameter() );
        }
        catch ( const penguinVException & ) {
            refused = true;
        }
        PBT_CHECK( refused || !refuse, "invalid parameters are accepted" );
        if ( kind == 8 )
            PBT_CHECK( detection.positiveEdge().empty() && detection.negativeEdge().empty(), "edges of lines which do not exist" );
        for ( const Point2d & q : detection.positiveEdge() )
            PBT_CHECK( q.x >= x && q.y >= y && q.x <= x + w - 1 && q.y <= y + h - 1, "point (" << q.x << ", " << q.y << ") is out of the rectangle" );
    } );

    // ----------------------------------------------------------------------------------------------------- filters

    enum FilterKind
    {
        MEDIAN,
        SOBEL,
        PREWITT
    };

    struct FilterCall
    {
        FilterKind kind;
        uint32_t form; // 0: whole, returned; 1: whole, given; 2: part, returned; 3: part, given
        uint32_t kernel = 3;
        Scene in;
        Image out;
        uint32_t xo = 0, yo = 0;
    };

    void runFilter( FilterCall & f )
    {
        using namespace Image_Function;
        const Scene & c = f.in;
        switch ( f.kind ) {
        case MEDIAN:
            if ( f.form == 0 )
                f.out = Median( c.image, f.kernel );
            else if ( f.form == 1 )
                Median( c.image, f.out, f.kernel );
            else if ( f.form == 2 )
                f.out = Median( c.image, c.x, c.y, c.w, c.h, f.kernel );
            else
                Median( c.image, c.x, c.y, f.out, f.xo, f.yo, c.w, c.h, f.kernel );
            break;
        case SOBEL:
            if ( f.form == 0 )
                f.out = Sobel( c.image );
            else if ( f.form == 1 )
                Sobel( c.image, f.out );
            else if ( f.form == 2 )
                f.out = Sobel( c.image, c.x, c.y, c.w, c.h );
            else
                Sobel( c.image, c.x, c.y, f.out, f.xo, f.yo, c.w, c.h );
            break;
        default:
            if ( f.form == 0 )
                f.out = Prewitt( c.image );
            else if ( f.form == 1 )
                Prewitt( c.image, f.out );
            else if ( f.form == 2 )
                f.out = Prewitt( c.image, c.x, c.y, c.w, c.h );
            else
                Prewitt( c.image, c.x, c.y, f.out, f.xo, f.yo, c.w, c.h );
            break;
        }
    }

    void genFilter( Src & s, FilterCall & f )
    {
        f.kind = s.pick<FilterKind>( { SOBEL, MEDIAN, PREWITT } );
        f.form = static_cast<uint32_t>( s.upto( 3 ) );
        const uint32_t limit = s.flag() ? 9 : s.flag() ? 40 : 90;
        uint32_t w = 3 + static_cast<uint32_t>( s.upto( limit ) ), h = 3 + static_cast<uint32_t>( s.upto( limit ) );
        if ( f.kind == MEDIAN ) {
            f.kernel = 3 + 2 * static_cast<uint32_t>( s.upto( s.flag() ? 1 : 7 ) );
            w = std::max( w, f.kernel + 1 );
            h = std::max( h, f.kernel + 1 );
        }
        const uint32_t unusual = s.byte();
        if ( unusual < 6 ) { // more than 8 bits
            ( s.flag() ? w : h ) = 250 + static_cast<uint32_t>( s.upto( 400 ) );
        }
        else if ( unusual == 6 && s.chance( 64 ) ) { // more than 16 bits
            if ( s.flag() && h <= 12 )
                w = 65520 + static_cast<uint32_t>( s.upto( 30 ) );
            else if ( w <= 12 )
                h = 65520 + static_cast<uint32_t>( s.upto( 30 ) );
        }
        else if ( unusual == 7 && f.kind == MEDIAN ) { // more than 8 or 16 bits of pixels under the kernel
            f.kernel = s.flag() ? 17 + 2 * static_cast<uint32_t>( s.upto( 20 ) ) : 255 + 2 * static_cast<uint32_t>( s.upto( 4 ) );
            w = f.kernel + 1 + static_cast<uint32_t>( s.upto( 4 ) );
            h = f.kernel + 1 + static_cast<uint32_t>( s.upto( 4 ) );
        }
        genScene( s, f.in, w, h );
        if ( f.form < 2 ) {
            f.in.x = f.in.y = 0;
            f.in.w = f.in.image.width();
            f.in.h = f.in.image.height();
        }
        if ( f.form == 1 )
            f.out = genImage( s, f.in.w, f.in.h, 1, genAlignment( s ) );
        else if ( f.form == 3 ) {
            f.xo = static_cast<uint32_t>( s.upto( 4 ) );
            f.yo = static_cast<uint32_t>( s.upto( 4 ) );
            f.out = genImage( s, f.xo + f.in.w + static_cast<uint32_t>( s.upto( 2 ) ), f.yo + f.in.h + static_cast<uint32_t>( s.upto( 2 ) ), 1, genAlignment( s ) );
        }
    }

    std::string describe( const FilterCall & f )
    {
        static const char * name[] = { "Median", "Sobel", "Prewitt" };
        std::ostringstream o;
        o << name[f.kind] << " form " << f.form;
        if ( f.kind == MEDIAN )
            o << " kernel " << f.kernel;
        o << " to (" << f.xo << ", " << f.yo << ") of " << f.out.width() << 'x' << f.out.height() << ' ' << picture( f.in ) << '\n';
        return o.str();
    }

    pbt::Register p22( "P22", "values", 6, "all call forms, rectangles at and off the border; non-trivial: contents are not constant", []( Src & s, Ctx & ctx ) {
        FilterCall f;
        genFilter( s, f );
        PBT_NOTE( ctx, describe( f ) );
        const Scene & c = f.in;
        static const char * name[] = { "Median", "Sobel", "Prewitt" };
        ctx.label( name[f.kind] );
        for ( uint32_t y = 0; y < c.h; ++y )
            for ( uint32_t x = 0; x < c.w; ++x )
                ctx.nontrivial = ctx.nontrivial || c.at( x, y ) != c.at( 0, 0 );
        const Snap in = snap( c.image ), before = snap( f.out );
        runFilter( f );
        PBT_CHECK( snap( c.image ) == in, "the input image was changed" );
        const Snap out = snap( f.out );
        if ( f.form == 1 || f.form == 3 ) {
            PBT_CHECK( out.w == before.w && out.h == before.h && out.row == before.row, "geometry of the output was changed" );
            for ( uint32_t y = 0; y < out.h; ++y )
                for ( uint32_t x = 0; x < out.row; ++x )
                    if ( x < f.xo || y < f.yo || x >= f.xo + c.w || y >= f.yo + c.h )
                        PBT_CHECK( out.d[static_cast<size_t>( y ) * out.row + x] == before.d[static_cast<size_t>( y ) * out.row + x],
                                   "byte (" << x << ", " << y << ") outside of the output rectangle was changed" );
        }
        else {
            PBT_CHECK( out.w == c.w && out.h == c.h && out.cc == 1, "the returned image has a wrong size" );
        }
        for ( uint32_t y = 0; y < c.h; ++y )
            for ( uint32_t x = 0; x < c.w; ++x ) {
                const uint8_t got = out.at( f.xo + x, f.yo + y );
                if ( f.kind == MEDIAN ) {
                    const uint32_t half = f.kernel / 2;
                    uint8_t expected = c.at( x, y );
                    if ( x >= half && y >= half && x + half < c.w && y + half < c.h ) {
                        uint32_t histogram[256] = { 0 };
                        for ( uint32_t py = y - half; py <= y + half; ++py )
                            for ( uint32_t px = x - half; px <= x + half; ++px )
                                ++histogram[c.at( px, py )];
                        uint32_t sum = 0;
                        for ( uint32_t v = 0; v < 256; ++v ) {
                            sum += histogram[v];
                            if ( sum > f.kernel * f.kernel / 2 ) {
                                expected = static_cast<uint8_t>( v );
                                break;
                            }
                        }
                    }
                    PBT_CHECK( got == expected, "pixel (" << x << ", " << y << ") is " << int( got ) << " instead of " << int( expected ) );
                    continue;
                }
                const int64_t ax = static_cast<int64_t>( c.x ) + x, ay = static_cast<int64_t>( c.y ) + y;
                auto pixel = [&]( int64_t dx, int64_t dy ) {
                    return static_cast<int>( c.image.data()[static_cast<size_t>( ay + dy ) * c.image.rowSize() + static_cast<size_t>( ax + dx )] );
                };
                if ( ax == 0 || ay == 0 || ax + 1 >= c.image.width() || ay + 1 >= c.image.height() ) {
                    PBT_CHECK( got == 0, "pixel (" << x << ", " << y << ") at the border of the image is " << int( got ) << " instead of 0" );
                    continue;
                }
                const int weight = f.kind == SOBEL ? 2 : 1;
                const int gx = pixel( -1, -1 ) + weight * pixel( -1, 0 ) + pixel( -1, 1 ) - pixel( 1, -1 ) - weight * pixel( 1, 0 ) - pixel( 1, 1 );
                const int gy = pixel( -1, -1 ) + weight * pixel( 0, -1 ) + pixel( 1, -1 ) - pixel( -1, 1 ) - weight * pixel( 0, 1 ) - pixel( 1, 1 );
                const double exact = std::sqrt( ( static_cast<double>( gx ) * gx + static_cast<double>( gy ) * gy ) / 2 ) / ( 2 + weight );
                PBT_CHECK( std::fabs( exact - got ) <= 0.5 + 1e-3,
                           "pixel (" << x << ", " << y << ") is " << int( got ) << " instead of " << exact << " (gradients " << gx << " and " << gy << ")" );
            }
        if ( s.chance( 40 ) ) { // again
            FilterCall g;
            g.kind = f.kind;
            g.form = f.form;
            g.kernel = f.kernel;
            g.in = f.in;
            g.xo = f.xo;
            g.yo = f.yo;
            if ( f.form == 1 || f.form == 3 )
                g.out = fromSnap( before );
            runFilter( g );
            PBT_CHECK( snap( g.out ) == out, "the second call gives another result" );
        }
    } );

    pbt::Register p22b( "P22", "refusals", 1, "calls broken in one way; non-trivial: always", []( Src & s, Ctx & ctx ) {
        FilterCall f;
        genFilter( s, f );
        ctx.nontrivial = true;
        f.form = 3;
        if ( f.out.empty() )
            f.out = genImage( s, f.in.w, f.in.h, 1, 1 );
        const uint32_t kind = static_cast<uint32_t>( s.upto( 7 ) );
        switch ( kind ) {
        case 0:
            f.in.w = f.in.image.width() - f.in.x + 1;
            break;
        case 1:
            f.in.h = f.in.image.height() - f.in.y + 1;
            break;
        case 2:
            f.xo = f.out.width() - f.in.w + 1;
            break;
        case 3:
            f.in.image = Image();
            break;
        case 4:
            f.in.image = genImage( s, f.in.image.width(), f.in.image.height(), 3, 1 );
            break;
        case 5:
            f.out = genImage( s, f.out.width(), f.out.height(), 3, 1 );
            break;
        case 6: // too small
            ( s.flag() ? f.in.w : f.in.h ) = f.kind == MEDIAN ? 1 + static_cast<uint32_t>( s.upto( f.kernel - 1 ) ) : static_cast<uint32_t>( 1 + s.upto( 1 ) );
            break;
        default:
            if ( f.kind != MEDIAN )
                throw pbt::Discard();
            f.kernel = s.pick<uint32_t>( { 0, 1, 2, 4, 6, 0xFFFFFFFFu, std::max( f.in.w, f.in.h ) | 1u } );
            break;
        }
        PBT_NOTE( ctx, "refusal " << kind << " of " << describe( f ) );
        const Snap in = snap( f.in.image ), out = snap( f.out );
        bool refused = false;
        try {
            runFilter( f );
        }
        catch ( const penguinVException & ) {
            refused = true;
        }
        PBT_CHECK( refused, "invalid parameters are accepted" );
        PBT_CHECK( snap( f.in.image ) == in && snap( f.out ) == out, "a refused call changed an image" );
    } );
}
