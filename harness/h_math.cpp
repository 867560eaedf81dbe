// Monitors for the random sampling, the distributions and the small helpers.
//   draw SEED COUNT    draw_unique_k_from_n
//   res  SEED COUNT    reservoir_sampling_A_ExpJ
//   dist SEED COUNT    distributions and erfinv
//   text SEED COUNT    parse_comma_separated_list, hamming_distance, get_file_contents (DIR as third argument)
#include "mon.hpp"
#include <cstring>
#include <array>
#include <boost/math/special_functions/erf.hpp>
#include <functional>
#include <numeric>
#include <random>
#include <util/math.hpp>
#include <util/misc.hpp>

using namespace Seldon;
using mon::R;

// Bernstein's inequality: beyond this a count with mean T*p is rejected with an error below 1e-12
bool off( double count, double T, double p )
{
    double V = T * p * ( 1 - p );
    return std::abs( count - T * p ) > 8 * std::sqrt( V ) + 20;
}

// ---------------------------------------------------------------------------------------------------- draw
// one or a few of many, often: every item is drawn, all parts of the range equally often
void draw_of_many( R & r )
{
    std::mt19937 gen( r.next() );
    const size_t n = 200 + r.below( r.chance( 0.7 ) ? 300 : 1800 ), k = 1 + r.below( 3 );
    std::optional<size_t> ignore;
    if( r.chance( 0.5 ) )
        ignore = r.chance( 0.3 ) ? n - 1 - r.below( 2 ) : r.below( n );
    const size_t avail = n - ( ignore ? 1 : 0 ), T = 45 * n / k + 1; // an item is missed by all with a probability below e^-44
    auto text          = mon::str( "n=", n, " k=", k, " ignore=", ignore ? std::to_string( *ignore ) : "none" );
    std::vector<size_t> incl( n ), buffer;
    for( size_t t = 0; t < T; t++ )
    {
        draw_unique_k_from_n( ignore, k, n, buffer, gen );
        if( buffer.size() != k )
            return mon::fail( "draw-distinct", text + " drew " + mon::join( buffer ) );
        for( size_t x : buffer )
        {
            if( x >= n || ( ignore && x == *ignore ) )
                return mon::fail( "draw-ignored", text + " drew " + mon::join( buffer ) );
            incl[x]++;
        }
    }
    double p = double( k ) / double( avail ), seen = 0, part = 0;
    for( size_t x = 0; x < n; x++ )
    {
        if( ignore && x == *ignore )
            continue;
        if( incl[x] == 0 || off( double( incl[x] ), double( T ), p ) )
            mon::fail( "draw-uniform", text + mon::str( ": ", x, " was drawn in ", incl[x], " of ", T ) );
        seen += double( incl[x] ), part += 1; // of the items up to here, an inclusion is an event with probability p * part
        if( k == 1 && off( seen, double( T ), p * part ) )
            mon::fail( "draw-uniform", text + mon::str( ": up to ", x, " in ", seen, " of ", T ) );
    }
    mon::stat( "draws", T );
    mon::stat( "draws_of_many", T );
    mon::stat( "cases" );
    mon::key( text );
}

// many of many: every item equally often, whether it is excluded by chance or not
void draw_many_of_many( R & r )
{
    std::mt19937 gen( r.next() );
    const size_t n = 300 + r.below( 2000 );
    std::optional<size_t> ignore;
    if( r.chance( 0.5 ) )
        ignore = r.chance( 0.3 ) ? r.below( 3 ) : r.below( n );
    const size_t avail = n - ( ignore ? 1 : 0 ), k = 1 + r.below( avail ), T = 120;
    auto text = mon::str( "n=", n, " k=", k, " ignore=", ignore ? std::to_string( *ignore ) : "none" );
    std::vector<size_t> incl( n ), buffer;
    double p = double( k ) / double( avail );
    for( size_t t = 0; t < T; t++ )
    {
        draw_unique_k_from_n( ignore, k, n, buffer, gen );
        std::vector<size_t> s( buffer );
        std::sort( s.begin(), s.end() );
        if( s.size() != k || std::adjacent_find( s.begin(), s.end() ) != s.end() || s.back() >= n || ( ignore && std::binary_search( s.begin(), s.end(), *ignore ) ) )
            return mon::fail( "draw-distinct", text + " draws an excluded or repeated item" );
        for( size_t x : s )
            incl[x]++;
    }
    double sum = 0, lower = 0;
    for( size_t x = 0; x < n; x++ )
    {
        if( ignore && x == *ignore )
            continue;
        if( off( double( incl[x] ), double( T ), p ) )
            mon::fail( "draw-uniform", text + mon::str( ": ", x, " was drawn in ", incl[x], " of ", T ) );
        sum += ( double( incl[x] ) - T * p ) * ( double( incl[x] ) - T * p );
        lower += x < n / 2 ? double( incl[x] ) - T * p : 0;
    }
    // the mean square deviation is that of a draw without memory
    const double V = T * p * ( 1 - p );
    if( V > 5 && std::abs( sum / ( V * double( avail ) ) - 1 ) > 12 * std::sqrt( 2.0 / double( avail ) ) + 0.05 )
        mon::fail( "draw-uniform", text + mon::str( ": the frequencies vary by ", sum / double( avail ), " instead of ", V ) );
    if( std::abs( lower ) > 8 * std::sqrt( V * double( n ) / 4 ) + 20 )
        mon::fail( "draw-uniform", text + mon::str( ": the lower half was drawn ", lower, " times too often" ) );
    mon::stat( "draws_of_many", T );
    mon::stat( "cases" );
    mon::key( text );
}

// more items than fit into 16 bits
void draw_of_very_many( R & r )
{
    std::mt19937 gen( r.next() );
    const size_t n = 65537 + r.below( 70000 );
    std::optional<size_t> ignore;
    if( r.chance( 0.7 ) )
        ignore = r.chance( 0.5 ) ? r.below( n ) : r.chance( 0.5 ) ? r.below( n - 65536 ) : n - 1;
    const size_t avail = n - ( ignore ? 1 : 0 ), k = r.chance( 0.5 ) ? avail : avail - 1 - r.below( 10 );
    auto text = mon::str( "n=", n, " k=", k, " ignore=", ignore ? std::to_string( *ignore ) : "none" );
    std::vector<size_t> buffer;
    draw_unique_k_from_n( ignore, k, n, buffer, gen );
    std::sort( buffer.begin(), buffer.end() );
    if( buffer.size() != k || std::adjacent_find( buffer.begin(), buffer.end() ) != buffer.end() || buffer.back() >= n || ( ignore && std::binary_search( buffer.begin(), buffer.end(), *ignore ) ) )
        mon::fail( "draw-distinct", text + " draws an excluded or repeated item, or not all" );
    mon::stat( "draws_of_very_many" );
    mon::stat( "cases" );
    mon::key( text );
}

void draw( R & r )
{
    if( r.chance( 0.02 ) )
        return draw_of_many( r );
    if( r.chance( 0.03 ) )
        return draw_many_of_many( r );
    if( r.chance( 0.02 ) )
        return draw_of_very_many( r );
    std::mt19937 gen( r.next() );
    bool small   = r.chance( 0.7 );
    size_t n     = small ? 1 + r.below( 6 ) : 1 + r.below( 60 );
    bool big_n   = !small && r.chance( 0.1 );
    if( big_n )
        n = 1000 + r.below( 3000 );
    std::optional<size_t> ignore;
    if( r.chance( 0.6 ) )
        ignore = r.below( n );
    size_t avail = n - ( ignore ? 1 : 0 );
    size_t asked = r.chance( 0.1 ) ? avail : r.chance( 0.1 ) ? avail + 1 + r.below( 12 ) : r.below( avail + 1 );
    size_t k     = std::min( asked, avail ); // what there is
    auto text    = mon::str( "n=", n, " k=", asked, " ignore=", ignore ? std::to_string( *ignore ) : "none" );
    size_t T     = big_n ? 30 : 3000;
    std::map<std::vector<size_t>, size_t> sets;
    std::vector<size_t> incl( n );
    std::vector<size_t> buffer( r.below( 20 ), n + 7 ); // with something left from before
    size_t pair01 = 0, a0 = ignore && *ignore == 0 ? 1 : 0, a1 = n - 1 - ( ignore && *ignore == n - 1 ? 1 : 0 );
    for( size_t t = 0; t < T; t++ )
    {
        draw_unique_k_from_n( ignore, asked, n, buffer, gen );
        std::vector<size_t> s( buffer );
        std::sort( s.begin(), s.end() );
        if( s.size() != k || std::adjacent_find( s.begin(), s.end() ) != s.end() || ( k && s.back() >= n ) )
            return mon::fail( "draw-distinct", text + " drew " + mon::join( buffer ) );
        bool h0 = false, h1 = false;
        for( size_t x : s )
        {
            if( ignore && x == *ignore )
                return mon::fail( "draw-ignored", text + " drew " + mon::join( buffer ) );
            incl[x]++;
            h0 |= x == a0;
            h1 |= x == a1;
        }
        pair01 += h0 && h1;
        if( small )
            sets[s]++;
    }
    mon::stat( "draws", T );
    if( T >= 1000 && avail > 0 )
    {
        double p = double( k ) / double( avail );
        for( size_t x = 0; x < n; x++ )
            if( !( ignore && x == *ignore ) && off( incl[x], T, p ) )
                mon::fail( "draw-uniform", text + mon::str( ": ", x, " was drawn in ", incl[x], " of ", T ) );
        if( avail > 1 && a0 != a1 && off( pair01, T, p * double( k - ( k > 0 ) ) / double( avail - 1 ) ) && k > 0 )
            mon::fail( "draw-pairs", text + mon::str( ": ", a0, " and ", a1, " together in ", pair01, " of ", T ) );
        if( small )
        {
            double m = 1; // number of subsets
            for( size_t i = 0; i < k; i++ )
                m = m * double( avail - i ) / double( i + 1 );
            m = std::round( m );
            for( auto & [s, c] : sets )
                if( off( c, T, 1 / m ) )
                    mon::fail( "draw-subsets", text + mon::str( ": {", mon::join( s ), "} in ", c, " of ", T ) );
            if( double( sets.size() ) != m && T / m > 60 )
                mon::fail( "draw-subsets", text + mon::str( ": only ", sets.size(), " of ", m, " subsets are drawn" ) );
        }
    }
    if( k > 0 && k < avail )
        mon::key( text );
    mon::stat( "cases" );
}

// ---------------------------------------------------------------------------------------------------- reservoir
double prob_of_set( const std::vector<double> & w, const std::vector<size_t> & s )
{
    // successive sampling without replacement, all orders
    std::vector<size_t> perm( s );
    std::sort( perm.begin(), perm.end() );
    double W = std::accumulate( w.begin(), w.end(), 0.0 ), total = 0;
    do
    {
        double p = 1, left = W;
        for( size_t x : perm )
        {
            p *= w[x] / left;
            left -= w[x];
        }
        total += p;
    } while( std::next_permutation( perm.begin(), perm.end() ) );
    return std::min( 1.0, total );
}

// many of many: items of equal weight are drawn equally often, wherever they are
void res_many( R & r )
{
    std::mt19937 gen( r.next() );
    const size_t n = 10 + r.below( 120 ), k = 1 + r.below( n - 1 ), T = 3000;
    const double heavy = r.chance( 0.3 ) ? 1.0 : std::exp( r.uni( 0, 3 ) ), scale = r.chance( 0.6 ) ? 1.0 : std::pow( 10.0, r.uni( -200, 200 ) );
    std::vector<int> cls( n ); // 0: no weight, 1: light, 2: heavy
    size_t n1 = 0, n2 = 0;
    const double p0 = r.chance( 0.5 ) ? 0 : 0.2, p2 = r.uni( 0, 1 );
    for( auto & c : cls )
    {
        c = r.chance( p0 ) ? 0 : r.chance( p2 ) ? 2 : 1;
        n1 += c == 1;
        n2 += c == 2;
    }
    const size_t want = std::min( k, n1 + n2 );
    auto text         = mon::str( "n=", n, " k=", k, " heavy ", heavy, " scale ", scale, " classes ", mon::join( cls ) );
    auto cb           = [&]( size_t i ) { return cls.at( i ) == 0 ? 0.0 : cls[i] == 1 ? scale : scale * heavy; };
    std::vector<size_t> incl( n ), buffer;
    double total[3] = { 0, 0, 0 };
    for( size_t t = 0; t < T; t++ )
    {
        reservoir_sampling_A_ExpJ( k, n, cb, buffer, gen );
        std::vector<char> seen( n );
        if( buffer.size() != want )
            return mon::fail( "reservoir-size", text + mon::str( " drew ", mon::join( buffer ), " instead of ", want, " distinct items" ) );
        for( size_t x : buffer )
        {
            if( x >= n || seen[x] || cls[x] == 0 )
                return mon::fail( "reservoir-size", text + mon::str( " drew ", mon::join( buffer ) ) );
            seen[x] = 1;
            incl[x]++;
            total[cls[x]]++;
        }
    }
    // the mean of a class is estimated from all its items, which adds no more than the deviation of one
    size_t m[3] = { 1, n1, n2 };
    for( size_t x = 0; x < n; x++ )
        if( int c = cls[x]; c && m[c] > 1 )
        {
            double p = std::min( 1.0, total[c] / double( T ) / double( m[c] ) );
            if( std::abs( double( incl[x] ) - double( T ) * p ) > 9 * std::sqrt( double( T ) * p * ( 1 - p ) ) + 22 )
                mon::fail( "reservoir-item", text + mon::str( ": ", x, " drawn ", incl[x], " times of ", T, ", items of its weight ", double( T ) * p, " times" ) );
        }
    if( n1 && n2 && heavy > 1 && total[2] / double( n2 ) < total[1] / double( n1 ) - 9 * std::sqrt( double( T ) ) )
        mon::fail( "reservoir-item", text + ": heavy items are drawn less often" );
    // against successive sampling done directly
    double direct = 0;
    for( size_t t = 0; t < T; t++ )
    {
        size_t a = n1, b = n2;
        for( size_t q = 0; q < want; q++ )
            if( r.uni( 0, 1 ) * ( double( a ) + heavy * double( b ) ) < heavy * double( b ) && b > 0 )
                b--, direct++;
            else if( a > 0 )
                a--;
            else
                b--, direct++;
    }
    double V = double( T ) * double( std::max<size_t>( 1, std::min( want, n1 + n2 - want ) ) ); // variance of the sum of T numbers
    if( std::abs( direct - total[2] ) > 8 * std::sqrt( 2 * V ) + 20 )
        mon::fail( "reservoir-item", text + mon::str( ": ", total[2], " heavy items in ", T, " draws, successive sampling gives ", direct ) );
    mon::stat( "draws", T );
    mon::stat( "draws_of_many", T );
    mon::stat( "cases" );
    mon::key( text );
}

void res( R & r )
{
    if( r.chance( 0.02 ) )
        return res_many( r );
    std::mt19937 gen( r.next() );
    size_t n = r.below( 7 ), k = r.chance( 0.15 ) ? n + r.below( 4 ) : r.below( n + 1 );
    bool large = r.chance( 0.05 ), middle = !large && r.chance( 0.08 );
    if( large )
    {
        n = 20 + r.below( 500 );
        k = 1 + r.below( n );
    }
    if( middle )
    {
        n = 7 + r.below( 80 );
        k = 1 + r.below( 2 );
    }
    double scale = r.chance( 0.6 ) ? 1.0 : std::pow( 10.0, r.chance( 0.3 ) ? r.uni( -290, 290 ) : r.uni( -200, 200 ) );
    std::vector<double> w( n ), rel( n );
    size_t positive = 0;
    for( size_t i = 0; i < n; i++ )
    {
        rel[i] = r.chance( 0.2 ) ? 0.0 : r.chance( 0.5 ) ? double( 1 + r.below( 4 ) ) : std::exp( r.uni( -3, 3 ) );
        w[i]   = rel[i] * scale;
        positive += w[i] > 0;
    }
    size_t want = std::min( k, positive );
    auto text   = mon::str( "n=", n, " k=", k, " weights ", mon::join( w ) );
    auto cb     = [&]( size_t i ) { return w.at( i ); };
    size_t T    = large ? 50 : middle ? 6000 : r.chance( 0.01 ) ? 150000 : 4000;
    std::map<std::vector<size_t>, size_t> sets;
    std::vector<double> incl( n );
    std::vector<size_t> buffer( r.below( 9 ), n + 7 );
    for( size_t t = 0; t < T; t++ )
    {
        reservoir_sampling_A_ExpJ( k, n, cb, buffer, gen );
        std::vector<size_t> s( buffer );
        std::sort( s.begin(), s.end() );
        if( s.size() != want || std::adjacent_find( s.begin(), s.end() ) != s.end() || ( !s.empty() && s.back() >= n ) )
            return mon::fail( "reservoir-size", text + mon::str( " drew ", mon::join( buffer ), " instead of ", want, " distinct items" ) );
        for( size_t x : s )
            if( !( w[x] > 0 ) )
                return mon::fail( "reservoir-zero-weight", text + " drew " + mon::join( buffer ) );
        for( size_t x : s )
            incl[x]++;
        if( !large && !middle )
            sets[s]++;
    }
    mon::stat( "draws", T );
    mon::stat( "cases" );
    if( middle && want < positive ) // one or two of many: the probability of every item
    {
        double W = std::accumulate( rel.begin(), rel.end(), 0.0 );
        for( size_t i = 0; i < n; i++ )
        {
            double p = rel[i] / W;
            if( want == 2 )
                for( size_t j = 0; j < n; j++ )
                    if( j != i )
                        p += rel[j] / W * rel[i] / ( W - rel[j] );
            if( off( incl[i], double( T ), std::min( 1.0, p ) ) )
                mon::fail( "reservoir-item", text + mon::str( ": ", i, " drawn ", incl[i], " times of ", T, ", expected ", double( T ) * p ) );
        }
        mon::stat( "distributions_of_many" );
        mon::key( text );
    }
    if( !large && !middle && want > 0 && want < positive )
    {
        // every subset of the positive items has its probability
        std::vector<size_t> pos;
        for( size_t i = 0; i < n; i++ )
            if( w[i] > 0 )
                pos.push_back( i );
        for( size_t mask = 0; mask < ( size_t( 1 ) << pos.size() ); mask++ )
        {
            if( size_t( __builtin_popcountll( mask ) ) != want )
                continue;
            std::vector<size_t> s;
            for( size_t i = 0; i < pos.size(); i++ )
                if( mask >> i & 1 )
                    s.push_back( pos[i] );
            double p = prob_of_set( rel, s );
            auto it  = sets.find( s );
            size_t c = it == sets.end() ? 0 : it->second;
            if( off( c, T, p ) )
                mon::fail( "reservoir-probability", text + mon::str( ": {", mon::join( s ), "} drawn ", c, " times of ", T, ", expected ", T * p ) );
        }
        mon::stat( "distributions" );
        mon::key( text );
    }
}

// ---------------------------------------------------------------------------------------------------- distributions
double ks( std::vector<double> x, const std::function<double( double )> & F )
{
    std::sort( x.begin(), x.end() );
    double d = 0, n = double( x.size() );
    for( size_t i = 0; i < x.size(); i++ )
    {
        double f = F( x[i] );
        d        = std::max( { d, std::abs( f - double( i ) / n ), std::abs( f - double( i + 1 ) / n ) } );
    }
    return d * std::sqrt( n ); // > 4.2 has a probability below 1e-15
}
constexpr double KS = 4.2;

long double Phi( long double z )
{
    return 0.5L * erfcl( -z / sqrtl( 2.0L ) );
}

double integrate( const std::function<double( double )> & f, double a, double b )
{
    // Simpson on t with x = a * (b/a)^t if a > 0, else linear
    const int N = 4000;
    auto g      = [&]( double t )
    {
        if( a > 0 )
        {
            double x = a * std::pow( b / a, t );
            return f( x ) * x * std::log( b / a );
        }
        return f( a + t * ( b - a ) ) * ( b - a );
    };
    double s = 0;
    for( int i = 0; i <= N; i++ )
        s += g( double( i ) / N ) * ( i == 0 || i == N ? 1 : i % 2 ? 4 : 2 );
    return s / ( 3.0 * N );
}

void close( const std::string & key, double a, double b, double tol, const std::string & text )
{
    if( !( std::abs( a - b ) <= tol * std::max( 1.0, std::abs( b ) ) ) )
        mon::fail( key, text + mon::str( ": ", a, " instead of ", b ) );
}

// successive samples are independent: the products of their standardized neighbours average out
void serial( const std::string & key, const std::vector<double> & x, const std::vector<double> & y, const std::function<double( double )> & F,
             const std::function<double( double )> & G, const std::string & text )
{
    for( size_t lag : { 1, 2, 3 } )
    {
        double s = 0;
        for( size_t i = lag; i < x.size(); i++ )
            s += ( F( x[i] ) - 0.5 ) * ( G( y[i - lag] ) - 0.5 ) * 12;
        if( std::abs( s ) > 8 * std::sqrt( double( x.size() ) ) )
            mon::fail( key, text + mon::str( ": samples depend on the ", lag, " one(s) before, correlation ", s / double( x.size() ) ) );
    }
}

void power( R & r )
{
    double eps = r.chance( 0.3 ) ? 0.01 : std::pow( 10.0, r.chance( 0.15 ) ? r.uni( -12, -4 ) : r.uni( -4, -0.05 ) ), g = r.chance( 0.3 ) ? 2.1 : r.chance( 0.8 ) ? r.uni( 2.02, 5.0 ) : r.uni( 5, std::min( 80.0, 1 - 250 / std::log10( eps ) ) );
    power_law_distribution<> d( eps, g );
    auto text = mon::str( "power law eps=", eps, " gamma=", g );
    long double norm = powl( eps, 1 - g ) - 1;
    auto F    = [&]( double x ) { return double( ( powl( eps, 1 - g ) - powl( x, 1 - g ) ) / norm ); };
    if( g <= 5 )
        close( "power-normalization", integrate( [&]( double x ) { return d.pdf( std::clamp( x, eps, 1.0 ) ); }, eps, 1.0 ), 1.0, 1e-7, text + " integral of the pdf" );
    else // only next to eps
        close( "power-normalization", integrate( [&]( double t ) { return d.pdf( std::clamp( std::exp( t ), eps, 1.0 ) ) * std::exp( t ); }, std::log( eps ), std::min( 0.0, std::log( eps ) + 50 / g ) ), 1.0, 1e-7,
               text + " integral of the pdf" );
    double last = 0;
    for( int i = 0; i <= 40; i++ )
    {
        double u = i / 40.0, x = d.inverse_cdf( u );
        if( !( x >= eps * ( 1 - 1e-9 ) && x <= 1 + 1e-9 ) || x < last )
            mon::fail( "power-support", text + mon::str( " inverse_cdf(", u, ") = ", x ) );
        last = x;
        close( "power-inverse", F( x ), u, 1e-9, text + " cdf(inverse_cdf(u))" );
        x        = std::clamp( x, eps, 1.0 ); // not beyond the support by rounding
        double p = double( ( g - 1 ) * powl( x, -g ) / norm );
        if( std::abs( d.pdf( x ) - p ) > 1e-9 * p )
            mon::fail( "power-pdf", text + mon::str( " pdf(", x, ") = ", d.pdf( x ), " instead of ", p ) );
        for( double y : { eps * ( 1 - 1e-6 ) * ( 1 - u ), 1 + 1e-6 + 3 * u, 1e6 * ( 1 + u ), -u } )
            if( d.pdf( y ) != 0 )
                mon::fail( "power-pdf-outside", text + mon::str( " pdf(", y, ") = ", d.pdf( y ), " outside of the support" ) );
    }
    for( int i = 0; i < 40; i++ ) // close to the ends
    {
        double v = std::pow( 10.0, r.uni( -12, -1 ) ), u = i % 2 ? v : 1 - v;
        if( !( std::abs( F( d.inverse_cdf( u ) ) - u ) <= 1e-9 * v + 1e-13 ) )
            mon::fail( "power-inverse", text + mon::str( " cdf(inverse_cdf(", u, ")) = ", F( d.inverse_cdf( u ) ) ) );
    }
    std::mt19937 gen( r.next() );
    std::vector<double> x( 20000 );
    for( auto & v : x )
    {
        v = d( gen );
        if( !( v >= eps * ( 1 - 1e-9 ) && v <= 1 + 1e-9 ) )
            return mon::fail( "power-support", text + mon::str( " sample ", v ) );
    }
    if( ks( x, F ) > KS )
        mon::fail( "power-samples", text + " samples do not follow the density" );
    serial( "power-serial", x, x, F, F, text );
    double mean = double( ( g - 1 ) / norm * ( powl( eps, 2 - g ) - 1 ) / ( g - 2 ) );
    if( std::abs( d.mean() - mean ) > 1e-6 * mean )
    {
        // the known wrong formula leaves out the upper bound 1 of the support
        double known = double( ( g - 1 ) / norm * powl( eps, 2 - g ) / ( g - 2 ) );
        auto what    = text + mon::str( " mean() = ", d.mean(), ", the mean is ", mean );
        if( std::abs( d.mean() - known ) <= 1e-9 * known )
            mon::note( "mean-formula", what );
        else
            mon::fail( "power-mean", what );
    }
    mon::stat( "power_law" );
    mon::stat( "samples", x.size() );
    mon::key( text );
}

void truncnorm( R & r )
{
    double mean = r.chance( 0.3 ) ? 1.0 : r.uni( -2, 3 ), sigma = r.chance( 0.3 ) ? 0.25 : std::exp( r.uni( -3, 1.5 ) );
    double eps = mean + sigma * r.uni( -9, 3.0 );
    truncated_normal_distribution<> d( mean, sigma, eps );
    auto text = mon::str( "truncated normal mean=", mean, " sigma=", sigma, " eps=", eps );
    long double z0 = ( (long double)eps - mean ) / sigma, up = Phi( -z0 );
    auto F = [&]( double x ) { return double( 1 - Phi( -( (long double)x - mean ) / sigma ) / up ); };
    close( "trunc-normalization", integrate( [&]( double t ) { return d.pdf( eps + sigma * t ) * sigma; }, 0, std::max( 12.0, 12.0 - double( z0 ) ) ),
           1.0, 1e-3, text + " integral of the pdf" );
    const double tol = sigma * ( 1e-10 + 1e-14 / double( expl( -0.5L * z0 * z0 ) / sqrtl( 2 * M_PIl ) ) ); // of a value at the bound
    if( z0 > -6 && !( std::abs( d.inverse_cdf( 0.0 ) - eps ) <= tol ) )
        mon::fail( "trunc-support", text + mon::str( " inverse_cdf(0) = ", d.inverse_cdf( 0.0 ) ) );
    for( int i = 0; i < 20; i++ ) // close to the bound
    {
        double u = std::pow( 10.0, r.uni( -12, -1 ) ), y = F( d.inverse_cdf( u ) );
        if( !( std::abs( y - u ) <= 1e-9 * u + 1e-13 / double( up ) ) )
            mon::fail( "trunc-inverse", text + mon::str( " cdf(inverse_cdf(", u, ")) = ", y ) );
    }
    double last = -1e300;
    for( int i = 0; i < 40; i++ )
    {
        double u = i / 40.0, x = d.inverse_cdf( u );
        if( !( x >= eps - 1e-6 * sigma ) && !( z0 < -6 && i == 0 ) )
            mon::fail( "trunc-support", text + mon::str( " inverse_cdf(", u, ") = ", x ) );
        if( i > 0 && x < last )
            mon::fail( "trunc-monotone", text );
        last = x;
        if( i > 0 )
            close( "trunc-inverse", F( x ), u, 1e-7, text + " cdf(inverse_cdf(u))" );
        double y = i ? x : eps + 0.01 * sigma, zz = ( y - mean ) / sigma;
        double p = double( expl( -0.5L * zz * zz ) / ( sqrtl( 2 * M_PIl ) * sigma * up ) );
        if( std::abs( d.pdf( y ) - p ) > 1e-7 * p )
            mon::fail( "trunc-pdf", text + mon::str( " pdf(", y, ") = ", d.pdf( y ), " instead of ", p ) );
        if( d.pdf( eps - sigma * 0.1 * ( i + 1 ) ) != 0 )
            mon::fail( "trunc-pdf", text + " density below the bound" );
    }
    for( int i = 0; i < 20; i++ ) // far out
    {
        double y = std::max( eps, mean ) + sigma * r.uni( 0, 25 ), zz = ( y - mean ) / sigma;
        double p = double( expl( -0.5L * zz * zz ) / ( sqrtl( 2 * M_PIl ) * sigma * up ) );
        if( std::abs( d.pdf( y ) - p ) > 1e-7 * p )
            mon::fail( "trunc-pdf", text + mon::str( " pdf(", y, ") = ", d.pdf( y ), " instead of ", p ) );
    }
    std::mt19937 gen( r.next() );
    std::vector<double> x( 20000 );
    for( auto & v : x )
    {
        v = d( gen );
        if( !( v >= eps - 1e-6 * sigma ) && z0 > -6 )
            return mon::fail( "trunc-support", text + mon::str( " sample ", v ) );
    }
    if( ks( x, F ) > KS )
        mon::fail( "trunc-samples", text + " samples do not follow the density" );
    serial( "trunc-serial", x, x, F, F, text );
    mon::stat( "truncated_normal" );
    mon::stat( "samples", x.size() );
    mon::key( text );
}

void binormal( R & r )
{
    double c = r.chance( 0.1 ) ? 0.0 : r.chance( 0.1 ) ? 1.0 : r.chance( 0.1 ) ? -1.0 : r.uni( -0.99, 0.99 );
    bivariate_normal_distribution<> d( c );
    std::mt19937 gen( r.next() );
    auto text      = mon::str( "bivariate normal covariance=", c );
    const size_t N = 20000;
    std::vector<double> a( N ), b( N ), e( N ), h( N );
    double s = std::sqrt( 1 - c * c ), prod = 0;
    for( size_t i = 0; i < N; i++ )
    {
        auto z = d( gen );
        a[i] = z[0], b[i] = z[1];
        prod += z[0] * z[1];
        if( s == 0 )
        {
            if( std::abs( b[i] - c * a[i] ) > 1e-12 )
                return mon::fail( "binormal-degenerate", text );
        }
        else
        {
            e[i] = ( b[i] - c * a[i] ) / s;
            h[i] = ( a[i] + e[i] ) / std::sqrt( 2.0 );
        }
    }
    auto F = []( double x ) { return double( Phi( x ) ); };
    if( ks( a, F ) > KS || ks( b, F ) > KS )
        mon::fail( "binormal-marginal", text );
    serial( "binormal-serial", a, a, F, F, text );
    serial( "binormal-serial", a, b, F, F, text );
    serial( "binormal-serial", b, a, F, F, text );
    serial( "binormal-serial", b, b, F, F, text );
    if( s != 0 && ( ks( e, F ) > KS || ks( h, F ) > KS ) )
        mon::fail( "binormal-covariance", text );
    if( std::abs( prod / double( N ) - c ) > 8 * std::sqrt( ( 1 + c * c ) / double( N ) ) )
        mon::fail( "binormal-covariance", text + mon::str( " sample covariance ", prod / double( N ) ) );
    mon::stat( "bivariate_normal" );
    mon::stat( "samples", N );
    mon::key( text );
}

double normal_quantile( double u )
{
    return -std::sqrt( 2.0 ) * boost::math::erfc_inv( 2 * std::clamp( u, 1e-300, 1 - 1e-16 ) );
}

void copula( R & r )
{
    double c = r.chance( 0.1 ) ? 0.0 : r.chance( 0.15 ) ? 1.0 : r.chance( 0.2 ) ? 1 - std::pow( 10.0, r.uni( -2.5, -1 ) ) : r.uni( 0, 0.95 );
    if( r.chance( 0.5 ) )
        c = -c;
    const double s = std::sqrt( 1 - c * c );
    double eps = std::pow( 10.0, r.uni( -3, -0.3 ) ), g = r.uni( 2.05, 4 ), mean = r.uni( 0.5, 2 ), sigma = r.uni( 0.1, 1 ), e2 = r.uni( 0.01, 0.4 );
    power_law_distribution<> p( eps, g );
    truncated_normal_distribution<> t( mean, sigma, e2 );
    bivariate_gaussian_copula d( c, p, t );
    std::mt19937 gen( r.next() );
    auto text      = mon::str( "copula covariance=", c, " eps=", eps, " gamma=", g, " mean=", mean, " sigma=", sigma, " eps2=", e2 );
    const size_t N = 20000;
    long double norm = powl( eps, 1 - g ) - 1, up = Phi( -( e2 - mean ) / sigma );
    auto F1 = [&]( double x ) { return double( ( powl( eps, 1 - g ) - powl( x, 1 - g ) ) / norm ); };
    auto F2 = [&]( double x ) { return double( 1 - Phi( -( (long double)x - mean ) / sigma ) / up ); };
    std::vector<double> a( N ), b( N ), e( N ), h( N );
    double quadrant = 0;
    for( size_t i = 0; i < N; i++ )
    {
        auto z = d( gen );
        a[i] = z[0], b[i] = z[1];
        quadrant += ( F1( z[0] ) > 0.5 ) == ( F2( z[1] ) > 0.5 );
        // back to the normal distribution: what the second has besides its share of the first is independent of it
        auto z1 = normal_quantile( F1( z[0] ) ), z2 = normal_quantile( F2( z[1] ) );
        if( s == 0 )
        {
            if( std::abs( z2 - c * z1 ) > 1e-6 * ( 1 + std::exp( z1 * z1 / 2 ) * 1e-6 ) )
                return mon::fail( "copula-degenerate", text + mon::str( ": ", z[0], " with ", z[1] ) );
        }
        else
        {
            e[i] = ( z2 - c * z1 ) / s;
            h[i] = ( z1 + e[i] ) / std::sqrt( 2.0 );
        }
    }
    auto F = []( double x ) { return double( Phi( x ) ); };
    if( s != 0 && ( ks( e, F ) > KS || ks( h, F ) > KS ) )
        mon::fail( "copula-dependence", text );
    if( ks( a, F1 ) > KS )
        mon::fail( "copula-first-marginal", text );
    if( ks( b, F2 ) > KS )
        mon::fail( "copula-second-marginal", text );
    serial( "copula-serial", a, a, F1, F1, text );
    serial( "copula-serial", a, b, F1, F2, text );
    serial( "copula-serial", b, a, F2, F1, text );
    double q = 0.5 + std::asin( c ) / M_PI; // probability of the same side of both medians
    if( off( quadrant, double( N ), q ) )
        mon::fail( "copula-dependence", text + mon::str( ": ", quadrant / double( N ), " on the same side of the medians, expected ", q ) );
    mon::stat( "copula" );
    mon::stat( "samples", N );
    mon::key( text );
}

void inverse_erf( R & r )
{
    for( int i = 0; i < 400; i++ )
    {
        double x = r.chance( 0.4 ) ? r.uni( -1, 1 ) : r.chance( 0.5 ) ? 1 - std::pow( 10.0, r.uni( -15.5, 0 ) ) : std::pow( 10.0, r.uni( -300, 0 ) );
        if( i < 8 )
            x = std::array{ 0.0, 0.85, std::nextafter( 0.85, 1 ), std::nextafter( 1.0, 0 ), 0.5, 1 - 1e-11, 1 - 3e-11, 1e-308 }[i];
        if( r.chance( 0.5 ) )
            x = -x;
        double y = Math::erfinv( x );
        // relative error of the tail or of the value
        long double got = std::abs( x ) < 0.5 ? erfl( y ) : ( x > 0 ? erfcl( y ) : erfcl( -(long double)y ) );
        long double want = std::abs( x ) < 0.5 ? (long double)x : 1 - std::abs( (long double)x );
        if( !( fabsl( got - want ) <= 1e-12L * fabsl( want ) + 1e-320L ) )
            mon::fail( "erfinv", mon::str( "erfinv(", x, ") = ", y ) );
        if( Math::erfinv( -x ) != -y )
            mon::fail( "erfinv-odd", mon::str( "erfinv(", x, ")" ) );
        double x2 = x + ( 1 - x ) * r.uni( 0, 1 );
        if( x2 > x && x2 <= 1 && Math::erfinv( x2 ) < y - 1e-14 * std::abs( y ) )
            mon::fail( "erfinv-monotone", mon::str( "erfinv(", x, ") > erfinv(", x2, ")" ) );
    }
    const double inf = std::numeric_limits<double>::infinity();
    if( Math::erfinv( 1.0 ) != inf || Math::erfinv( -1.0 ) != -inf || !std::isnan( Math::erfinv( 1.0 + r.uni( 1e-15, 2 ) ) )
        || !std::isnan( Math::erfinv( -1.0 - r.uni( 1e-15, 2 ) ) ) || !std::isnan( Math::erfinv( std::nextafter( 1.0, 2 ) ) ) )
        mon::fail( "erfinv-limits", "values at and beyond the limits" );
    mon::stat( "erfinv", 400 );
}

// ---------------------------------------------------------------------------------------------------- text
void text( R & r, const std::string & dir )
{
    std::string s;
    size_t len = r.chance( 0.05 ) ? 3000 : r.chance( 0.001 ) ? 200000 : r.below( 25 );
    double p   = len > 1000 && r.chance( 0.4 ) ? 10.0 / double( len ) : r.uni( 0, 1 ); // long entries
    for( size_t i = 0; i < len; i++ )
        s += r.chance( p ) ? ',' : "ab 0.1-\t\n;'\\\"x9"[r.below( 16 )];
    std::vector<std::string> want( 1 ), got;
    for( char c : s )
        if( c == ',' )
            want.emplace_back();
        else
            want.back() += c;
    std::vector<int> index;
    auto cb = [&]( int i, std::string & sub )
    {
        index.push_back( i );
        got.push_back( sub );
    };
    parse_comma_separated_list( s, cb );
    bool ok = got == want;
    for( size_t i = 0; i < index.size(); i++ )
        ok = ok && index[i] == int( i );
    if( !ok )
        mon::fail( "comma-list", mon::str( "'", s.substr( 0, 2000 ), "' gives ", mon::join( got ).substr( 0, 2000 ), " (", got.size(), " entries instead of ", want.size(), ")" ) );
    mon::stat( "lists" );
    mon::stat( "entries", got.size() );
    if( want.size() > 1 )
        mon::key( s );

    size_t n = r.chance( 0.001 ) ? r.below( 200000 ) : r.below( 40 ), diff = 0;
    std::vector<int> a( n ), b( n );
    for( size_t i = 0; i < n; i++ )
    {
        a[i] = int( r.below( 3 ) ) - 1;
        b[i] = r.chance( 0.5 ) ? a[i] : int( r.below( 3 ) ) - 1;
        diff += a[i] != b[i];
    }
    if( hamming_distance( std::span( a ), std::span( b ) ) != int( diff ) || hamming_distance( std::span( b ), std::span( a ) ) != int( diff ) )
        mon::fail( "hamming", mon::str( mon::join( a ).substr( 0, 1000 ), " / ", mon::join( b ).substr( 0, 1000 ), " differ in ", diff ) );
    b.resize( n + 1 + r.below( 3 ) );
    for( int order = 0; order < 2; order++ )
    {
        bool thrown = false;
        try
        {
            order ? hamming_distance( std::span( a ), std::span( b ) ) : hamming_distance( std::span( b ), std::span( a ) );
        }
        catch( const std::exception & )
        {
            thrown = true;
        }
        if( !thrown )
            mon::fail( "hamming-sizes", mon::str( "vectors of ", a.size(), " and ", b.size(), " entries compared" ) );
    }
    if( r.chance( 0.01 ) )
    {
        auto f = dir + mon::str( "/f", r.next() );
        std::string content( r.below( r.chance( 0.05 ) ? 6000000 : 70000 ), 0 );
        for( size_t i = 0; i < content.size(); i += 8 )
        {
            uint64_t v = r.next();
            std::memcpy( &content[i], &v, std::min<size_t>( 8, content.size() - i ) );
        }
        static const std::vector<std::string> special{ "\xEF\xBB\xBF", "\xFF\xFE", "\x1a", "\n", "\r\n", "\r", std::string( 1, '\0' ), "\x04", " ", "\t", "\xFF", "\n\n" };
        if( r.chance( 0.5 ) )
            content = special[r.below( special.size() )] + content;
        if( r.chance( 0.5 ) )
            content += special[r.below( special.size() )];
        if( r.chance( 0.1 ) )
            content = special[r.below( special.size() )];
        std::ofstream( f, std::ios::binary ) << content;
        if( get_file_contents( f ) != content )
            mon::fail( "file-contents", f );
        std::filesystem::remove( f );
        bool thrown = false;
        try
        {
            get_file_contents( f );
        }
        catch( const std::exception & )
        {
            thrown = true;
        }
        if( !thrown )
            mon::fail( "missing-file", f );
        mon::stat( "files" );
    }
}

int main( int argc, char ** argv )
{
    std::string cmd = argv[1];
    R r( std::stoull( argv[2] ) );
    size_t count = std::stoul( argv[3] );
    for( size_t c = 0; c < count && mon::n_fail < 20; c++ )
    {
        if( cmd == "draw" )
            draw( r );
        else if( cmd == "res" )
            res( r );
        else if( cmd == "text" )
            text( r, argv[4] );
        else
        {
            power( r );
            truncnorm( r );
            binormal( r );
            copula( r );
            inverse_erf( r );
            mon::stat( "rounds" );
        }
    }
    mon::done();
    return 0;
}
