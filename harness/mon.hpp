#pragma once
// Shared by the in-process monitors: random numbers of their own, and reporting
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <iterator>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <tuple>
#include <vector>

namespace mon
{
struct R // splitmix64
{
    uint64_t s;
    explicit R( uint64_t seed ) : s( seed * 0x9e3779b97f4a7c15ull + 12345 ) {}
    uint64_t next()
    {
        uint64_t z = ( s += 0x9e3779b97f4a7c15ull );
        z          = ( z ^ ( z >> 30 ) ) * 0xbf58476d1ce4e5b9ull;
        z          = ( z ^ ( z >> 27 ) ) * 0x94d049bb133111ebull;
        return z ^ ( z >> 31 );
    }
    size_t below( size_t n )
    {
        return n ? next() % n : 0;
    }
    double uni( double a, double b )
    {
        return a + ( b - a ) * double( next() >> 11 ) * 0x1p-53;
    }
    bool chance( double p )
    {
        return uni( 0, 1 ) < p;
    }
    template<typename V>
    void shuffle( V & v )
    {
        for( size_t i = v.size(); i > 1; i-- )
            std::swap( v[i - 1], v[below( i )] );
    }
};

inline size_t n_fail = 0;
inline std::map<std::string, size_t> stats;
inline std::set<size_t> keys;

template<typename... T>
std::string str( const T &... t )
{
    std::ostringstream o;
    o.precision( 17 );
    ( o << ... << t );
    return o.str();
}
template<typename V>
std::string join( const V & v )
{
    std::ostringstream o;
    o.precision( 17 );
    size_t k = 0;
    for( const auto & x : v )
    {
        if( k++ )
            o << ",";
        if( k > 60 )
        {
            o << "...";
            break;
        }
        o << x;
    }
    return o.str();
}
inline void fail( const std::string & key, std::string text )
{
    n_fail++;
    std::replace( text.begin(), text.end(), '\n', ' ' );
    if( n_fail < 50 )
        std::printf( "FAIL %s %s\n", key.c_str(), text.substr( 0, 2500 ).c_str() );
    std::fflush( stdout );
}
// a failure that is a known finding must not end the run early
inline void note( const std::string & key, const std::string & text )
{
    static std::map<std::string, size_t> seen;
    if( seen[key]++ == 0 )
    {
        fail( key, text );
        n_fail--;
    }
}
inline void stat( const std::string & name, size_t n = 1 )
{
    stats[name] += n;
}
inline size_t n_samples = 0;
inline void key( const std::string & s )
{
    if( n_samples++ < 3 )
        std::printf( "CASE %s\n", s.substr( 0, 300 ).c_str() );
    keys.insert( std::hash<std::string>{}( s ) );
}
inline void done()
{
    for( auto & [k, v] : stats )
        std::printf( "STAT %s %zu\n", k.c_str(), v );
    std::printf( "KEYS %zu\nDONE\n", keys.size() );
    std::fflush( stdout );
}
} // namespace mon
