// Monitors for the network class, its generators and its file formats. Only the public interface is used.
//   hist  SEED COUNT      random histories of mutations against a reference edge list
//   alg   SEED COUNT      toggle / transpose / switch against the edge set
//   dbl   SEED COUNT      remove_double_counting
//   scc   SEED COUNT BIG  strongly connected components, exhaustive small + random, and one of BIG nodes
//   gen   SEED COUNT      generators
//   netio DIR SEED COUNT  network file round trip
//   agio  DIR SEED COUNT  agent file round trip
//   dot   SEED COUNT DIR  DOT export
// Output: FAIL <key> <text>, STAT <name> <count>, CASE <text>, at the end DONE
#include "agent_io.hpp"
#include "agents/activity_agent.hpp"
#include "agents/discrete_vector_agent.hpp"
#include "agents/inertial_agent.hpp"
#include "agents/simple_agent.hpp"
#include "network.hpp"
#include "network_generation.hpp"
#include "network_io.hpp"
#include "mon.hpp"
#include <map>
#include <numeric>
#include <regex>

using namespace Seldon;
using mon::R;

struct E
{
    size_t to;
    double w;
};

template<typename NetT>
struct Ref
{
    using W = typename NetT::WeightT;
    bool incoming = true;
    std::vector<std::vector<std::pair<size_t, W>>> rows;
};

template<typename NetT>
bool is_incoming( const NetT & n )
{
    return n.direction() == NetT::EdgeDirection::Incoming;
}

template<typename NetT>
std::vector<std::vector<std::pair<size_t, typename NetT::WeightT>>> rows_of( const NetT & n )
{
    std::vector<std::vector<std::pair<size_t, typename NetT::WeightT>>> r( n.n_agents() );
    for( size_t i = 0; i < n.n_agents(); i++ )
    {
        auto nb = n.get_neighbours( i );
        auto w  = n.get_weights( i );
        if( nb.size() != w.size() )
            mon::fail( "row-sizes", mon::str( "agent ", i, ": ", nb.size(), " neighbours and ", w.size(), " weights" ) );
        for( size_t k = 0; k < std::min( nb.size(), w.size() ); k++ )
            r[i].push_back( { nb[k], w[k] } );
    }
    return r;
}

// directed triples (from, to, weight)
template<typename NetT>
std::vector<std::tuple<size_t, size_t, typename NetT::WeightT>> triples( const NetT & n, bool reversed = false )
{
    std::vector<std::tuple<size_t, size_t, typename NetT::WeightT>> t;
    auto rows = rows_of( n );
    for( size_t i = 0; i < rows.size(); i++ )
        for( auto & [j, w] : rows[i] )
        {
            size_t from = i, to = j;
            if( is_incoming( n ) )
                std::swap( from, to );
            if( reversed )
                std::swap( from, to );
            t.push_back( { from, to, w } );
        }
    std::sort( t.begin(), t.end() );
    return t;
}

template<typename W>
W weight( R & r )
{
    if( r.chance( 0.1 ) )
        return W( 0 );
    if( r.chance( 0.5 ) )
        return W( r.below( 19 ) ) - W( 9 );
    return W( r.uni( -2, 2 ) );
}

template<typename NetT>
std::string show( const NetT & n )
{
    std::string s = is_incoming( n ) ? "in " : "out ";
    auto r        = rows_of( n );
    for( size_t i = 0; i < r.size(); i++ )
    {
        s += mon::str( i, ":{" );
        for( auto & [j, w] : r[i] )
            s += mon::str( j, "*", w, " " );
        s += "} ";
        if( s.size() > 3000 )
            return s + "...";
    }
    return s;
}

template<typename NetT>
NetT random_net( R & r, size_t n, double density, std::vector<std::vector<std::pair<size_t, typename NetT::WeightT>>> * out = nullptr,
                 bool dups = true, bool * incoming = nullptr )
{
    const bool multi = dups && r.chance( 0.1 ); // bundles of parallel edges
    using W = typename NetT::WeightT;
    std::vector<std::vector<size_t>> nb( n );
    std::vector<std::vector<W>> ws( n );
    // Networks in which some regularity holds for all agents
    const size_t shape = n > 0 && r.chance( 0.15 ) ? 1 + r.below( 8 ) : 0;
    const size_t deg = 1 + r.below( 3 ), hub = n > 0 ? r.below( n ) : 0;
    const bool same_weight = shape && r.chance( 0.3 );
    std::vector<size_t> perm( n );
    std::iota( perm.begin(), perm.end(), 0 );
    r.shuffle( perm );
    if( shape )
        mon::stat( "regular_networks" );
    for( size_t i = 0; i < n; i++ )
    {
        switch( shape )
        {
            case 1: nb[i] = { perm[i] }; break;                                  // a permutation
            case 2:                                                              // everybody has deg
                for( size_t k = 0; k < deg; k++ )
                    nb[i].push_back( r.below( n ) );
                break;
            case 3: nb[i] = { hub }; break;                                      // into one
            case 4:                                                              // out of one
                if( i == hub )
                    nb[i] = perm;
                break;
            case 5: nb[i] = { ( i + 1 ) % n }; break;                            // a ring
            case 6:                                                              // a ring both ways, with duplicates for n <= 2
                nb[i] = { ( i + n - 1 ) % n, ( i + 1 ) % n };
                break;
            case 7: nb[i] = { i }; break;                                        // only self connections
            case 8:
                if( i + 1 < n )
                    nb[i] = { i + 1 }; // a chain
                break;
            default:
                for( size_t j = 0; j < n; j++ )
                    if( r.chance( density ) )
                        nb[i].push_back( j );
        }
        if( shape )
        {
            const W w = weight<W>( r );
            for( size_t k = 0; k < nb[i].size(); k++ )
                ws[i].push_back( same_weight ? w : weight<W>( r ) );
            continue;
        }
        if( dups && !nb[i].empty() && r.chance( 0.3 ) )
            nb[i].push_back( nb[i][r.below( nb[i].size() )] );
        r.shuffle( nb[i] );
        if( multi )
        {
            auto once = nb[i];
            nb[i].clear();
            for( size_t j : once )
                nb[i].insert( nb[i].end(), 1 + r.below( 5 ), j );
            if( r.chance( 0.3 ) )
                r.shuffle( nb[i] );
        }
        for( size_t k = 0; k < nb[i].size(); k++ )
            ws[i].push_back( weight<W>( r ) );
    }
    if( out )
    {
        out->assign( n, {} );
        for( size_t i = 0; i < n; i++ )
            for( size_t k = 0; k < nb[i].size(); k++ )
                ( *out )[i].push_back( { nb[i][k], ws[i][k] } );
    }
    auto dir = r.chance( 0.5 ) ? NetT::EdgeDirection::Incoming : NetT::EdgeDirection::Outgoing;
    if( incoming )
        *incoming = dir == NetT::EdgeDirection::Incoming;
    return NetT( std::move( nb ), std::move( ws ), dir );
}

// one agent is connected with everybody, some others with many
template<typename NetT>
NetT hub_net( R & r, size_t n )
{
    using W = typename NetT::WeightT;
    std::vector<std::vector<size_t>> nb( n );
    std::vector<std::vector<W>> ws( n );
    const size_t hub = r.below( n );
    for( size_t i = 0; i < n; i++ )
    {
        const size_t deg = i == hub ? n : r.chance( 0.001 ) ? r.below( 400 ) : r.below( 2 );
        const bool back  = r.chance( 0.5 );
        for( size_t k = 0; k < deg; k++ )
        {
            nb[i].push_back( i == hub ? k : back ? hub : r.below( n ) );
            ws[i].push_back( weight<W>( r ) );
        }
    }
    mon::stat( "hub_networks" );
    return NetT( std::move( nb ), std::move( ws ), r.chance( 0.5 ) ? NetT::EdgeDirection::Incoming : NetT::EdgeDirection::Outgoing );
}

// ---------------------------------------------------------------------------------------------------- histories
template<typename NetT>
void set_agent( NetT & n, size_t i, double v )
{
    if constexpr( std::is_same_v<typename NetT::AgentT, SimpleAgent> )
        n.agents[i].data.opinion = v;
    else
        n.agents[i] = v;
}
template<typename NetT>
double get_agent( const NetT & n, size_t i )
{
    if constexpr( std::is_same_v<typename NetT::AgentT, SimpleAgent> )
        return n.agents[i].data.opinion;
    else
        return n.agents[i];
}

template<typename NetT>
void compare( const NetT & net, const Ref<NetT> & ref, const std::vector<double> & ag, const std::string & hist, const char * what )
{
    auto bad = [&]( const std::string & s )
    { mon::fail( what, s + " after " + ( hist.size() > 900 ? hist.substr( hist.size() - 900 ) : hist ) ); };
    const size_t n = ref.rows.size();
    if( net.n_agents() != n )
        return bad( mon::str( "n_agents ", net.n_agents(), " expected ", n ) );
    if( is_incoming( net ) != ref.incoming )
        bad( "direction differs" );
    size_t total = 0;
    for( size_t i = 0; i < n; i++ )
    {
        total += ref.rows[i].size();
        if( net.n_edges( i ) != ref.rows[i].size() )
            bad( mon::str( "n_edges(", i, ") = ", net.n_edges( i ), " expected ", ref.rows[i].size() ) );
        if( get_agent( net, i ) != ag[i] )
            bad( mon::str( "agent ", i, " changed" ) );
    }
    if( net.n_edges() != total )
        bad( mon::str( "n_edges() = ", net.n_edges(), " expected ", total ) );
    if( rows_of( net ) != ref.rows )
        bad( "edges are " + show( net ) );
}

template<typename NetT>
void hist( R & r )
{
    using W        = typename NetT::WeightT;
    const size_t n = r.chance( 0.1 ) ? 0 : r.chance( 0.02 ) ? 20 + r.below( 60 ) : 1 + r.below( 7 );
    Ref<NetT> ref;
    std::string h;
    NetT net;
    std::vector<double> ag( n );
    switch( r.below( 3 ) )
    {
        case 0:
            net = NetT( n );
            ref.rows.resize( n );
            h = mon::str( "Network(", n, ")" );
            break;
        case 1:
            net = NetT( std::vector<typename NetT::AgentT>( n ) );
            ref.rows.resize( n );
            h = mon::str( "Network(agents of size ", n, ")" );
            break;
        default:
            net = random_net<NetT>( r, n, r.uni( 0, 1 ), &ref.rows, true, &ref.incoming );
            h            = "Network(lists)";
    }
    for( size_t i = 0; i < n; i++ )
        set_agent( net, i, ag[i] = r.uni( -1, 1 ) );
    compare( net, ref, ag, h, "construct" );
    struct Kept
    {
        NetT net;
        Ref<NetT> ref;
        std::vector<double> ag;
    };
    std::vector<Kept> kept; // copies of earlier states, nothing that happens later must change them
    NetT reused = random_net<NetT>( r, r.below( 5 ), 0.5 );
    size_t steps = 3 + r.below( 25 );
    for( size_t s = 0; s < steps && n > 0; s++ )
    {
        size_t i = r.below( n ), k = r.chance( 0.02 ) ? r.below( 300 ) : r.below( 2 * n + 1 );
        std::vector<size_t> nb( k );
        std::vector<W> ws( k );
        for( size_t q = 0; q < k; q++ )
        {
            nb[q] = r.below( n );
            ws[q] = weight<W>( r );
        }
        auto copy_row = [&]( size_t a )
        {
            ref.rows[a].clear();
            for( size_t q = 0; q < nb.size(); q++ )
                ref.rows[a].push_back( { nb[q], ws[q] } );
        };
        const char * op = "";
        switch( r.below( 15 ) )
        {
            case 0: {
                op   = "set-neighbours-constant-weight";
                W w  = weight<W>( r );
                net.set_neighbours_and_weights( i, nb, w );
                ws.assign( k, w );
                copy_row( i );
                break;
            }
            case 1:
                op = "set-neighbours-weights";
                net.set_neighbours_and_weights( i, std::span<const size_t>( nb ), std::span<const W>( ws ) );
                copy_row( i );
                break;
            case 2: {
                op = "set-weights";
                ws.resize( ref.rows[i].size() );
                for( auto & w : ws )
                    w = weight<W>( r );
                net.set_weights( i, ws );
                for( size_t q = 0; q < ws.size(); q++ )
                    ref.rows[i][q].second = ws[q];
                break;
            }
            case 3: {
                op          = "set-weights-wrong-size";
                size_t want = r.below( 2 * n + 3 );
                if( want == ref.rows[i].size() )
                    want++;
                ws.assign( want, W( 7 ) );
                bool thrown = false;
                try
                {
                    net.set_weights( i, ws );
                }
                catch( const std::exception & )
                {
                    thrown = true;
                }
                if( !thrown )
                    mon::fail( op, mon::str( ws.size(), " weights accepted for ", ref.rows[i].size(), " neighbours" ) );
                mon::stat( "rejected" );
                break;
            }
            case 4: {
                op          = "set-both-wrong-size";
                size_t want = r.below( 2 * n + 3 );
                if( want == nb.size() )
                    want++;
                ws.assign( want, W( 7 ) );
                bool thrown = false;
                try
                {
                    net.set_neighbours_and_weights( i, std::span<const size_t>( nb ), std::span<const W>( ws ) );
                }
                catch( const std::exception & )
                {
                    thrown = true;
                }
                if( !thrown )
                    mon::fail( op, mon::str( ws.size(), " weights accepted for ", nb.size(), " neighbours" ) );
                mon::stat( "rejected" );
                break;
            }
            case 5:
            case 6: {
                op       = "push-back";
                size_t j = r.below( n );
                W w      = weight<W>( r );
                net.push_back_neighbour_and_weight( i, j, w );
                ref.rows[i].push_back( { j, w } );
                break;
            }
            case 7:
                op = "clear";
                if( r.chance( 0.5 ) )
                {
                    net.clear();
                    for( auto & row : ref.rows )
                        row.clear();
                }
                break;
            case 8: {
                op = "write-through-view";
                auto wv = net.get_weights( i );
                auto nv = net.get_neighbours( i );
                for( size_t q = 0; q < ref.rows[i].size(); q++ )
                {
                    wv[q] = ref.rows[i][q].second = weight<W>( r );
                    nv[q] = ref.rows[i][q].first = r.below( n );
                }
                break;
            }
            case 9: {
                op            = "copy-is-independent";
                NetT other    = net;
                Ref<NetT> ro  = ref;
                compare( other, ro, ag, h + " copy", "copy" );
                size_t what = r.below( 4 );
                if( what == 0 )
                    other.clear();
                else if( what == 1 )
                    other.push_back_neighbour_and_weight( i, i, W( 3 ) );
                else if( what == 2 )
                    other.toggle_incoming_outgoing();
                else
                {
                    set_agent( other, i, 5.0 );
                    other.switch_direction_flag();
                }
                if( r.chance( 0.3 ) )
                {
                    // keep the moved-to network instead
                    NetT third = std::move( net );
                    net        = std::move( third );
                }
                break;
            }
            case 10: {
                op       = "copy-row";
                size_t j = r.below( n );
                nb.clear();
                ws.clear();
                for( auto & [q, w] : ref.rows[j] )
                {
                    nb.push_back( q );
                    ws.push_back( w );
                }
                if( j != i )
                {
                    const NetT & c = net;
                    net.set_neighbours_and_weights( i, c.get_neighbours( j ), c.get_weights( j ) );
                    copy_row( i );
                }
                break;
            }
            case 11:
                op = "switch-flag";
                net.switch_direction_flag();
                ref.incoming = !ref.incoming;
                break;
            case 12: {
                op = "restructure";
                // the order within the rows is free here, take it over after comparing the sets of edges
                auto before = triples( net );
                bool inc    = is_incoming( net );
                size_t what = r.below( 2 );
                if( what == 0 )
                    net.toggle_incoming_outgoing();
                else
                    net.transpose();
                if( triples( net, what == 1 ) != before || is_incoming( net ) != ( what == 1 ? inc : !inc ) )
                    mon::fail( op, "edges are " + show( net ) + " after " + h );
                ref.rows     = rows_of( net );
                ref.incoming = is_incoming( net );
                break;
            }
            case 13: {
                op = "assign";
                if( kept.size() < 3 )
                    kept.push_back( { net, ref, ag } );
                switch( r.below( 4 ) )
                {
                    case 0: reused = net; break; // over the contents of another network
                    case 1:
                        reused = net;
                        net    = NetT();
                        net    = std::move( reused );
                        reused = random_net<NetT>( r, r.below( 5 ), 0.5 );
                        break;
                    case 2: {
                        reused = net;
                        std::swap( net, reused );
                        reused.clear();
                        break;
                    }
                    default: // go on with an earlier state
                        if( !kept.empty() )
                        {
                            auto & back = kept[r.below( kept.size() )];
                            net         = back.net;
                            ref         = back.ref;
                            ag          = back.ag;
                        }
                }
                break;
            }
            default: {
                op           = "agents";
                ag[i]        = r.uni( -1, 1 );
                set_agent( net, i, ag[i] );
            }
        }
        h += mon::str( " ", op, "(", i, ",", k, ")" );
        compare( net, ref, ag, h, op );
        mon::stat( std::string( "op_" ) + op );
        if( mon::n_fail > 20 )
            return;
    }
    for( auto & k : kept )
        compare( k.net, k.ref, k.ag, h, "earlier-copy" );
    mon::stat( "copies_kept", kept.size() );
    mon::stat( "histories" );
    mon::key( h );
}

// ---------------------------------------------------------------------------------------------------- algebra
template<typename NetT>
void alg( R & r )
{
    const bool hub = r.chance( 0.003 );
    const size_t n = hub ? ( r.chance( 0.04 ) ? 70000 : 300 + r.below( 2000 ) ) : r.chance( 0.01 ) ? 30 + r.below( 300 ) : r.chance( 0.1 ) ? r.below( 30 ) : r.below( 9 );
    auto net       = hub ? hub_net<NetT>( r, n ) : random_net<NetT>( r, n, n <= 9 ? r.uni( 0, 1 ) : r.chance( 0.2 ) ? 0.0 : r.uni( 0, 10.0 / double( n ) ) );
    std::string h  = show( net );
    for( size_t i = 0; i < n; i++ )
        set_agent( net, i, double( i ) + 0.5 );
    auto want  = triples( net );
    bool inc   = is_incoming( net );
    size_t len = 1 + r.below( 6 );
    for( size_t s = 0; s < len; s++ )
    {
        const char * op = "";
        bool reverse = false;
        auto start   = rows_of( net );
        switch( r.below( 3 ) )
        {
            case 0:
                op = "toggle";
                net.toggle_incoming_outgoing();
                inc = !inc;
                break;
            case 1:
                op = "transpose";
                net.transpose();
                reverse = true;
                break;
            default:
                op = "switch";
                net.switch_direction_flag();
                inc     = !inc;
                reverse = true;
                if( rows_of( net ) != start )
                    mon::fail( op, "the flag switch changed the lists: " + show( net ) );
        }
        if( reverse )
        {
            for( auto & [a, b, w] : want )
                std::swap( a, b );
            std::sort( want.begin(), want.end() );
        }
        h += mon::str( " ", op );
        if( is_incoming( net ) != inc )
            mon::fail( std::string( op ) + "-direction", h );
        if( triples( net ) != want )
            mon::fail( std::string( op ) + "-edges", h + " -> " + show( net ) );
        size_t total = 0;
        for( size_t i = 0; i < n; i++ )
        {
            total += net.n_edges( i );
            if( get_agent( net, i ) != double( i ) + 0.5 )
                mon::fail( std::string( op ) + "-agents", h );
        }
        if( net.n_agents() != n || total != want.size() || net.n_edges() != want.size() )
            mon::fail( std::string( op ) + "-count", h );
        mon::stat( op );
    }
    if( !want.empty() )
        mon::key( h );
    mon::stat( "sequences" );
}

// ---------------------------------------------------------------------------------------------------- double counting
template<typename NetT>
void dbl( R & r )
{
    using W        = typename NetT::WeightT;
    const size_t n = r.chance( 0.01 ) ? 40 + r.below( 400 ) : r.below( 12 );
    NetT net( n );
    bool integers = r.chance( 0.5 );
    for( size_t i = 0; i < n; i++ )
    {
        size_t k     = r.chance( 0.01 ) ? r.below( 700 ) : r.chance( 0.2 ) ? r.below( 60 ) : r.below( 8 );
        size_t range = 1 + r.below( n );
        for( size_t q = 0; q < k; q++ )
            net.push_back_neighbour_and_weight(
                i, r.below( range ), integers ? W( r.below( 21 ) ) - W( 10 ) : W( r.uni( -1, 1 ) ) );
        set_agent( net, i, double( i ) + 0.5 );
    }
    if( r.chance( 0.5 ) )
        net.switch_direction_flag();
    bool inc   = is_incoming( net );
    auto start = rows_of( net );
    auto text  = show( net );
    net.remove_double_counting();
    auto end = rows_of( net );
    if( is_incoming( net ) != inc || net.n_agents() != n )
        mon::fail( "direction", text );
    size_t merged = 0;
    for( size_t i = 0; i < n; i++ )
    {
        std::map<size_t, std::pair<long double, long double>> sum;
        for( auto & [j, w] : start[i] )
        {
            sum[j].first += w;
            sum[j].second += std::abs( w );
        }
        if( get_agent( net, i ) != double( i ) + 0.5 )
            mon::fail( "agents", text );
        for( size_t k = 1; k < end[i].size(); k++ )
            if( end[i][k].first <= end[i][k - 1].first )
                mon::fail( "order", mon::str( "row ", i, " of ", text, " becomes ", show( net ) ) );
        bool ok = end[i].size() == sum.size() && net.n_edges( i ) == sum.size();
        for( auto & [j, w] : end[i] )
            ok = ok && sum.count( j )
                 && std::abs( (long double)w - sum[j].first )
                        <= ( integers ? 0.0L : sum[j].second * 64 * std::numeric_limits<W>::epsilon() );
        if( !ok )
            mon::fail( "merge", mon::str( "row ", i, " of ", text, " becomes ", show( net ) ) );
        merged += start[i].size() - sum.size();
    }
    net.remove_double_counting();
    if( rows_of( net ) != end )
        mon::fail( "idempotent", text );
    mon::stat( "networks" );
    mon::stat( "edges_merged", merged );
    if( merged )
        mon::key( text );
}

// ---------------------------------------------------------------------------------------------------- SCC
using Adj = std::vector<std::vector<size_t>>;

Network<double> net_of( const Adj & a, bool outgoing = false )
{
    Adj nb = a;
    std::vector<std::vector<double>> w( a.size() );
    for( size_t i = 0; i < a.size(); i++ )
        w[i].assign( a[i].size(), 0.25 );
    return Network<double>( std::move( nb ), std::move( w ),
                            outgoing ? Network<double>::EdgeDirection::Outgoing : Network<double>::EdgeDirection::Incoming );
}

size_t check_scc( const Adj & a, const std::string & name, bool outgoing = false )
{
    const size_t n = a.size();
    auto net       = net_of( a, outgoing );
    auto scc       = net.strongly_connected_components();
    std::vector<size_t> id( n, n + 1 );
    for( size_t c = 0; c < scc.size(); c++ )
    {
        if( scc[c].empty() )
            mon::fail( "empty-component", name );
        for( size_t v : scc[c] )
        {
            if( v >= n || id[v] != n + 1 )
            {
                mon::fail( "not-a-partition", name );
                return 0;
            }
            id[v] = c;
        }
    }
    for( size_t v = 0; v < n; v++ )
        if( id[v] == n + 1 )
        {
            mon::fail( "not-a-partition", name + mon::str( " vertex ", v, " is in no component" ) );
            return 0;
        }
    // reachability by bit sets
    std::vector<std::vector<char>> reach( n, std::vector<char>( n ) );
    for( size_t s = 0; s < n; s++ )
    {
        std::vector<size_t> todo{ s };
        reach[s][s] = 1;
        while( !todo.empty() )
        {
            size_t v = todo.back();
            todo.pop_back();
            for( size_t u : a[v] )
                if( !reach[s][u] )
                {
                    reach[s][u] = 1;
                    todo.push_back( u );
                }
        }
    }
    for( size_t v = 0; v < n; v++ )
        for( size_t u = 0; u < n; u++ )
            if( ( id[u] == id[v] ) != ( reach[u][v] && reach[v][u] ) )
            {
                std::string t = name + " adjacency ";
                for( auto & row : a )
                    t += mon::str( "{", mon::join( row ), "}" );
                mon::fail( "components", t + mon::str( ": vertices ", u, " and ", v ) );
                return 0;
            }
    mon::stat( "graphs" );
    mon::stat( "components", scc.size() );
    return scc.size();
}

// against two linear searches (Kosaraju)
void check_large( const Adj & a, const std::string & kind )
{
    const size_t n = a.size();
    Adj b( n );
    for( size_t i = 0; i < n; i++ )
        for( size_t j : a[i] )
            b[j].push_back( i );
    std::vector<size_t> order, id( n, n );
    std::vector<char> seen( n );
    for( size_t s = 0; s < n; s++ )
    {
        if( seen[s] )
            continue;
        std::vector<std::pair<size_t, size_t>> path{ { s, 0 } };
        seen[s] = 1;
        while( !path.empty() )
        {
            auto [v, k] = path.back();
            if( k == a[v].size() )
            {
                order.push_back( v );
                path.pop_back();
                continue;
            }
            path.back().second++;
            if( !seen[a[v][k]] )
            {
                seen[a[v][k]] = 1;
                path.push_back( { a[v][k], 0 } );
            }
        }
    }
    size_t components = 0;
    std::vector<size_t> size;
    for( size_t q = n; q-- > 0; )
    {
        if( id[order[q]] != n )
            continue;
        std::vector<size_t> todo{ order[q] };
        id[order[q]] = components;
        size.push_back( 0 );
        while( !todo.empty() )
        {
            size_t v = todo.back();
            todo.pop_back();
            size[components]++;
            for( size_t u : b[v] )
                if( id[u] == n )
                {
                    id[u] = components;
                    todo.push_back( u );
                }
        }
        components++;
    }
    auto scc  = net_of( a ).strongly_connected_components();
    auto name = mon::str( kind, " of ", n, " vertices with ", components, " components" );
    std::vector<char> used( n );
    size_t total = 0;
    bool ok      = scc.size() == components;
    for( auto & comp : scc )
    {
        ok = ok && !comp.empty() && comp.size() == size[id[comp[0]]];
        for( size_t v : comp )
        {
            ok = ok && v < n && !used[v] && id[v] == id[comp[0]];
            if( v < n )
                used[v] = 1;
            total++;
        }
    }
    if( !ok || total != n )
        mon::fail( "components", name + mon::str( ": ", scc.size(), " reported" ) );
    mon::stat( "large_random_graphs" );
    mon::stat( "components", components );
}

void scc( R & r, size_t count, size_t big )
{
    for( size_t n = 0; n <= 4; n++ )
        for( size_t mask = 0; mask < ( size_t( 1 ) << ( n * n ) ); mask++ )
        {
            Adj a( n );
            for( size_t i = 0; i < n; i++ )
                for( size_t j = 0; j < n; j++ )
                    if( mask >> ( i * n + j ) & 1 )
                        a[i].push_back( j );
            if( n == 4 )
                for( auto & row : a )
                    r.shuffle( row );
            check_scc( a, mon::str( "all graphs of ", n ) );
            if( mon::n_fail > 10 )
                return;
        }
    for( size_t c = 0; c < count && mon::n_fail < 10; c++ )
    {
        size_t n = 5 + r.below( r.chance( 0.1 ) ? 80 : 12 );
        Adj a( n );
        double p = r.uni( 0, r.chance( 0.5 ) ? 2.5 : 1.0 ) / double( n );
        for( size_t i = 0; i < n; i++ )
            for( size_t j = 0; j < n; j++ )
                if( r.chance( p ) )
                    a[i].push_back( j );
        if( r.chance( 0.5 ) ) // some cycles
            for( size_t q = 0; q < 2; q++ )
            {
                size_t len = 2 + r.below( n - 1 ), first = r.below( n ), prev = first;
                for( size_t k = 0; k < len; k++ )
                {
                    size_t next = k + 1 == len ? first : r.below( n );
                    a[prev].push_back( next );
                    prev = next;
                }
            }
        for( auto & row : a )
            r.shuffle( row );
        size_t k = check_scc( a, "random", r.chance( 0.5 ) );
        std::string t;
        for( auto & row : a )
            t += mon::str( "{", mon::join( row ), "}" );
        if( k > 1 && k < n )
            mon::key( t );
    }
    // larger random ones
    for( size_t c = 0; c < 12 && mon::n_fail < 10; c++ )
    {
        const size_t n = 1000 + r.below( 20000 );
        Adj a( n );
        for( size_t e = size_t( r.uni( 0.5, 1.6 ) * double( n ) ); e > 0; e-- )
            a[r.below( n )].push_back( r.below( n ) );
        if( r.chance( 0.5 ) )
            for( size_t i = 0; i < n; i++ )
                if( r.chance( 0.5 ) )
                    a[i].push_back( std::min( n - 1, i + r.below( 5 ) ) );
        check_large( a, "random graph" );
    }
    // hubs: vertices with more neighbours than 16 bits can count
    for( size_t c = 0; c < 2 && mon::n_fail < 10; c++ )
    {
        const size_t n = r.chance( 0.5 ) ? 300 + r.below( 3000 ) : 66000 + r.below( 20000 );
        Adj a( n );
        for( size_t e = n; e > 0; e-- )
            a[r.below( n )].push_back( r.below( n ) );
        for( size_t h = 1 + r.below( 3 ), b = r.below( 3 ); h > 0; h-- )
        {
            auto & row = a[h == 1 ? b * ( n - 1 ) / 2 : r.below( n )];
            for( size_t k = 66000 + r.below( 70000 ); k > 0; k-- )
                row.push_back( r.below( n ) );
        }
        check_large( a, "graph with hubs" );
    }
    // deep ones: a path through all vertices, in a random order or not, with steps back
    for( size_t c = 0; c < 4 && mon::n_fail < 10; c++ )
    {
        const size_t n = big / 2 + r.below( big );
        std::vector<size_t> at( n );
        for( size_t i = 0; i < n; i++ )
            at[i] = i;
        if( r.chance( 0.5 ) )
            r.shuffle( at );
        Adj a( n );
        const double back = r.chance( 0.3 ) ? 1.0 : r.uni( 0, 0.9 );
        const size_t far  = r.chance( 0.5 ) ? 1 : 1 + r.below( 6 );
        const double jump = r.chance( 0.4 ) ? 0.0 : r.uni( 0, 0.6 );
        for( size_t i = 0; i < n; i++ )
        {
            if( i + 1 < n )
                a[at[i]].push_back( at[i + 1] );
            if( i > 0 && r.chance( back ) )
                a[at[i]].push_back( at[i - std::min( i, r.chance( 0.0001 ) ? r.below( n ) : 1 + r.below( far ) )] );
            if( r.chance( jump ) ) // branches: what is jumped over is entered later
                a[at[i]].push_back( at[std::min( n - 1, i + 2 + r.below( 5 ) )] );
            if( r.chance( 0.1 ) )
                a[at[i]].push_back( at[i] );
            if( r.chance( jump > 0 ? 0.5 : 0.2 ) )
                r.shuffle( a[at[i]] );
        }
        check_large( a, "deep graph" );
    }
    // deep and large ones
    Adj ring( big ), chain( big ), two( big );
    for( size_t i = 0; i < big; i++ )
    {
        ring[i] = { ( i + 1 ) % big };
        if( i + 1 < big )
            chain[i] = { i + 1 };
        two[i] = { ( i + 2 ) % big }; // two rings if big is even
    }
    auto sizes = [&]( const Adj & a )
    {
        std::vector<size_t> s;
        size_t total = 0;
        for( auto & c : net_of( a ).strongly_connected_components() )
        {
            s.push_back( c.size() );
            total += c.size();
        }
        std::sort( s.begin(), s.end() );
        if( total != big )
            mon::fail( "large", "not all vertices are in a component" );
        return s;
    };
    if( sizes( ring ) != std::vector<size_t>{ big } )
        mon::fail( "large", mon::str( "ring of ", big ) );
    if( sizes( chain ).size() != big )
        mon::fail( "large", mon::str( "chain of ", big ) );
    if( sizes( two ) != std::vector<size_t>{ big / 2, big / 2 } )
        mon::fail( "large", mon::str( "two rings of ", big / 2 ) );
    mon::stat( "large_graphs", 3 );
}

// ---------------------------------------------------------------------------------------------------- generators
template<typename NetT>
void check_stochastic( const NetT & net, size_t i, const std::string & what )
{
    long double s = 0;
    for( auto w : net.get_weights( i ) )
    {
        s += w;
        if( !( w >= 0 && w <= 1 + 1e-12 ) )
            mon::fail( "weight-range", what + mon::str( " weight ", w ) );
    }
    if( std::abs( s - 1 ) > 1e-9 && net.n_edges( i ) > 0 )
        mon::fail( "row-sum", what + mon::str( " row ", i, " sums to ", double( s ) ) );
}

template<typename A>
void gen( R & r, bool last )
{
    namespace G = NetworkGeneration;
    using NetT  = Network<A>;
    {
        size_t n = r.chance( 0.1 ) ? 1 : r.chance( 0.02 ) ? 30 + r.below( 300 ) : 1 + r.below( 30 ), k = r.chance( 0.2 ) ? n - 1 : r.chance( 0.1 ) ? n + r.below( 5 ) : r.chance( 0.03 ) ? size_t( 1 ) << ( 32 + r.below( 32 ) ) : r.below( n );
        bool self = r.chance( 0.5 );
        unsigned seed = r.next();
        std::mt19937 g1( seed ), g2( seed ), g3( seed + 1 );
        auto net  = G::generate_n_connections<A>( n, k, self, g1 );
        auto net2 = G::generate_n_connections<A>( n, k, self, g2 );
        auto what = mon::str( "n_connections n=", n, " k=", k, " self=", self );
        if( net.n_agents() != n || !is_incoming( net ) )
            mon::fail( "shape", what );
        size_t deg = std::min( k, n - 1 ) + ( self ? 1 : 0 );
        for( size_t i = 0; i < n; i++ )
        {
            auto nb = net.get_neighbours( i );
            std::set<size_t> s( nb.begin(), nb.end() );
            if( nb.size() != deg || net.get_weights( i ).size() != deg )
                mon::fail( "degree", what + mon::str( " agent ", i, " has ", nb.size() ) );
            if( s.size() != nb.size() || ( !s.empty() && *s.rbegin() >= n ) )
                mon::fail( "distinct", what + mon::str( " agent ", i, ": ", mon::join( nb ) ) );
            if( ( s.count( i ) > 0 ) != self )
                mon::fail( "self", what + mon::str( " agent ", i, ": ", mon::join( nb ) ) );
            check_stochastic( net, i, what );
        }
        if( rows_of( net ) != rows_of( net2 ) )
            mon::fail( "reproducible", what );
        if( deg > 1 ) // the weights are random then
        {
            auto net3 = G::generate_n_connections<A>( n, k, self, g3 );
            auto net4 = G::generate_n_connections<A>( n, k, self, g1 ); // goes on with the stream
            if( rows_of( net ) == rows_of( net3 ) || rows_of( net ) == rows_of( net4 ) )
                mon::fail( "random", what + ": the same network from another state of the generator" );
        }
        mon::key( what );
        mon::stat( "n_connections" );
    }
    {
        size_t n = r.chance( 0.02 ) ? 25 + r.below( 150 ) : r.below( 25 );
        double w = r.uni( -1, 1 );
        unsigned seed = r.next();
        std::mt19937 g1( seed ), g2( seed );
        auto a = G::generate_fully_connected<A>( n, w );
        auto b = G::generate_fully_connected<A>( n, g1 );
        auto c = G::generate_fully_connected<A>( n, g2 );
        auto what = mon::str( "fully connected n=", n );
        if( a.n_agents() != n || b.n_agents() != n || !is_incoming( a ) || !is_incoming( b ) )
            mon::fail( "shape", what );
        for( size_t i = 0; i < n; i++ )
        {
            for( auto * net : { &a, &b } )
            {
                auto nb = net->get_neighbours( i );
                std::set<size_t> s( nb.begin(), nb.end() );
                if( nb.size() != n || s.size() != n || *s.rbegin() != n - 1 )
                    mon::fail( "full", what + mon::str( " agent ", i, ": ", mon::join( nb ) ) );
            }
            auto ws = a.get_weights( i );
            if( ws.size() != n || std::any_of( ws.begin(), ws.end(), [&]( auto x ) { return x != w; } ) )
                mon::fail( "constant", what );
            check_stochastic( b, i, what );
        }
        if( n > 1 )
        {
            auto w0 = b.get_weights( 0 ), w1 = b.get_weights( 1 );
            if( std::equal( w0.begin(), w0.end(), w1.begin() ) || w0[0] == w0[1] )
                mon::fail( "random", what + ": equal weights" );
        }
        if( rows_of( b ) != rows_of( c ) )
            mon::fail( "reproducible", what );
        mon::key( what );
        mon::stat( "fully_connected" );
    }
    {
        size_t e = r.chance( 0.01 ) ? 9 + r.below( 120 ) : r.below( 9 );
        double w = r.uni( -1, 1 );
        auto net = G::generate_square_lattice<A>( e, w );
        auto what = mon::str( "lattice edge=", e );
        if( net.n_agents() != e * e )
            mon::fail( "shape", what );
        // agents are numbered so that neighbours differ by one step in x or y on the torus
        for( size_t i = 0; i < net.n_agents(); i++ )
        {
            size_t x = i % e, y = i / e;
            std::vector<size_t> want{ ( x + 1 ) % e + e * y, ( x + e - 1 ) % e + e * y, x + e * ( ( y + 1 ) % e ),
                                      x + e * ( ( y + e - 1 ) % e ) };
            auto nb = net.get_neighbours( i );
            std::vector<size_t> have( nb.begin(), nb.end() );
            std::sort( want.begin(), want.end() );
            std::sort( have.begin(), have.end() );
            if( have != want )
                mon::fail( "lattice", what + mon::str( " agent ", i, ": ", mon::join( nb ) ) );
            auto ws = net.get_weights( i );
            if( ws.size() != 4 || std::any_of( ws.begin(), ws.end(), [&]( auto v ) { return v != w; } ) )
                mon::fail( "constant", what );
        }
        mon::key( what );
        mon::stat( "lattice" );
    }
    if( last ) // how often every pair is connected
    {
        for( size_t n : { 6, 13 } )
        {
            size_t k = n / 3, T = 6000;
            std::vector<std::vector<size_t>> cnt( n, std::vector<size_t>( n ) );
            std::vector<long double> wsum( n );
            std::mt19937 g( r.next() );
            for( size_t t = 0; t < T; t++ )
            {
                auto net = G::generate_n_connections<A>( n, k, true, g );
                for( size_t i = 0; i < n; i++ )
                    for( size_t q = 0; q < net.n_edges( i ); q++ )
                    {
                        cnt[i][net.get_neighbours( i )[q]]++;
                        wsum[net.get_neighbours( i )[q] == i ? 0 : 1] += net.get_weights( i )[q];
                    }
            }
            double p = double( k ) / double( n - 1 ), z = 8 * std::sqrt( double( T ) * p * ( 1 - p ) );
            for( size_t i = 0; i < n; i++ )
                for( size_t j = 0; j < n; j++ )
                    if( i != j && std::abs( double( cnt[i][j] ) - double( T ) * p ) > z )
                        mon::fail( "uniform", mon::str( "n=", n, " k=", k, ": ", j, " is connected to ", i, " in ", cnt[i][j], " of ", T, " networks" ) );
            // the mean weight of an edge is 1/(k+1), for itself and for the others
            double mean_self = double( wsum[0] ) / double( T * n ), mean_other = double( wsum[1] ) / double( T * n * k );
            double tol = 8 * 0.5 / std::sqrt( double( T * n ) );
            if( std::abs( mean_self - 1.0 / double( k + 1 ) ) > tol || std::abs( mean_other - 1.0 / double( k + 1 ) ) > tol )
                mon::fail( "weight-mean", mon::str( "n=", n, " k=", k, " mean weights ", mean_self, " ", mean_other ) );
            mon::stat( "uniformity_networks", T );
        }
    }
}

// ---------------------------------------------------------------------------------------------------- files
double adversarial( R & r )
{
    switch( r.below( 10 ) )
    {
        case 0: return 0.0;
        case 1: return -0.0;
        case 2: return double( int64_t( r.below( 2001 ) ) - 1000 );
        case 3: return r.uni( -1, 1 );
        case 4: {
            // any bits, finite
            uint64_t b = r.next();
            double d;
            std::memcpy( &d, &b, 8 );
            return std::isfinite( d ) ? d : 0.1;
        }
        case 5: return ( r.chance( 0.5 ) ? 1 : -1 ) * std::numeric_limits<double>::max();
        case 6: return std::numeric_limits<double>::min() * ( r.chance( 0.5 ) ? 1 : -1 );
        case 7: return std::numeric_limits<double>::denorm_min() * double( 1 + r.below( 1000 ) );
        case 8: return std::nextafter( 1.0, r.chance( 0.5 ) ? 2 : 0 );
        default: return std::pow( 10.0, r.uni( -300, 300 ) ) * ( r.chance( 0.5 ) ? 1 : -1 );
    }
}

bool same_bits( double a, double b )
{
    return std::memcmp( &a, &b, 8 ) == 0 || ( std::isnan( a ) && std::isnan( b ) );
}

std::string slurp( const std::string & f )
{
    std::ifstream i( f, std::ios::binary );
    return std::string( std::istreambuf_iterator<char>( i ), {} );
}

// The numbers of the rows of a file, read by ourselves
std::vector<std::vector<double>> numbers( const std::string & text, std::vector<std::string> * header = nullptr )
{
    std::vector<std::vector<double>> rows;
    std::istringstream in( text );
    for( std::string l; std::getline( in, l ); )
    {
        if( l.empty() )
            continue;
        const bool comment = l[0] == '#';
        std::istringstream cols( l );
        if( !comment )
            rows.emplace_back();
        for( std::string c; std::getline( cols, c, ',' ); )
            if( comment && header )
            {
                auto b = c.find_first_not_of( "# \t" );
                header->push_back( b == std::string::npos ? "" : c.substr( b, c.find_last_not_of( " \t" ) + 1 - b ) );
            }
            else if( !comment && c.find_first_not_of( " \t" ) != std::string::npos )
                rows.back().push_back( std::strtod( c.c_str(), nullptr ) );
    }
    return rows;
}

std::map<std::string, double> named_values( const SimpleAgent & a )
{
    return { { "opinion", a.data.opinion } };
}
std::map<std::string, double> named_values( const ActivityAgent & a )
{
    return { { "opinion", a.data.opinion }, { "activity", a.data.activity }, { "reluctance", a.data.reluctance } };
}
std::map<std::string, double> named_values( const InertialAgent & a )
{
    return { { "opinion", a.data.opinion }, { "velocity", a.data.velocity }, { "activity", a.data.activity }, { "reluctance", a.data.reluctance } };
}
std::map<std::string, double> named_values( const DiscreteVectorAgent & )
{
    return {};
}

template<typename A>
void netio( R & r, const std::string & dir, size_t idx, size_t n )
{
    Network<A> net( n );
    const bool wide    = idx == 5; // one very long row
    bool isolated_last = r.chance( 0.2 );
    size_t edges       = 0;
    for( size_t i = 0; i < n; i++ )
    {
        if( ( ( isolated_last && i + 1 == n ) || r.chance( 0.2 ) ) && !( wide && i == n / 2 ) )
            continue;
        size_t k = wide && i == n / 2 ? 70000 + r.below( 10 ) : n > 1000 ? r.below( 3 ) : r.chance( 0.003 ) ? r.below( 2500 ) : r.below( std::min<size_t>( n, 30 ) + 2 );
        for( size_t q = 0; q < k; q++ )
            net.push_back_neighbour_and_weight( i, r.chance( 0.05 ) ? n - 1 : r.below( n ), adversarial( r ) );
        edges += k;
    }
    auto file  = dir + mon::str( "/n", idx, ".txt" );
    auto text  = mon::str( "network of ", n, " agents, ", edges, " edges, file ", file );
    network_to_file( net, file );
    auto rows = numbers( slurp( file ) );
    for( size_t i = 0; i < n && rows.size() == n; i++ )
    {
        auto a = net.get_neighbours( i );
        auto w = net.get_weights( i );
        std::vector<double> want{ double( i ), double( a.size() ) };
        want.insert( want.end(), a.begin(), a.end() );
        want.insert( want.end(), w.begin(), w.end() );
        if( !std::equal( want.begin(), want.end(), rows[i].begin(), rows[i].end(), same_bits ) )
            return mon::fail( "row", text + mon::str( ": the row of agent ", i, " is ", mon::join( rows[i] ), " instead of ", mon::join( want ) ).substr( 0, 3000 ) );
    }
    if( rows.size() != n )
        mon::fail( "rows", text + mon::str( " has ", rows.size(), " rows" ) );
    try
    {
        auto back = NetworkGeneration::generate_from_file<A>( file );
        if( back.n_agents() != n || !is_incoming( back ) || back.agents.size() != n )
        {
            mon::fail( "size", text + mon::str( " read back with ", back.n_agents(), " agents" ) );
            return;
        }
        for( size_t i = 0; i < n; i++ )
        {
            auto a = net.get_neighbours( i ), b = back.get_neighbours( i );
            auto v = net.get_weights( i ), w = back.get_weights( i );
            if( !std::equal( a.begin(), a.end(), b.begin(), b.end() ) )
            {
                mon::fail( "neighbours", text + mon::str( ": agent ", i, " ", mon::join( a ), " read as ", mon::join( b ) ) );
                return;
            }
            if( !std::equal( v.begin(), v.end(), w.begin(), w.end(), same_bits ) )
            {
                mon::fail( "weights", text + mon::str( ": agent ", i, " ", mon::join( v ), " read as ", mon::join( w ) ) );
                return;
            }
        }
        auto file2 = file + ".again";
        network_to_file( back, file2 );
        if( slurp( file ) != slurp( file2 ) )
            mon::fail( "rewrite", text + " differs when it is written again" );
        std::filesystem::remove( file2 );
    }
    catch( const std::exception & e )
    {
        mon::fail( "unreadable", text + ": " + e.what() );
        return;
    }
    mon::stat( "networks" );
    mon::stat( "edges", edges );
    mon::key( mon::str( n, ":", edges ) );
    if( r.chance( 0.5 ) ) // otherwise the next file replaces this one
        std::filesystem::remove( file );
}

template<typename A, typename FillT, typename SameT>
void agio( R & r, const std::string & dir, size_t idx, size_t n, const char * name, FillT fill, SameT same )
{
    Network<A> net( n );
    for( auto & a : net.agents )
        fill( a );
    auto file = dir + mon::str( "/a", idx, ".txt" );
    auto text = mon::str( n, " ", name, " agents, file ", file );
    agents_to_file( net, file );
    std::vector<std::string> header;
    auto rows = numbers( slurp( file ), &header );
    if( rows.size() != n )
        mon::fail( std::string( name ) + "-rows", text + mon::str( " has ", rows.size(), " rows" ) );
    for( size_t i = 0; i < n && rows.size() == n; i++ )
        for( auto & [column, value] : named_values( net.agents[i] ) )
        {
            const size_t c = std::find( header.begin(), header.end(), column ) - header.begin();
            if( c >= rows[i].size() || !same_bits( rows[i][c], value ) )
                return mon::fail( std::string( name ) + "-column", text + mon::str( ": agent ", i, " column ", column, " of ", mon::join( rows[i] ),
                                                                                   " is not ", value ) );
        }
    try
    {
        auto back = agents_from_file<A>( file );
        if( back.size() != n )
        {
            mon::fail( std::string( name ) + "-size", text + mon::str( " read back as ", back.size() ) );
            return;
        }
        for( size_t i = 0; i < n; i++ )
            if( !same( net.agents[i], back[i] ) )
            {
                mon::fail( std::string( name ) + "-value", text + mon::str( ": agent ", i, " '", agent_to_string( net.agents[i] ), "' read as '",
                                                      agent_to_string( back[i] ), "'" ) );
                return;
            }
        net.agents = back;
        auto file2 = file + ".again";
        agents_to_file( net, file2 );
        if( slurp( file ) != slurp( file2 ) )
            mon::fail( std::string( name ) + "-rewrite", text );
        std::filesystem::remove( file2 );
    }
    catch( const std::exception & e )
    {
        mon::fail( std::string( name ) + "-unreadable", text + ": " + e.what() );
        return;
    }
    mon::stat( std::string( "agents_" ) + name, n );
    mon::key( text );
    if( r.chance( 0.5 ) ) // otherwise the next file replaces this one
        std::filesystem::remove( file );
}

// The DOT export names every agent and exactly its neighbours
template<typename A>
void dot( R & r, const std::string & dir )
{
    const size_t n = r.chance( 0.01 ) ? 90 + r.below( 1000 ) : r.below( 12 );
    auto net       = random_net<Network<A>>( r, n, r.chance( 0.2 ) ? 0.0 : n > 12 ? r.uni( 0, r.chance( 0.1 ) ? 0.3 : 5.0 / double( n ) ) : r.uni( 0, 1 ) );
    auto file      = dir + "/g.dot";
    if( n > 0 && n < 12 && r.chance( 0.002 ) ) // a very long list
        for( size_t i = r.below( n ), k = 60000 + r.below( 20000 ); k > 0; k-- )
            net.push_back_neighbour_and_weight( i, r.below( n ), 1.0 );
    if( r.chance( 0.5 ) ) // something older and longer
    {
        std::ofstream older( file );
        for( int i = 0; i < 600; i++ )
            older << "xxxxxxx\n";
    }
    network_to_dot_file( net, file );
    auto text = slurp( file );
    // header, one line per agent, closing brace
    std::vector<std::string> lines;
    std::istringstream in( text );
    for( std::string l; std::getline( in, l ); )
        if( l.find_first_not_of( " \t" ) != std::string::npos )
            lines.push_back( l );
    if( lines.size() != n + 2 || lines[0].find( "digraph" ) == std::string::npos || lines.back() != "}" )
        return mon::fail( "dot-shape", text );
    auto rows = rows_of( net );
    for( size_t i = 0; i < n; i++ )
    {
        std::vector<size_t> have, want{ i };
        for( auto & [j, w] : rows[i] )
            want.push_back( j );
        // an edge statement `i -> {a, b} [dir=back]` or `{a, b} -> i`, or a node alone
        static const std::regex first( "\\s*\"?\\d+\"?\\s*(->\\s*(\\{[0-9\\s,;\"]*\\}|\"?\\d+\"?)\\s*)?(\\[[^\\]]*\\])?\\s*;?\\s*" );
        static const std::regex last( "\\s*(\\{[0-9\\s,;\"]*\\}|\"?\\d+\"?)\\s*->\\s*\"?\\d+\"?\\s*(\\[[^\\]]*\\])?\\s*;?\\s*" );
        const auto & line = lines[i + 1];
        if( line.size() < 2000 )
        {
            const bool f = std::regex_match( line, first ), l = !f && std::regex_match( line, last );
            if( !f && !l )
                return mon::fail( "dot-shape", "'" + line + "'" );
            const bool back     = line.find( "dir=back" ) != std::string::npos || line.find( "dir=\"back\"" ) != std::string::npos;
            const bool incoming = net.direction() == Network<A>::EdgeDirection::Incoming;
            if( !rows[i].empty() && f && back != incoming )
                return mon::fail( "dot-direction", "'" + line + "' for " + ( incoming ? "incoming" : "outgoing" ) + " neighbours" );
            if( f && !rows[i].empty() )
                mon::stat( incoming ? "incoming_rows" : "outgoing_rows" );
            if( l )
                continue; // the neighbours come first: not compared in order
        }
        std::string num;
        for( char c : lines[i + 1] + " " )
            if( std::isdigit( c ) )
                num += c;
            else if( !num.empty() )
            {
                have.push_back( std::stoul( num ) );
                num.clear();
            }
        if( have != want )
            return mon::fail( "dot-neighbours", "'" + lines[i + 1] + "' for neighbours " + mon::join( want ) );
        mon::stat( "rows" );
    }
    mon::stat( "exports" );
    mon::key( text );
    if( r.chance( 0.5 ) ) // otherwise the next file replaces this one
        std::filesystem::remove( file );
}

int main( int argc, char ** argv )
{
    std::string cmd = argv[1];
    if( cmd == "netio" || cmd == "agio" )
    {
        std::string dir = argv[2];
        R r( std::stoull( argv[3] ) );
        size_t count = std::stoul( argv[4] );
        for( size_t c = 0; c < count && mon::n_fail < 20; c++ )
        {
            if( cmd == "netio" )
            {
                size_t n = c == 0 ? 110000 : c < 4 ? c - 1 : 1 + r.below( 25 );
                if( c % 3 == 2 )
                    netio<ActivityAgent>( r, dir, c, n );
                else
                    netio<SimpleAgent>( r, dir, c, n );
                continue;
            }
            size_t n = c == 0 ? 110000 : c < 12 ? c % 3 : 1 + r.below( 25 );
            auto val = [&] { return adversarial( r ); };
            switch( c % 4 )
            {
                case 0:
                    agio<SimpleAgent>(
                        r, dir, c, n, "simple", [&]( auto & a ) { a.data.opinion = val(); },
                        []( auto & a, auto & b ) { return same_bits( a.data.opinion, b.data.opinion ); } );
                    break;
                case 1:
                    agio<ActivityAgent>(
                        r, dir, c, n, "activity",
                        [&]( auto & a ) { a.data.opinion = val(), a.data.activity = val(), a.data.reluctance = val(); },
                        []( auto & a, auto & b )
                        {
                            return same_bits( a.data.opinion, b.data.opinion ) && same_bits( a.data.activity, b.data.activity )
                                   && same_bits( a.data.reluctance, b.data.reluctance );
                        } );
                    break;
                case 2:
                    agio<InertialAgent>(
                        r, dir, c, n, "inertial",
                        [&]( auto & a )
                        {
                            a.data.opinion = val(), a.data.activity = val(), a.data.reluctance = val();
                            a.data.velocity = val();
                        },
                        []( auto & a, auto & b )
                        {
                            return same_bits( a.data.opinion, b.data.opinion ) && same_bits( a.data.activity, b.data.activity )
                                   && same_bits( a.data.reluctance, b.data.reluctance )
                                   && same_bits( a.data.velocity, b.data.velocity );
                        } );
                    break;
                default: {
                    size_t dim = 1 + ( n < 100 && r.chance( 0.2 ) ? r.below( 400 ) : r.below( 12 ) );
                    const bool wide = r.chance( 0.3 ); // any integers, not just 0 and 1
                    agio<DiscreteVectorAgent>(
                        r, dir, c, n, "vector",
                        [&]( auto & a )
                        {
                            a.data.opinion.resize( dim );
                            for( auto & o : a.data.opinion )
                                o = wide ? int( r.chance( 0.2 ) ? std::numeric_limits<int>::min() + int( r.below( 3 ) ) : r.below( 4000000000u ) - 2000000000 ) : int( r.below( 2 ) );
                        },
                        []( auto & a, auto & b ) { return a.data.opinion == b.data.opinion; } );
                }
            }
        }
        mon::done();
        return 0;
    }
    R r( std::stoull( argv[2] ) );
    size_t count = std::stoul( argv[3] );
    if( cmd == "scc" )
        scc( r, count, std::stoul( argv[4] ) );
    for( size_t c = 0; c < count && mon::n_fail < 20 && cmd != "scc"; c++ )
    {
        bool simple = c % 2;
        if( cmd == "hist" )
            simple ? hist<Network<SimpleAgent>>( r ) : c % 4 ? hist<Network<double, float>>( r ) : hist<Network<double>>( r );
        else if( cmd == "alg" )
            simple ? alg<Network<SimpleAgent>>( r ) : alg<Network<double, float>>( r );
        else if( cmd == "dbl" )
            simple ? dbl<Network<SimpleAgent>>( r ) : dbl<Network<double>>( r );
        else if( cmd == "dot" )
            simple ? dot<SimpleAgent>( r, argv[4] ) : dot<ActivityAgent>( r, argv[4] );
        else if( cmd == "gen" )
            simple ? gen<SimpleAgent>( r, c + 1 == count ) : gen<double>( r, c + 1 == count );
    }
    mon::done();
    return 0;
}
