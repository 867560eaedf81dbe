// Memory and file handles of simulations, as seen from outside: h_res LIST, lines: config netfile|- agentfile|- outdir iterations
//   five complete simulations one after another (constructed, run with all their output, destroyed): what is in use afterwards must be the same each time
//   one that is stepped: what is in use must not grow with the iterations
//   (every time under other file names)
// A line that is refused (exception) is repeated in the same way.
//   RES idx ok|refused first last bytes, fds first last, stepped early late
#include "config_parser.hpp"
#include "models/InertialModel.hpp"
#include "network_io.hpp"
#include "simulation.hpp"
#include <dirent.h>
#include <filesystem>
#include <fstream>
#include <malloc.h>
#include <memory>
#include <sstream>
#include <string>
#include <sys/resource.h>

using namespace Seldon;
using Opt = std::optional<std::string>;

static size_t in_use()
{
    auto m = mallinfo2();
    return m.uordblks + m.hblkhd;
}
static size_t fds()
{
    size_t k = 0;
    DIR * d  = opendir( "/proc/self/fd" );
    while( readdir( d ) )
        k++;
    closedir( d );
    return k;
}
// Every repetition reads the same bytes under names of its own
static std::string named( const std::string & s, int k )
{
    auto name = s + "." + std::to_string( k );
    std::error_code ec;
    std::filesystem::create_hard_link( s, name, ec );
    return name;
}
static Opt opt( const std::string & s, int k )
{
    return s == "-" ? Opt{} : Opt{ named( s, k ) };
}

template<typename AgentT>
static void complete( const Config::SimulationOptions & o, Opt n, Opt a, const std::string & out )
{
    Simulation<AgentT> sim( o, n, a );
    sim.run( out );
    network_to_dot_file( sim.network, out + "/net.dot" );
    auto other = sim.network;
    other.transpose();
    other.toggle_incoming_outgoing();
    other.remove_double_counting();
    other.strongly_connected_components();
    std::unique_ptr<SimulationInterface> base = std::make_unique<Simulation<AgentT>>( o, n, a ); // as the program holds it
}

template<typename AgentT>
static std::pair<size_t, size_t> stepped( const Config::SimulationOptions & o, Opt n, Opt a, size_t T )
{
    Simulation<AgentT> sim( o, n, a );
    size_t early = 0;
    sim.model->initialize_iterations();
    for( size_t t = 0; t < T; t++ )
    {
        sim.model->iteration();
        if( t == T / 10 )
            early = in_use();
    }
    return { early, in_use() };
}

struct Result
{
    bool ok = false;
    std::pair<size_t, size_t> step{ 0, 0 };
    void operator()( const std::string & config, Opt n, Opt a, const std::string & out, size_t T )
    {
        try
        {
            auto o = Config::parse_config_file( config );
            Config::validate_settings( o );
            auto go = [&]<typename AgentT>()
            {
                if( T == 0 )
                    complete<AgentT>( o, n, a, out );
                else
                    step = stepped<AgentT>( o, n, a, T );
            };
            if( o.model == Config::Model::DeGroot )
                go.operator()<DeGrootModel::AgentT>();
            else if( o.model == Config::Model::ActivityDrivenModel )
                go.operator()<ActivityDrivenModel::AgentT>();
            else if( o.model == Config::Model::ActivityDrivenInertial )
                go.operator()<InertialModel::AgentT>();
            else if( std::get<Config::DeffuantSettings>( o.model_settings ).use_binary_vector )
                go.operator()<DeffuantModelVector::AgentT>();
            else
                go.operator()<DeffuantModel::AgentT>();
            ok = true;
        }
        catch( const std::exception & )
        {
            ok = false;
        }
    }
};

int main( int, char ** argv )
{
    // One of the files is larger than any memory
    rlimit most{ 1ul << 30, 1ul << 30 };
    setrlimit( RLIMIT_AS, &most );
    std::ifstream in( argv[1] );
    std::string line;
    // stdout is the protocol; what the simulations print goes nowhere
    FILE * report = fdopen( dup( 1 ), "w" );
    if( !freopen( "/dev/null", "w", stdout ) )
        return 3;
    for( size_t idx = 0; std::getline( in, line ); idx++ )
    {
        std::istringstream s( line );
        std::string c, n, a, out;
        size_t T = 0;
        s >> c >> n >> a >> out >> T;
        Result r;
        auto again = [&]( int k ) { r( named( c, k ), opt( n, k ), opt( a, k ), out, 0 ); };
        again( 0 );
        again( 1 );
        const size_t b0 = in_use(), f0 = fds();
        for( int k = 0; k < 4; k++ )
            again( 2 + k );
        const size_t b1 = in_use(), f1 = fds();
        bool ok = r.ok;
        if( ok && T > 0 )
            r( c, opt( n, 0 ), opt( a, 0 ), out, T );
        fprintf( report, "RES %zu %s %zu %zu %zu %zu %zu %zu\n", idx, ok ? "ok" : "refused", b0, b1, f0, f1, r.step.first, r.step.second );
        fflush( report );
    }
    fprintf( report, "DONE\n" );
    fclose( report );
    return 0;
}
