// In-process driver of complete simulations, through the public interface only (configuration files, Simulation,
// Model::iteration, Network). Commands:
//   contacts CONFIG AGENTS|- ITERATIONS     count the contacts in the network of every iteration, JSON on stdout
//   par  LIST      run all simulations of LIST (lines: config netfile|- agentfile|- outdir), one thread each
//   seq  LIST      the same one after another in this process
//   inter LIST     construct all of them, then step them in turn; writes opinions_i/network_i after every step
#include "config_parser.hpp"
#include "models/InertialModel.hpp"
#include "simulation.hpp"
#include <fstream>
#include <iostream>
#include <memory>
#include <sstream>
#include <string>
#include <thread>
#include <vector>

using namespace Seldon;
using Opt = std::optional<std::string>;

static Opt opt( const std::string & s )
{
    return s == "-" ? Opt{} : Opt{ s };
}

struct Stepper
{
    virtual bool step()            = 0; // false: finished
    virtual void run( fs::path p ) = 0;
    virtual void dump( fs::path p, size_t i ) = 0;
    virtual ~Stepper()             = default;
};

template<typename AgentT>
struct StepperT : Stepper
{
    Simulation<AgentT> sim;
    StepperT( const Config::SimulationOptions & o, Opt n, Opt a ) : sim( o, n, a ) {}
    bool step() override
    {
        if( sim.model->finished() )
            return false;
        sim.model->iteration();
        return true;
    }
    void run( fs::path p ) override
    {
        sim.run( p );
    }
    void dump( fs::path p, size_t i ) override
    {
        agents_to_file( sim.network, ( p / ( "opinions_" + std::to_string( i ) + ".txt" ) ).string() );
        network_to_file( sim.network, ( p / ( "network_" + std::to_string( i ) + ".txt" ) ).string() );
    }
};

static std::unique_ptr<Stepper> make( const std::string & config, Opt n, Opt a )
{
    auto o = Config::parse_config_file( config );
    Config::validate_settings( o );
    if( o.model == Config::Model::DeGroot )
        return std::make_unique<StepperT<DeGrootModel::AgentT>>( o, n, a );
    if( o.model == Config::Model::ActivityDrivenModel )
        return std::make_unique<StepperT<ActivityDrivenModel::AgentT>>( o, n, a );
    if( o.model == Config::Model::ActivityDrivenInertial )
        return std::make_unique<StepperT<InertialModel::AgentT>>( o, n, a );
    if( std::get<Config::DeffuantSettings>( o.model_settings ).use_binary_vector )
        return std::make_unique<StepperT<DeffuantModelVector::AgentT>>( o, n, a );
    return std::make_unique<StepperT<DeffuantModel::AgentT>>( o, n, a );
}

template<typename AgentT>
static int contacts( const Config::SimulationOptions & o, Opt agents, size_t iterations )
{
    Simulation<AgentT> sim( o, std::nullopt, agents );
    const size_t n = sim.network.n_agents();
    std::vector<std::vector<size_t>> edge( n, std::vector<size_t>( n ) ), mutual = edge, pairout = edge;
    std::vector<std::vector<size_t>> outdeg( n, std::vector<size_t>( n + 2 ) );
    std::vector<std::vector<char>> A;
    std::vector<AgentT> start = sim.network.agents;
    size_t edges_sum = 0, edges_sq = 0, mutual_sum = 0, mutual_sq = 0, repeats = 0;
    std::vector<char> last( n );
    std::vector<size_t> both( n ), act( n );
    std::vector<std::vector<size_t>> joint( n > 8 ? 0 : n * n, std::vector<size_t>( n * n ) ), lag = joint; // edges x*n+y
    std::vector<size_t> present, previous;
    for( size_t t = 0; t < iterations; t++ )
    {
        sim.model->iteration();
        using Dir = typename Network<AgentT>::EdgeDirection;
        const bool incoming = sim.network.direction() == Dir::Incoming;
        A.assign( n, std::vector<char>( n ) );
        for( size_t i = 0; i < n; i++ )
            for( size_t j : sim.network.get_neighbours( i ) )
                ( incoming ? A.at( j ).at( i ) : A.at( i ).at( j ) ) = 1; // A[x][y]: x contacts y
        for( size_t i = 0; i < n; i++ )
        {
            size_t k = 0;
            for( size_t j = 0; j < n; j++ )
            {
                k += A[i][j];
                edge[i][j] += A[i][j];
                mutual[i][j] += A[i][j] && A[j][i];
            }
            outdeg[i][k]++;
            if( t > 0 )
                both[i] += last[i] && k > 0; // active in two consecutive iterations
            last[i] = k > 0;
        }
        previous.swap( present );
        present.clear();
        for( size_t e = 0; e < n * n; e++ )
            if( A[e / n][e % n] )
                present.push_back( e );
        size_t mut = 0;
        for( size_t e : present )
            mut += A[e % n][e / n];
        edges_sum += present.size(), edges_sq += present.size() * present.size();
        mutual_sum += mut, mutual_sq += mut * mut;
        repeats += t > 0 && present == previous;
        if( !joint.empty() )
        {
            for( size_t e : present )
                for( size_t f : present )
                    joint[e][f]++;
            for( size_t e : previous )
                for( size_t f : present )
                    lag[e][f]++;
        }
        for( size_t i = 0; i < n; i++ )
            sim.network.agents[i].data = start[i].data; // the same state for every iteration
    }
    auto vec  = []( auto const & v ) { return fmt::format( "[{}]", fmt::join( v, "," ) ); };
    auto mat  = [&]( auto const & m )
    {
        std::string s = "[";
        for( size_t i = 0; i < m.size(); i++ )
            s += ( i ? "," : "" ) + vec( m[i] );
        return s + "]";
    };
    std::string ag = "[";
    for( size_t i = 0; i < n; i++ )
        ag += fmt::format( "{}[{},{}]", i ? "," : "", start[i].data.opinion, start[i].data.activity );
    fmt::print( "RESULT {{\"agents\":{}],\"edge\":{},\"mutual\":{},\"outdeg\":{},\"both\":{},\"joint\":{},\"lag\":{},\"total\":[{},{},{},{}],\"repeats\":{}}}\n", ag, mat( edge ),
                mat( mutual ), mat( outdeg ), vec( both ), mat( joint ), mat( lag ), edges_sum, edges_sq, mutual_sum, mutual_sq, repeats );
    return 0;
}

int main( int argc, char ** argv )
{
    std::string cmd = argv[1];
    if( cmd == "contacts" )
    {
        auto o = Config::parse_config_file( argv[2] );
        Config::validate_settings( o );
        size_t T = std::stoul( argv[4] );
        if( o.model == Config::Model::ActivityDrivenModel )
            return contacts<ActivityDrivenModel::AgentT>( o, opt( argv[3] ), T );
        return contacts<InertialModel::AgentT>( o, opt( argv[3] ), T );
    }
    std::ifstream in( argv[2] );
    std::string line;
    struct Job
    {
        std::string c, n, a, out;
    };
    std::vector<Job> jobs;
    while( std::getline( in, line ) )
    {
        std::istringstream s( line );
        Job j;
        s >> j.c >> j.n >> j.a >> j.out;
        fs::create_directories( j.out );
        jobs.push_back( j );
    }
    if( cmd == "par" )
    {
        std::vector<std::thread> th;
        for( auto & j : jobs )
            th.emplace_back( [&j] { make( j.c, opt( j.n ), opt( j.a ) )->run( j.out ); } );
        for( auto & t : th )
            t.join();
    }
    else if( cmd == "seq" )
    {
        for( auto & j : jobs )
            make( j.c, opt( j.n ), opt( j.a ) )->run( j.out );
    }
    else
    {
        std::vector<std::unique_ptr<Stepper>> sims;
        for( auto & j : jobs )
            sims.push_back( make( j.c, opt( j.n ), opt( j.a ) ) );
        for( size_t k = 0; k < sims.size(); k++ )
            sims[k]->dump( jobs[k].out, 0 );
        bool any = true;
        for( size_t i = 1; any; i++ )
        {
            any = false;
            for( size_t k = 0; k < sims.size(); k++ )
                if( sims[k]->step() )
                {
                    sims[k]->dump( jobs[k].out, i );
                    any = true;
                }
        }
    }
    fmt::print( "DONE\n" );
    return 0;
}
