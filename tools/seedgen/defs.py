DEFS = []


def D(id, property, edits, needs, breaks, demo):
    DEFS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


D("c10-signed-change", "C10", [("src/models/DeGroot.cpp",
  "            std::abs( network.agents[i].data.opinion - agents_current_copy[i].data.opinion ) );",
  "            agents_current_copy[i].data.opinion - network.agents[i].data.opinion );")],
  "an iteration in which opinions only go down (by more than the tolerance), for instance agents who all listen to the one "
  "with the lowest opinion", "the run stops as if converged although opinions still change by a lot", r'''
CONF = """
[simulation]
model = "DeGroot"
[io]
n_output_agents = 1
output_initial = false
[model]
max_iterations = 500
[DeGroot]
convergence = 1e-9
"""
# agent 0 does not change, agent 1 slowly approaches it from above
NET = "# network\n0, 1, 0, 1.0\n1, 2, 0, 1, 0.5, 0.5\n"
code, out = sim(build(), CONF, NET, "# agents\n0, 0.0\n1, 1.0\n")
expect(code == 0, "exit status %r" % code)
last = max(int(f.split("_")[1].split(".")[0]) for f in out)
x = rows(out["opinions_%d.txt" % last])
print("stopped after", last, "iterations at", x)
expect(abs(x[0][0] - x[1][0]) < 1e-8, "no consensus")
expect(28 <= last <= 32, "the largest change is below 1e-9 for the first time after 30 iterations")
''')

D("c13-stale-buffer", "C13", [("include/models/ActivityDrivenModel.hpp",
  "        reciprocal_edge_buffer.clear(); // Clear the reciprocal edge buffer\n", "")],
  "at least two iterations with a positive reciprocity: a pair that has had contact in an earlier iteration",
  "contacts of earlier iterations count as already returned, so later ones are not returned any more", r'''
CONF = """
[simulation]
model = "ActivityDriven"
rng_seed = 7
[io]
n_output_network = 1
[model]
max_iterations = 60
[ActivityDriven]
m = 1
reciprocity = 1.0
eps = 0.3
gamma = 2.1
[network]
number_of_agents = 5
connections_per_agent = 1
"""
code, out = sim(build(), CONF)
expect(code == 0, "exit status %r" % code)
for t in range(1, 61):
    N = net(out["network_%d.txt" % t])
    edges = {(j, i) for i, (nb, _) in enumerate(N) for j in nb}
    for a, b in edges:
        expect((b, a) in edges, "iteration %d: the contact %d -> %d is not returned although the reciprocity is 1" % (t, a, b))
print("ok")
''')

D("c16-bot-m-leaks", "C16", [("include/models/ActivityDrivenModel.hpp",
  """        reciprocal_edge_buffer.clear(); // Clear the reciprocal edge buffer
""", """        reciprocal_edge_buffer.clear(); // Clear the reciprocal edge buffer
        int m_temp = this->m;
"""), ("include/models/ActivityDrivenModel.hpp", """                // Not normalised since this is taken care of by the reservoir sampling

                int m_temp = this->m;

""", """                // Not normalised since this is taken care of by the reservoir sampling

""")], "bots whose m differs from the common m, and that are active in the same iteration as ordinary agents",
  "ordinary agents contact as many agents as the last active bot", r'''
CONF = """
[simulation]
model = "ActivityDriven"
rng_seed = 3
[io]
n_output_network = 1
[model]
max_iterations = 20
[ActivityDriven]
m = 1
reciprocity = 0.0
eps = 0.5
gamma = 2.1
n_bots = 1
bot_m = [3]
bot_activity = [1.0]
bot_opinion = [0.5]
bot_homophily = [0.0]
[network]
number_of_agents = 6
connections_per_agent = 1
"""
code, out = sim(build(), CONF)
expect(code == 0, "exit status %r" % code)
for t in range(1, 21):
    deg = [0] * 6
    for nb, _ in net(out["network_%d.txt" % t]):
        for j in nb:
            deg[j] += 1
    expect(deg[0] == 3, "the bot contacts %d agents" % deg[0])
    expect(max(deg[1:]) <= 1, "iteration %d: contacts per agent %r, m = 1" % (t, deg))
print("ok")
''')

D("c07-offset-modulo", "C07", [("include/simulation.hpp",
  "                && ( this->model->n_iterations() % n_output_network.value() == 0 ) )",
  "                && ( ( this->model->n_iterations() + initial_step_number ) % n_output_network.value() == 0 ) )")],
  "a numbering offset that is not a multiple of the network output interval", "network files are written at other iterations than the requested ones", r'''
CONF = """
[simulation]
model = "DeGroot"
[io]
n_output_network = 4
n_output_agents = 4
start_numbering_from = %d
[model]
max_iterations = 10
[DeGroot]
convergence = 0.0
[network]
number_of_agents = 4
connections_per_agent = 2
"""
exe = build()
for start in (0, 4, 6):
    code, out = sim(exe, CONF % start)
    expect(code == 0, "exit status %r" % code)
    want = sorted("%s_%d.txt" % (k, start + t) for k in ("network", "opinions") for t in (0, 4, 8))
    expect(sorted(out) == want, "offset %d: files %r instead of %r" % (start, sorted(out), want))
print("ok")
''')

D("c11-neighbour-reluctance", "C11", [("include/models/ActivityDrivenModel.hpp",
  "                k_buffer[idx_agent] += 1.0 / network.agents[idx_agent].data.reluctance * K * weight_buffer[j]",
  "                k_buffer[idx_agent] += 1.0 / network.agents[j_index].data.reluctance * K * weight_buffer[j]")],
  "agents with different reluctances", "an agent is slowed down by the reluctance of its neighbours instead of its own", r'''
import math
CONF = """
[simulation]
model = "ActivityDriven"
rng_seed = 1
[io]
n_output_agents = 1
[model]
max_iterations = 1
[ActivityDriven]
m = 1
K = 2.0
alpha = 1.5
dt = 1e-4
reciprocity = 0.0
[network]
number_of_agents = 2
connections_per_agent = 1
"""
# both agents are active and contact each other
code, out = sim(build(), CONF, None, "#\n0, 0.4, 1.0, 1.0\n1, 0.2, 1.0, 10.0\n")
expect(code == 0, "exit status %r" % code)
x = rows(out["opinions_1.txt"])
for i, (a, b, r) in enumerate([(0.4, 0.2, 1.0), (0.2, 0.4, 10.0)]):
    slope = (x[i][0] - a) / 1e-4
    want = -a + 2.0 / r * math.tanh(1.5 * b)
    expect(abs(slope - want) < 1e-2, "agent %d moves with %g, the equation says %g" % (i, slope, want))
print("ok")
''')

D("c12-reused-drift", "C12", [("src/models/InertialModel.cpp",
  "    get_euler_slopes( drift_t_buffer, [this]( size_t i ) { return network.agents[i].data.opinion; } );",
  """    // (this is the drift at the end of the last step)
    if( drift_next_t_buffer.empty() )
        get_euler_slopes( drift_t_buffer, [this]( size_t i ) { return network.agents[i].data.opinion; } );
    else
        drift_t_buffer = drift_next_t_buffer;""")],
  "a second iteration whose contacts differ from those of the first (or bots)", "the drift of the previous network enters the step", r'''
CONF = """
[simulation]
model = "ActivityDrivenInertial"
rng_seed = 5
[io]
n_output_agents = 1
n_output_network = 1
[model]
max_iterations = 12
[ActivityDrivenInertial]
m = 1
K = 3.0
alpha = 1.0
dt = 0.1
eps = 0.4
gamma = 2.1
reciprocity = 0.5
friction_coefficient = 0.5
[network]
number_of_agents = 4
connections_per_agent = 1
"""
import math
code, out = sim(build(), CONF)
expect(code == 0, "exit status %r" % code)
for t in range(1, 13):
    a, b, N = rows(out["opinions_%d.txt" % (t - 1)]), rows(out["opinions_%d.txt" % t]), net(out["network_%d.txt" % t])
    for i in range(4):
        drift = -a[i][0] + sum(3.0 / a[i][3] * w * math.tanh(a[j][0]) for j, w in zip(*N[i]))
        want = a[i][0] + 0.1 * a[i][1] + 0.005 * (drift - 0.5 * a[i][1])
        expect(abs(b[i][0] - want) < 1e-9, "iteration %d agent %d: position %r instead of %r" % (t, i, b[i][0], want))
print("ok")
''')

D("c21-zero-edges", "C21", [("include/network.hpp",
  """                const auto weight    = weight_list[i_agent][i_neighbour];
                neighbour_list_transpose[neighbour]""", """                const auto weight    = weight_list[i_agent][i_neighbour];
                if( weight == WeightT{} )
                    continue; // no interaction, nothing to transpose
                neighbour_list_transpose[neighbour]""")],
  "edges with weight zero (the lattice and the mean field network start with them)", "toggling and transposing lose the edges with weight zero", r'''
run_prog(r"""
#include <network.hpp>
#include <cstdio>
int main()
{
    using N = Seldon::Network<double>;
    N n( std::vector<std::vector<size_t>>{ { 1, 2 }, { 2 }, {} }, std::vector<std::vector<double>>{ { 0.5, 0.0 }, { 0.0 }, {} }, N::EdgeDirection::Incoming );
    n.transpose();
    if( n.n_edges() != 3 ) { printf( "%zu edges after transposing a network with 3 edges\n", n.n_edges() ); return 1; }
    n.toggle_incoming_outgoing();
    return n.get_neighbours( 0 ).size() == 2 && n.n_edges() == 3 ? 0 : 1;
}
""")
''')

D("c22-half-refused", "C22", [("include/network.hpp",
  """        if( buffer_neighbours.size() != buffer_weights.size() )
        {
            throw std::runtime_error(
                "Network::set_neighbours_and_weights: both buffers need to have the same length!" );
        }

        neighbour_list[agent_idx].assign( buffer_neighbours.begin(), buffer_neighbours.end() );
        weight_list[agent_idx].assign( buffer_weights.begin(), buffer_weights.end() );""",
  """        neighbour_list[agent_idx].assign( buffer_neighbours.begin(), buffer_neighbours.end() );
        if( neighbour_list[agent_idx].size() != buffer_weights.size() )
        {
            throw std::runtime_error(
                "Network::set_neighbours_and_weights: both buffers need to have the same length!" );
        }

        weight_list[agent_idx].assign( buffer_weights.begin(), buffer_weights.end() );""")],
  "a refused change (neighbours and weights of unequal length) whose exception is caught, and use of the network afterwards", "the neighbours are replaced although the change is refused, so that neighbours and weights no longer belong together", r'''
run_prog(r"""
#include <network.hpp>
#include <cstdio>
int main()
{
    Seldon::Network<double> n( 3 );
    std::vector<size_t> one{ 1 }, two{ 1, 2 };
    std::vector<double> w{ 0.25 };
    n.set_neighbours_and_weights( 0, one, std::span<const double>( w ) );
    try
    {
        n.set_neighbours_and_weights( 0, two, std::span<const double>( w ) );
        printf( "not refused\n" );
        return 1;
    }
    catch( const std::exception & )
    {
    }
    if( n.n_edges( 0 ) != 1 || n.get_weights( 0 ).size() != 1 )
    {
        printf( "%zu neighbours and %zu weights after a refused change of one neighbour with one weight\n", n.n_edges( 0 ), n.get_weights( 0 ).size() );
        return 1;
    }
    return 0;
}
""")
''')

D("c23-sorted-shortcut", "C23", [("include/network.hpp",
  """            std::vector<WeightT> weights_copy{};
            std::vector<size_t> neighbours_copy{};
""", """            // Nothing to do?
            if( std::is_sorted( neighbours.begin(), neighbours.end() ) )
                continue;

            std::vector<WeightT> weights_copy{};
            std::vector<size_t> neighbours_copy{};
""")], "an agent whose neighbours are in ascending order and contain one twice", "parallel edges of sorted lists are not merged", r'''
run_prog(r"""
#include <network.hpp>
#include <cstdio>
int main()
{
    using N = Seldon::Network<double>;
    N n( std::vector<std::vector<size_t>>{ { 0, 1, 1 }, { 1, 0, 1 } }, std::vector<std::vector<double>>{ { 1, 2, 3 }, { 1, 2, 3 } }, N::EdgeDirection::Incoming );
    n.remove_double_counting();
    for( int i = 0; i < 2; i++ )
        if( n.n_edges( i ) != 2 ) { printf( "agent %d has %zu edges instead of 2\n", i, n.n_edges( i ) ); return 1; }
    return n.get_weights( 0 )[1] == 5 && n.get_weights( 1 )[1] == 4 ? 0 : 1;
}
""")
''')

D("c26-first-index", "C26", [("include/util/math.hpp",
  """            if( ignore_idx.has_value() && i == ignore_idx.value() )
            {
                i++;
            }
        }
        size_t i;""", """        }
        size_t i;""")], "the excluded index is 0 (or n)", "the first item is drawn although it is excluded", r'''
run_prog(r"""
#include <random>
#include <util/math.hpp>
#include <cstdio>
int main()
{
    std::mt19937 gen( 1 );
    for( size_t ignore = 0; ignore < 5; ignore++ )
        for( int t = 0; t < 200; t++ )
        {
            std::vector<size_t> b;
            Seldon::draw_unique_k_from_n( ignore, 3, 5, b, gen );
            for( size_t x : b )
                if( x == ignore || x >= 5 ) { printf( "drew %zu although it is excluded\n", x ); return 1; }
        }
    return 0;
}
""")
''')

D("c27-replacement-key", "C27", [("include/util/math.hpp",
  "            auto uniform_from_t_to_one = distribution( mt ) * ( 1.0 - t ) + t; // Random number in interval [t, 1.0]",
  "            auto uniform_from_t_to_one = std::max( t, distribution( mt ) ); // Random number in interval [t, 1.0]")],
  "items that enter the reservoir by replacing one, with at least one more replacement to come", "items that entered late get too small keys: their probability to stay is wrong", r'''
run_prog(r"""
#include <random>
#include <util/math.hpp>
#include <cstdio>
#include <cmath>
int main()
{
    std::mt19937 gen( 1 );
    const int n = 5, T = 200000;
    double w[n] = { 1, 1, 1, 1, 1 };
    int count[n] = {};
    for( int t = 0; t < T; t++ )
    {
        std::vector<size_t> b;
        Seldon::reservoir_sampling_A_ExpJ( 1, n, [&]( size_t i ) { return w[i]; }, b, gen );
        count[b.at( 0 )]++;
    }
    for( int i = 0; i < n; i++ )
        if( std::abs( count[i] - T / 5.0 ) > 8 * std::sqrt( T * 0.16 ) )
        { printf( "item %d of 5 equal ones was drawn %d of %d times\n", i, count[i], T ); return 1; }
    return 0;
}
""")
''')

D("c28-covariance", "C28", [("include/util/math.hpp",
  "std::sqrt( 1.0 - covariance * covariance ) * n2;", "std::sqrt( 1.0 - std::abs( covariance ) ) * n2;")],
  "a covariance other than 0, 1, -1", "the second component of the bivariate normal distribution does not have unit variance", r'''
run_prog(r"""
#include <random>
#include <util/math.hpp>
#include <cstdio>
#include <cmath>
int main()
{
    std::mt19937 gen( 1 );
    Seldon::bivariate_normal_distribution<double> d( 0.5 );
    double s2 = 0, c = 0;
    const int T = 200000;
    for( int t = 0; t < T; t++ )
    {
        auto z = d( gen );
        s2 += z[1] * z[1] / T;
        c += z[0] * z[1] / T;
    }
    printf( "variance %g covariance %g\n", s2, c );
    return std::abs( s2 - 1 ) < 0.03 && std::abs( c - 0.5 ) < 0.03 ? 0 : 1;
}
""")
''')

D("c29-homophily-order", "C29", [("src/config_parser.cpp",
  """    set_if_specified( model_settings.homophily, toml_model_opt["homophily"] );
""", ""), ("src/config_parser.cpp", """    push_back_bot_array( bot_homophily, model_settings.bot_homophily, model_settings.homophily );
""", """    push_back_bot_array( bot_homophily, model_settings.bot_homophily, model_settings.homophily );
    set_if_specified( model_settings.homophily, toml_model_opt["homophily"] );
""")], "bots without bot_homophily in a configuration that sets homophily", "the bots get the built-in default homophily instead of the configured one", r'''
open(os.path.join(TMP, "c.toml"), "w").write("""
[simulation]
model = "ActivityDriven"
[ActivityDriven]
homophily = 2.75
n_bots = 2
""")
r = prog(build(r"""
#include <config_parser.hpp>
#include <cstdio>
int main( int, char ** argv )
{
    auto o = Seldon::Config::parse_config_file( argv[1] );
    auto s = std::get<Seldon::Config::ActivityDrivenSettings>( o.model_settings );
    printf( "homophily %g, of the bots %g %g\n", s.homophily, s.bot_homophily.at( 0 ), s.bot_homophily.at( 1 ) );
    return s.homophily == 2.75 && s.bot_homophily.at( 0 ) == 2.75 && s.bot_homophily.at( 1 ) == 2.75 ? 0 : 1;
}
"""), os.path.join(TMP, "c.toml"))
expect(r.returncode == 0, r.stdout)
''')

D("c30-bot-homophily", "C30", [("src/config_parser.cpp",
  "        check( name_and_var( model_settings.bot_homophily ), check_bot_size, bot_msg );",
  "        check( name_and_var( model_settings.bot_activity ), check_bot_size, bot_msg );")],
  "a bot_homophily list that is shorter than the number of bots", "the short list is accepted (and read past its end later)", r'''
CONF = """
[simulation]
model = "ActivityDriven"
rng_seed = 1
[model]
max_iterations = 1
[ActivityDriven]
n_bots = 3
bot_m = [1, 1, 1]
bot_activity = [1.0, 1.0, 1.0]
bot_opinion = [0.1, 0.2, 0.3]
bot_homophily = %s
[network]
number_of_agents = 5
connections_per_agent = 1
"""
exe = build()
code, out = sim(exe, CONF % "[0.1, 0.2, 0.3]")
expect(code == 0, "three entries: exit status %r" % code)
code, out = sim(exe, CONF % "[0.1, 0.2]")
expect(code != 0 and not out, "two entries for three bots: exit status %r, files %r" % (code, sorted(out)))
print("ok")
''')

D("c05-short-weights", "C05", [("include/network_io.hpp",
  """                row += fmt::format( "{:>25}, ", weight );""", """                row += fmt::format( "{:>25.16}, ", weight );""")],
  "a weight that needs 17 digits and is not the last one of its row", "the weights that are read back differ in the last bit", r'''
run_prog(r"""
#include <network.hpp>
#include <network_io.hpp>
#include <network_generation.hpp>
#include <agents/simple_agent.hpp>
#include <cstdio>
int main()
{
    using N = Seldon::Network<Seldon::SimpleAgent>;
    N n( 50 );
    std::mt19937 gen( 1 );
    std::uniform_real_distribution<> u;
    for( size_t i = 0; i < 50; i++ )
        for( size_t j = 0; j < 5; j++ )
            n.push_back_neighbour_and_weight( i, ( i + j ) % 50, u( gen ) );
    Seldon::network_to_file( n, "n.txt" );
    auto m = Seldon::NetworkGeneration::generate_from_file<Seldon::SimpleAgent>( "n.txt" );
    for( size_t i = 0; i < 50; i++ )
        for( size_t j = 0; j < 5; j++ )
            if( n.get_weights( i )[j] != m.get_weights( i )[j] )
            { printf( "%.17g became %.17g\n", n.get_weights( i )[j], m.get_weights( i )[j] ); return 1; }
    return 0;
}
""")
''')

D("c04-shared-buffer", "C04", [("include/models/ActivityDrivenModel.hpp",
  "    std::set<std::pair<size_t, size_t>> reciprocal_edge_buffer{};",
  "    inline static std::set<std::pair<size_t, size_t>> reciprocal_edge_buffer{}; // avoids reallocations")],
  "two simulations that run in two threads at the same time", "the simulations share a buffer: data race, wrong contacts or a crash", r'''
CONF = """
[simulation]
model = "ActivityDriven"
rng_seed = 1
[model]
max_iterations = 50
[ActivityDriven]
m = 3
reciprocity = 0.5
[network]
number_of_agents = 30
connections_per_agent = 2
"""
open(os.path.join(TMP, "c.toml"), "w").write(CONF)
r = prog(build(r"""
#include <config_parser.hpp>
#include <simulation.hpp>
#include <thread>
using namespace Seldon;
int main( int, char ** argv )
{
    auto o = Config::parse_config_file( argv[1] );
    auto work = [&] {
        Simulation<ActivityDrivenModel::AgentT> s( o, std::nullopt, std::nullopt );
        for( int t = 0; t < 50; t++ )
            s.model->iteration();
    };
    std::thread a( work ), b( work );
    a.join();
    b.join();
    return 0;
}
""", flags=["-fsanitize=thread", "-g"]), os.path.join(TMP, "c.toml"))
expect(r.returncode == 0, r.stdout[:3000])
print("ok")
''')

D("c17-last-agent", "C17", [("include/models/DeffuantModel.hpp",
  """            draw_unique_k_from_n( std::nullopt, 2, network.n_agents(), interacting_agents, gen );

            return interacting_agents;""", """            // The second partner is drawn from the others, numbered from 0 without the first one
            auto agent1_idx = std::uniform_int_distribution<size_t>( 0, network.n_agents() - 1 )( gen );
            auto agent2_idx = std::uniform_int_distribution<size_t>( 0, network.n_agents() - 2 )( gen );
            if( agent2_idx == agent1_idx )
                agent2_idx = network.n_agents() - 1 - agent2_idx;
            interacting_agents = { agent1_idx, agent2_idx };

            return interacting_agents;""")],
  "an odd number of agents: the middle agent can be its own partner; otherwise the pairs are not equally likely", "an agent interacts with itself, and some pairs are more likely than others", r'''
CONF = """
[simulation]
model = "Deffuant"
rng_seed = 1
[model]
max_iterations = 1
[Deffuant]
homophily_threshold = 10.0
mu = 0.5
[network]
number_of_agents = 5
connections_per_agent = 1
"""
open(os.path.join(TMP, "c.toml"), "w").write(CONF)
r = prog(build(r"""
#include <config_parser.hpp>
#include <simulation.hpp>
#include <map>
using namespace Seldon;
int main( int, char ** argv )
{
    auto o = Config::parse_config_file( argv[1] );
    Simulation<DeffuantModel::AgentT> s( o, std::nullopt, std::nullopt );
    auto & model = dynamic_cast<DeffuantModel &>( *s.model );
    std::map<std::pair<size_t, size_t>, int> count;
    const int T = 20000;
    for( int t = 0; t < T; t++ )
    {
        auto p = model.select_interacting_agent_pair();
        if( p.size() != 2 || p[0] == p[1] ) { printf( "agent %zu interacts with itself\n", p[0] ); return 1; }
        count[{ std::min( p[0], p[1] ), std::max( p[0], p[1] ) }]++;
    }
    for( size_t i = 0; i < 5; i++ )
        for( size_t j = i + 1; j < 5; j++ )
            if( std::abs( count[{ i, j }] - T / 10.0 ) > 400 ) { printf( "pair %zu %zu: %d of %d\n", i, j, count[{ i, j }], T ); return 1; }
    return 0;
}
"""), os.path.join(TMP, "c.toml"))
expect(r.returncode == 0, r.stdout[-2000:])
print("ok")
''')

D("c18-last-neighbour", "C18", [("include/models/DeffuantModel.hpp",
  "            auto dist_n         = std::uniform_int_distribution<size_t>( 0, n_neighbours - 1 );",
  "            auto dist_n         = std::uniform_int_distribution<size_t>( 0, std::max<size_t>( n_neighbours, 2 ) - 2 );")],
  "many interactions on the lattice: who interacts with whom how often", "the last neighbour of the list is never chosen", r'''
CONF = """
[simulation]
model = "Deffuant"
rng_seed = 1
[model]
max_iterations = 1
[Deffuant]
homophily_threshold = 10.0
use_network = true
[network]
number_of_agents = 16
connections_per_agent = 1
"""
open(os.path.join(TMP, "c.toml"), "w").write(CONF)
r = prog(build(r"""
#include <config_parser.hpp>
#include <simulation.hpp>
#include <map>
using namespace Seldon;
int main( int, char ** argv )
{
    auto o = Config::parse_config_file( argv[1] );
    Simulation<DeffuantModel::AgentT> s( o, std::nullopt, std::nullopt );
    auto & model = dynamic_cast<DeffuantModel &>( *s.model );
    std::map<std::pair<size_t, size_t>, int> count;
    for( int t = 0; t < 64000; t++ )
    {
        auto p = model.select_interacting_agent_pair();
        count[{ p.at( 0 ), p.at( 1 ) }]++;
    }
    if( count.size() != 64 ) { printf( "%zu of 64 ordered pairs of neighbours occur\n", count.size() ); return 1; }
    for( auto & [p, k] : count )
        if( std::abs( k - 1000 ) > 300 ) { printf( "pair %zu %zu: %d instead of 1000\n", p.first, p.second, k ); return 1; }
    return 0;
}
"""), os.path.join(TMP, "c.toml"))
expect(r.returncode == 0, r.stdout[-2000:])
print("ok")
''')

D("c19-threshold", "C19", [("src/models/DeffuantModelVector.cpp",
  "    if( distance < homophily_threshold )", "    if( distance <= homophily_threshold )")],
  "a threshold that is an integer, and agents with exactly this Hamming distance", "agents at the threshold interact", r'''
CONF = """
[simulation]
model = "Deffuant"
rng_seed = 1
[io]
n_output_agents = 1
[model]
max_iterations = 5
[Deffuant]
homophily_threshold = %g
binary_vector = true
dim = 4
[network]
number_of_agents = 2
connections_per_agent = 1
"""
exe = build()
code, out = sim(exe, CONF % 2, None, "#\n0, 0, 0, 1, 1\n1, 0, 1, 0, 1\n")
expect(code == 0, "exit status %r" % code)
expect(rows(out["opinions_5.txt"]) == [[0, 0, 1, 1], [0, 1, 0, 1]], "distance 2, threshold 2: " + out["opinions_5.txt"])
code, out = sim(exe, CONF % 2.5, None, "#\n0, 0, 0, 1, 1\n1, 0, 1, 0, 1\n")
r = rows(out["opinions_5.txt"])
expect(r[0] == r[1], "distance 2, threshold 2.5: no agreement")
print("ok")
''')

D("c20-mean-activities", "C20", [("include/models/ActivityDrivenModel.hpp",
  """            if( use_reluctances )
            {
                network.agents[i].data.reluctance = res[1];
            }
            if( mean_activities )""", """            if( use_reluctances )
            {
                network.agents[i].data.reluctance = res[1];
            }
            else if( mean_activities )""")], "reluctances and mean activities at the same time", "the activities are random although mean activities are requested", r'''
CONF = """
[simulation]
model = "ActivityDriven"
rng_seed = 1
[model]
max_iterations = 1
[ActivityDriven]
mean_activities = true
reluctances = %s
[network]
number_of_agents = 8
connections_per_agent = 1
"""
exe = build()
for r in ("false", "true"):
    code, out = sim(exe, CONF % r)
    expect(code == 0, "exit status %r" % code)
    a = [x[1] for x in rows(out["opinions_0.txt"])]
    expect(len(set(a)) == 1, "reluctances = %s: the activities are %r" % (r, a))
print("ok")
''')

D("c24-first-back-edge", "C24", [("include/connectivity.hpp",
  "                    lowest[v] = std::min( lowest[v], num[u] );",
  """                    if( lowest[v] == num[v] )
                        lowest[v] = std::min( lowest[v], num[u] );""")],
  "a vertex with two edges back to vertices on the stack, the first one to the higher vertex", "only the first back edge counts: a component is cut into pieces", r'''
run_prog(r"""
#include <network.hpp>
#include <cstdio>
int main()
{
    using N = Seldon::Network<double>;
    // 0 -> 1 -> 2 -> {1, 0}: one component
    N n( std::vector<std::vector<size_t>>{ { 1 }, { 2 }, { 1, 0 } }, std::vector<std::vector<double>>{ { 1 }, { 1 }, { 1, 1 } }, N::EdgeDirection::Incoming );
    auto c = n.strongly_connected_components();
    printf( "%zu components\n", c.size() );
    return c.size() == 1 && c[0].size() == 3 ? 0 : 1;
}
""")
''')

D("c32-append", "C32", [("include/network_io.hpp",
  """void network_to_dot_file( const Network<AgentT> & network, const std::string & file_path )
{
    std::fstream fs;
    fs.open( file_path, std::fstream::in | std::fstream::out | std::fstream::trunc );""",
  """void network_to_dot_file( const Network<AgentT> & network, const std::string & file_path )
{
    std::fstream fs;
    fs.open( file_path, std::fstream::in | std::fstream::out | std::fstream::app );""")],
  "an export to a file that exists already", "the old digraph stays in the file", r'''
run_prog(r"""
#include <network.hpp>
#include <network_io.hpp>
#include <util/misc.hpp>
#include <cstdio>
int main()
{
    Seldon::Network<double> n( 2 );
    n.push_back_neighbour_and_weight( 0, 1, 1.0 );
    Seldon::network_to_dot_file( n, "g.dot" );
    auto a = Seldon::get_file_contents( "g.dot" );
    Seldon::network_to_dot_file( n, "g.dot" );
    auto b = Seldon::get_file_contents( "g.dot" );
    printf( "%s", b.c_str() );
    return a == b ? 0 : 1;
}
""")
''')

D("c31-hamming-prefix", "C31", [("include/util/math.hpp",
  """    if( v1.size() != v2.size() )
    {
        throw std::runtime_error( "v1 and v2 need""", """    if( v1.size() < v2.size() )
    {
        throw std::runtime_error( "v1 and v2 need""")],
  "a first vector that is longer than the second", "vectors of unequal length are compared up to the shorter length", r'''
run_prog(r"""
#include <random>
#include <util/math.hpp>
#include <cstdio>
int main()
{
    std::vector<int> a{ 0, 1, 1 }, b{ 0, 1 };
    int refused = 0;
    try { Seldon::hamming_distance( std::span( a ), std::span( b ) ); } catch( const std::exception & ) { refused++; }
    try { Seldon::hamming_distance( std::span( b ), std::span( a ) ); } catch( const std::exception & ) { refused++; }
    printf( "%d of 2 refused\n", refused );
    return refused == 2 ? 0 : 1;
}
""")
''')

D("c15-accumulating", "C15", [("include/models/ActivityDrivenModel.hpp",
  """            network.set_weights( idx_agent, weights );
            contact_prob_list[idx_agent] = weights; // set to zero""",
  """            contact_prob_list[idx_agent] = weights; // set to zero""")],
  "a second iteration with mean weights", "the weights of earlier iterations are added up", r'''
CONF = """
[simulation]
model = "ActivityDriven"
rng_seed = 1
[io]
n_output_network = 1
[model]
max_iterations = 3
[ActivityDriven]
mean_weights = true
mean_activities = true
homophily = 0.0
m = 2
reciprocity = 0.5
[network]
number_of_agents = 4
connections_per_agent = 1
"""
code, out = sim(build(), CONF)
expect(code == 0, "exit status %r" % code)
for t in (2, 3):  # without homophily the expected contacts do not depend on the opinions
    expect(out["network_%d.txt" % t] == out["network_1.txt"], "the weights change: " + out["network_%d.txt" % t])
print("ok")
''')

D("c14-tolerance", "C14", [("include/models/ActivityDrivenModel.hpp",
  "        constexpr double tolerance = 1e-10;", "        constexpr double tolerance = 1e-5;")],
  "opinions that are closer than 1e-5, as in every late stage of a consensus", "all close agents get the same weight: homophily stops at small distances", r'''
CONF = """
[simulation]
model = "ActivityDriven"
rng_seed = 1
[io]
n_output_network = 1
[model]
max_iterations = 400
[ActivityDriven]
m = 1
homophily = 1.0
reciprocity = 0.0
dt = 1e-14
[network]
number_of_agents = 3
connections_per_agent = 1
"""
# agent 0 is ten times closer to agent 1 than to agent 2
code, out = sim(build(), CONF, None, "#\n0, 0.0, 1.0, 1.0\n1, 1e-7, 0.0, 1.0\n2, 1e-6, 0.0, 1.0\n")
expect(code == 0, "exit status %r" % code)
k = sum(0 in net(out["network_%d.txt" % t])[1][0] for t in range(1, 401))
print("agent 0 contacts agent 1 in %d of 400 iterations, expected 364" % k)
expect(k > 310, "homophily is not respected")
''')

D("c08-velocity-reset", "C08", [("src/models/InertialModel.cpp",
  """    Model<AgentT>::iteration();

    update_network();""", """    Model<AgentT>::iteration();

    // The agents are at rest in the beginning
    if( n_iterations() == 1 )
    {
        for( auto & agent : network.agents )
            agent.data.velocity = 0.0;
    }

    update_network();""")], "an agent file with velocities, as written by an earlier run of the inertial model", "a continued run starts at rest", r'''
CONF = """
[simulation]
model = "ActivityDrivenInertial"
rng_seed = 1
[io]
n_output_agents = 1
[model]
max_iterations = %d
[ActivityDrivenInertial]
mean_weights = true
mean_activities = true
dt = 0.1
m = 2
reciprocity = 0.5
[network]
number_of_agents = 4
connections_per_agent = 1
"""
exe = build()
code, out = sim(exe, CONF % 6)
expect(code == 0, "exit status %r" % code)
code, cont = sim(exe, CONF % 3, None, out["opinions_3.txt"])
expect(code == 0, "exit status %r" % code)
expect(cont["opinions_3.txt"] == out["opinions_6.txt"], "3 + 3 iterations differ from 6 iterations:\n%s\n%s" % (cont["opinions_3.txt"], out["opinions_6.txt"]))
print("ok")
''')

D("c09-negligible", "C09", [("src/models/DeGroot.cpp",
  """            weight  = weight_buffer[j];
""", """            weight  = weight_buffer[j];
            if( std::abs( weight ) < 1e-8 )
                continue; // negligible
""")], "very small weights, together with large opinions or many of them", "weighted sums miss the terms with small weights", r'''
CONF = """
[simulation]
model = "DeGroot"
[io]
n_output_agents = 1
[model]
max_iterations = 1
[DeGroot]
convergence = 0.0
"""
NET = "#\n0, 2, 0, 1, 1.0, 1e-9\n1, 1, 1, 1.0\n"
code, out = sim(build(), CONF, NET, "#\n0, 1.0\n1, 1e9\n")
expect(code == 0, "exit status %r" % code)
x = rows(out["opinions_1.txt"])
expect(abs(x[0][0] - 2.0) < 1e-9, "opinion %r instead of 2" % x[0][0])
print("ok")
''')

D("c02-non-square", "C02", [("include/models/DeffuantModel.hpp",
  "            if( n_edge * n_edge != network.n_agents() )", "            if( n_edge * n_edge > network.n_agents() )")],
  "the Deffuant model on the lattice with a number of agents that is not a square", "the simulation runs with fewer agents than requested instead of being refused", r'''
CONF = """
[simulation]
model = "Deffuant"
rng_seed = 1
[model]
max_iterations = 1
[Deffuant]
use_network = true
[network]
number_of_agents = %d
connections_per_agent = 1
"""
exe = build()
code, out = sim(exe, CONF % 9)
expect(code == 0 and len(rows(out["opinions_0.txt"])) == 9, "9 agents: exit status %r" % code)
code, out = sim(exe, CONF % 11)
expect(code != 0 and not out, "11 agents are no square: exit status %r, files %r" % (code, sorted(out)))
print("ok")
''')

D("c06-activity-digits", "C06", [("include/agents/activity_agent.hpp",
  """    return fmt::format( "{}, {}, {}", agent.data.opinion, agent.data.activity, agent.data.reluctance );""",
  """    return fmt::format( "{}, {:.16g}, {:.16g}", agent.data.opinion, agent.data.activity, agent.data.reluctance );""")],
  "activities or reluctances that need 17 digits", "activities read back differ in the last bit", r'''
run_prog(r"""
#include <network.hpp>
#include <agents/activity_agent.hpp>
#include <random>
#include <cstdio>
int main()
{
    using A = Seldon::ActivityAgent;
    Seldon::Network<A> n( 200 );
    std::mt19937 gen( 1 );
    std::uniform_real_distribution<> u;
    for( auto & a : n.agents )
        a.data = { u( gen ), u( gen ), u( gen ) };
    Seldon::agents_to_file( n, "a.txt" );
    auto b = Seldon::agents_from_file<A>( "a.txt" );
    for( size_t i = 0; i < 200; i++ )
        if( b.at( i ).data.opinion != n.agents[i].data.opinion || b[i].data.activity != n.agents[i].data.activity || b[i].data.reluctance != n.agents[i].data.reluctance )
        { printf( "agent %zu: activity %.17g became %.17g\n", i, n.agents[i].data.activity, b[i].data.activity ); return 1; }
    return 0;
}
""")
''')

D("c03-seed-sign", "C03", [("include/simulation.hpp",
  "        gen = std::mt19937( options.rng_seed );", "        gen = std::mt19937( std::abs( options.rng_seed ) );")],
  "a negative seed, compared with the positive one (or the most negative one)", "two different seeds give the same random choices", r'''
CONF = """
[simulation]
model = "ActivityDriven"
rng_seed = %d
[model]
max_iterations = 2
[network]
number_of_agents = 6
connections_per_agent = 2
"""
exe = build()
a = sim(exe, CONF % 42)
b = sim(exe, CONF % -42)
c = sim(exe, CONF % -42)
expect(a[0] == b[0] == 0, "exit status")
expect(b == c, "the same seed gives different files")
expect(a[1] != b[1], "the seeds 42 and -42 give the same files")
print("ok")
''')

D("c01-bot-off-by-one", "C01", [("include/models/ActivityDrivenModel.hpp",
  "        if( bot_present() && idx_contacter < n_bots )", "        if( bot_present() && idx_contacter <= n_bots )")],
  "bots and at least one ordinary agent that is active", "the homophily of the first ordinary agent is read past the end of the list of the bots", r'''
CONF = """
[simulation]
model = "ActivityDriven"
rng_seed = 1
[model]
max_iterations = 30
[ActivityDriven]
m = 2
n_bots = 2
bot_m = [1, 1]
bot_activity = [1.0, 1.0]
bot_opinion = [0.1, 0.2]
bot_homophily = [0.3, 0.4]
eps = 0.5
[network]
number_of_agents = 5
connections_per_agent = 1
"""
code, out = sim(build(flags=["-fsanitize=address"]), CONF)
expect(code == 0, "exit status %r under the address sanitizer" % code)
print("ok")
''')

D("c25-self-connection", "C25", [("include/network_generation.hpp",
  """        draw_unique_k_from_n(
            i_agent, std::min( n_connections, n_agents - 1 ), n_agents, incoming_neighbour_buffer, gen );""",
  """        // The agent itself only has to be left out if it is added below
        draw_unique_k_from_n(
            self_interaction ? std::optional<size_t>( i_agent ) : std::nullopt,
            std::min( n_connections, n_agents - 1 ), n_agents, incoming_neighbour_buffer, gen );""")],
  "a network generated without self-interaction", "agents are connected with themselves, and have one neighbour less", r'''
run_prog(r"""
#include <network.hpp>
#include <network_generation.hpp>
#include <cstdio>
int main()
{
    std::mt19937 gen( 1 );
    for( int t = 0; t < 50; t++ )
    {
        auto n = Seldon::NetworkGeneration::generate_n_connections<double>( 6, 3, false, gen );
        for( size_t i = 0; i < 6; i++ )
            for( size_t j : n.get_neighbours( i ) )
                if( i == j ) { printf( "agent %zu is connected with itself\n", i ); return 1; }
    }
    return 0;
}
""")
''')

D("c33-counts-from", "C33", [("include/simulation.hpp",
  """            "Finished after {} iterations, total time = {:%Hh %Mm %Ss}\\n", this->model->n_iterations(),""",
  """            "Finished after {} iterations, total time = {:%Hh %Mm %Ss}\\n",
            this->model->n_iterations() + initial_step_number,"""),],
  "a run whose numbering does not start at zero (start_numbering_from), as when an earlier run is continued",
  "the program says it has done more iterations than it has", r'''
CONF = """
[simulation]
model = "DeGroot"
rng_seed = 3
[io]
n_output_agents = 1
start_numbering_from = %d
[model]
max_iterations = 4
[DeGroot]
convergence = 1e-30
[network]
number_of_agents = 6
connections_per_agent = 2
"""
exe = build()
for start in (0, 7):
    open(os.path.join(TMP, "c.toml"), "w").write(CONF % start)
    text = prog(exe, os.path.join(TMP, "c.toml"), "-o", os.path.join(TMP, "out%d" % start)).stdout
    expect("Finished after 4 iterations" in text, "four iterations from %d:\n%s" % (start, text))
print("ok")
''')

D("c34-mean-rows", "C34", [("include/models/ActivityDrivenModel.hpp",
  "            contact_prob_list[idx_agent] = weights; // set to zero",
  "            contact_prob_list.insert( contact_prob_list.begin() + idx_agent, weights ); // set to zero"),],
  "mean weights, and enough iterations: every one of them puts new rows before the ones of the iteration before, which are never used again",
  "the memory in use grows with every iteration, by the square of the number of agents", r'''
run_prog(r"""
#include <malloc.h>
#include <models/ActivityDrivenModel.hpp>
#include <network_generation.hpp>
#include <cstdio>
int main()
{
    Seldon::Config::ActivityDrivenSettings s;
    s.mean_weights = true;
    std::mt19937 gen( 1 );
    auto network = Seldon::NetworkGeneration::generate_n_connections<Seldon::ActivityAgent>( 30, 3, true, gen );
    Seldon::ActivityDrivenModel model( s, network, gen );
    auto in_use = [] { auto m = mallinfo2(); return m.uordblks + m.hblkhd; };
    size_t early = 0;
    for( int t = 0; t < 300; t++ )
    {
        model.iteration();
        if( t == 50 )
            early = in_use();
    }
    size_t late = in_use();
    printf( "%zu bytes after 50 iterations, %zu after 300\n", early, late );
    return late > early + 100000;
}
""", library=True)
''')

D("c34-open-file", "C34", [("include/util/misc.hpp",
  """    std::ifstream in( filename, std::ios::in | std::ios::binary );
    if( in )
    {
        std::string contents;
        in.seekg( 0, std::ios::end );
        contents.resize( in.tellg() );
        in.seekg( 0, std::ios::beg );
        in.read( &contents[0], contents.size() );
        if( !in )
        {
            throw std::runtime_error( fmt::format( "Cannot read all of {}", fmt::streamed( path ) ) );
        }
        in.close();
        return ( contents );
    }""",
  """    std::FILE * in = std::fopen( filename.c_str(), "rb" );
    if( in != nullptr )
    {
        std::string contents;
        std::fseek( in, 0, SEEK_END );
        contents.resize( static_cast<size_t>( std::ftell( in ) ) );
        std::fseek( in, 0, SEEK_SET );
        const size_t n_read = std::fread( &contents[0], 1, contents.size(), in );
        std::fclose( in );
        if( n_read != contents.size() )
        {
            throw std::runtime_error( fmt::format( "Cannot read all of {}", fmt::streamed( path ) ) );
        }
        return ( contents );
    }""")],
  "an input that can be opened but has no usable size: a directory given as network or agent file, so that reserving the text fails",
  "the file handle stays open after the refused simulation", r'''
run_prog(r"""
#include <cstdio>
#include <dirent.h>
#include <fcntl.h>
#include <unistd.h>
#include <simulation.hpp>
static int fds()
{
    int k = 0;
    DIR * d = opendir( "/proc/self/fd" );
    while( readdir( d ) )
        k++;
    closedir( d );
    return k;
}
int main()
{
    Seldon::Config::SimulationOptions o;
    o.model = Seldon::Config::Model::DeGroot;
    o.model_settings = Seldon::Config::DeGrootSettings{};
    int f = open( "huge", O_CREAT | O_WRONLY, 0644 );
    if( ftruncate( f, 1LL << 62 ) )
        printf( "no huge files here\n" );
    close( f );
    bool fine = true;
    // where a directory has a size, and which one, depends on the file system
    for( std::string name : { ".", "huge", "/", "/dev", "/proc", "/tmp", "/usr" } )
    {
        if( name == "huge" && truncate( "huge", 1LL << 62 ) )
            continue;
        const int before = fds();
        for( int t = 0; t < 10; t++ )
            try
            {
                Seldon::Simulation<Seldon::DeGrootModel::AgentT> sim( o, name, std::nullopt );
                printf( "%s is a network\n", name.c_str() );
            }
            catch( const std::exception & e )
            {
            }
        printf( "%s: %d files open before, %d after\n", name.c_str(), before, fds() );
        fine = fine && fds() <= before;
    }
    return !fine;
}
""", library=True)
''')

D("c35-rdbuf", "C35", [("include/util/misc.hpp",
  """        std::string contents;
        in.seekg( 0, std::ios::end );
        contents.resize( in.tellg() );
        in.seekg( 0, std::ios::beg );
        in.read( &contents[0], contents.size() );
        if( !in )""",
  """        std::stringstream buffer;
        buffer << in.rdbuf();
        std::string contents = buffer.str();
        if( !in )"""), ("include/util/misc.hpp", "#include <string>\n", "#include <sstream>\n#include <string>\n")],
  "a read error after the first block of a network or agent file",
  "the part of the file before the error is taken for the whole file: the error only shows in the state of the other stream", r'''
import shutil
d = os.path.join(TMP, "shim")
os.makedirs(d)
open(os.path.join(d, "s.c"), "w").write(r"""
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <stdio.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
static int calls;
static int hit(int fd)
{
    char link[64], name[4096];
    snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
    long l = syscall(SYS_readlinkat, AT_FDCWD_, link, name, sizeof name - 1);
    if (l <= 0)
        return 0;
    name[l] = 0;
    return strstr(name, "broken_disk") && ++calls > 1;
}
ssize_t read(int fd, void *b, size_t n)
{
    if (hit(fd)) { errno = EIO; return -1; }
    return syscall(SYS_read, fd, b, n > 4096 ? 4096 : n);
}
ssize_t readv(int fd, const struct iovec *v, int k)
{
    if (hit(fd)) { errno = EIO; return -1; }
    return syscall(SYS_readv, fd, v, k);
}
""".replace("AT_FDCWD_", "-100"))
r = subprocess.run(["gcc", "-shared", "-fPIC", "-o", os.path.join(d, "s.so"), os.path.join(d, "s.c")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
if r.returncode:
    broken(r.stdout)
exe = build(r"""
#include <cstdio>
#include <exception>
#include <string>
#include <util/misc.hpp>
int main( int argc, char ** argv )
{
    // the same rows again and again, so that a part of the file is a valid file as well
    std::string text;
    for( int i = 0; i < 60000; i++ )
        text += "0, 0.5\n";
    FILE * f = fopen( argv[1], "w" );
    fwrite( text.data(), 1, text.size(), f );
    fclose( f );
    try
    {
        auto got = Seldon::get_file_contents( argv[1] );
        printf( "%zu of %zu bytes are read\n", got.size(), text.size() );
        return got == text ? 0 : 1;
    }
    catch( const std::exception & e )
    {
        printf( "%s\n", e.what() );
        return 5;
    }
}
""", library=False)
r = prog(exe, "fine.txt")
expect(r.returncode == 0, "a file is not read: " + r.stdout)
r = prog("/usr/bin/env", "LD_PRELOAD=" + os.path.join(d, "s.so"), exe, "broken_disk.txt")
expect(r.returncode == 5, "the second read fails, but: " + r.stdout)
print("ok")
''')

D("c35-rename", "C35", [("include/agent_io.hpp",
  """    std::fstream fs;
    fs.open( file_path, std::fstream::in | std::fstream::out | std::fstream::trunc );
    if( !fs )""",
  """    // Write next to the file and put it into place when it is complete
    const std::string temporary = file_path + ".part";
    std::fstream fs;
    fs.open( temporary, std::fstream::in | std::fstream::out | std::fstream::trunc );
    if( !fs )"""), ("include/agent_io.hpp",
  """        throw std::runtime_error( fmt::format( "Cannot write to {}", file_path ) );
    }
""",
  """        throw std::runtime_error( fmt::format( "Cannot write to {}", file_path ) );
    }
    std::error_code error;
    std::filesystem::rename( temporary, file_path, error );
"""), ("include/agent_io.hpp", "#include <stdexcept>\n", "#include <filesystem>\n#include <stdexcept>\n#include <system_error>\n")],
  "an output file that cannot be replaced, such as a directory of that name, although files can be created next to it",
  "the file is lost and the run ends with status 0", r'''
exe = build()
conf = """
[simulation]
model = "DeGroot"
rng_seed = 3
[io]
n_output_agents = 1
[model]
max_iterations = 3
[DeGroot]
convergence = 1e-300
[network]
number_of_agents = 20
connections = 3
"""
rc, out = sim(exe, conf)
expect(rc == 0 and "opinions_2.txt" in out, "an ordinary run fails")
d = os.path.join(TMP, "x")
os.makedirs(os.path.join(d, "out", "opinions_2.txt"))
open(os.path.join(d, "c.toml"), "w").write(conf)
r = subprocess.run([exe, "c.toml", "-o", "out"], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=100)
expect(r.returncode != 0, "opinions_2.txt cannot be written, but the run ends with status 0")
print("ok")
''')

D("c35-batched", "C35", [("include/simulation.hpp",
  """                auto filename = fmt::format( "opinions_{}.txt", this->model->n_iterations() + initial_step_number );
                Seldon::agents_to_file( network, ( output_dir_path / fs::path( filename ) ).string() );
            }""",
  """                auto filename = fmt::format( "opinions_{}.txt", this->model->n_iterations() + initial_step_number );
                pending.emplace_back( ( output_dir_path / fs::path( filename ) ).string(), network );
            }
            // Writing several files together keeps the disk out of most iterations
            if( pending.size() >= 8 )
            {
                write_pending();
            }"""), ("include/simulation.hpp",
  """        auto t_simulation_end = std::chrono::high_resolution_clock::now();
        auto total_time """,
  """        write_pending();

        auto t_simulation_end = std::chrono::high_resolution_clock::now();
        auto total_time """), ("include/simulation.hpp",
  """        this->model->initialize_iterations();

        typedef""",
  """        this->model->initialize_iterations();

        std::vector<std::pair<std::string, Network<AgentType>>> pending;
        const auto write_pending = [&pending]
        {
            for( const auto & [path, state] : pending )
            {
                Seldon::agents_to_file( state, path );
            }
            pending.clear();
        };

        typedef"""), ("include/simulation.hpp", "#include <optional>\n", "#include <optional>\n#include <utility>\n#include <vector>\n")],
  "a run that is killed, or in which another file cannot be written, after at least one iteration and before eight of them have been collected",
  "the opinions of up to eight earlier iterations are lost", r'''
exe = build()
conf = """
[simulation]
model = "DeGroot"
rng_seed = 3
[io]
n_output_agents = 1
n_output_network = 1
[model]
max_iterations = 6
[DeGroot]
convergence = 1e-300
[network]
number_of_agents = 20
connections = 3
"""
rc, ref = sim(exe, conf)
expect(rc == 0 and "opinions_2.txt" in ref, "an ordinary run fails")
d = os.path.join(TMP, "x")
os.makedirs(os.path.join(d, "out", "network_4.txt"))  # nothing can be written there: the run ends in iteration 4
open(os.path.join(d, "c.toml"), "w").write(conf)
r = subprocess.run([exe, "c.toml", "-o", "out"], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=100)
expect(r.returncode != 0, "network_4.txt cannot be written, but the run ends with status 0")
for i in (1, 2, 3):
    f = os.path.join(d, "out", "opinions_%d.txt" % i)
    expect(os.path.exists(f) and open(f).read() == ref["opinions_%d.txt" % i], "opinions_%d.txt is missing or incomplete" % i)
print("ok")
''')
