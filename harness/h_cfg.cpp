// Parses and validates configuration files: h_cfg LIST [print], one path per line. For every file one line on stdout:
//   CFG <idx> {json}    accepted
//   REJ <idx> <stage> <what>
// With 'print' what print_settings prints comes before the line, after one with
//   PRINT <idx>
#include "config_parser.hpp"
#include <cmath>
#include <fstream>
#include <iostream>
#include <string>

using namespace Seldon;

static std::string num( double x )
{
    if( std::isnan( x ) )
        return "NaN";
    if( std::isinf( x ) )
        return x > 0 ? "Infinity" : "-Infinity";
    return fmt::format( "{}", x );
}
template<typename T>
static std::string val( const T & x )
{
    if constexpr( std::is_same_v<T, bool> )
        return x ? "true" : "false";
    else if constexpr( std::is_floating_point_v<T> )
        return num( x );
    else
        return fmt::format( "{}", x );
}
template<typename T>
static std::string val( const std::optional<T> & x )
{
    return x.has_value() ? val( x.value() ) : "null";
}
template<typename T>
static std::string val( const std::vector<T> & v )
{
    std::string s = "[";
    for( size_t i = 0; i < v.size(); i++ )
        s += ( i ? "," : "" ) + val( v[i] );
    return s + "]";
}

int main( int argc, char ** argv )
{
    std::ifstream in( argv[1] );
    std::string f;
    for( size_t idx = 0; std::getline( in, f ); idx++ )
    {
        const char * stage = "parse";
        try
        {
            auto o = Config::parse_config_file( f );
            stage  = "validate";
            Config::validate_settings( o );
            if( argc > 2 )
            {
                stage = "print";
                fmt::print( "PRINT {}\n", idx );
                Config::print_settings( o );
                std::fflush( stdout );
            }
            stage         = "report";
            std::string s = fmt::format( "{{\"model\":\"{}\",\"seed\":{}", o.model_string, o.rng_seed );
            auto add      = [&]( const char * k, const auto & v ) { s += fmt::format( ",\"{}\":{}", k, val( v ) ); };
            add( "n_output_agents", o.output_settings.n_output_agents );
            add( "n_output_network", o.output_settings.n_output_network );
            add( "print_progress", o.output_settings.print_progress );
            add( "output_initial", o.output_settings.output_initial );
            add( "start_output", o.output_settings.start_output );
            add( "start_numbering_from", o.output_settings.start_numbering_from );
            add( "number_of_agents", o.network_settings.n_agents );
            add( "connections_per_agent", o.network_settings.n_connections );
            auto activity = [&]( const auto & m )
            {
                add( "max_iterations", m.max_iterations );
                add( "dt", m.dt );
                add( "m", m.m );
                add( "eps", m.eps );
                add( "gamma", m.gamma );
                add( "alpha", m.alpha );
                add( "homophily", m.homophily );
                add( "reciprocity", m.reciprocity );
                add( "K", m.K );
                add( "mean_activities", m.mean_activities );
                add( "mean_weights", m.mean_weights );
                add( "n_bots", m.n_bots );
                add( "bot_m", m.bot_m );
                add( "bot_activity", m.bot_activity );
                add( "bot_opinion", m.bot_opinion );
                add( "bot_homophily", m.bot_homophily );
                add( "reluctances", m.use_reluctances );
                add( "reluctance_mean", m.reluctance_mean );
                add( "reluctance_sigma", m.reluctance_sigma );
                add( "reluctance_eps", m.reluctance_eps );
                add( "covariance_factor", m.covariance_factor );
            };
            switch( o.model )
            {
                case Config::Model::DeGroot: {
                    auto & m = std::get<Config::DeGrootSettings>( o.model_settings );
                    add( "max_iterations", m.max_iterations );
                    add( "convergence", m.convergence_tol );
                    s += ",\"kind\":\"DeGroot\"";
                    break;
                }
                case Config::Model::DeffuantModel: {
                    auto & m = std::get<Config::DeffuantSettings>( o.model_settings );
                    add( "max_iterations", m.max_iterations );
                    add( "homophily_threshold", m.homophily_threshold );
                    add( "mu", m.mu );
                    add( "use_network", m.use_network );
                    add( "binary_vector", m.use_binary_vector );
                    add( "dim", m.dim );
                    s += ",\"kind\":\"Deffuant\"";
                    break;
                }
                case Config::Model::ActivityDrivenModel:
                    activity( std::get<Config::ActivityDrivenSettings>( o.model_settings ) );
                    s += ",\"kind\":\"ActivityDriven\"";
                    break;
                case Config::Model::ActivityDrivenInertial: {
                    auto & m = std::get<Config::ActivityDrivenInertialSettings>( o.model_settings );
                    activity( m );
                    add( "friction_coefficient", m.friction_coefficient );
                    s += ",\"kind\":\"ActivityDrivenInertial\"";
                    break;
                }
            }
            std::cout << "CFG " << idx << " " << s << "}\n" << std::flush;
        }
        catch( const std::exception & e )
        {
            std::string w = e.what();
            for( auto & c : w )
                if( c == '\n' || c == '\r' )
                    c = ' ';
            std::cout << "REJ " << idx << " " << stage << " " << w.substr( 0, 200 ) << "\n" << std::flush;
        }
    }
    std::cout << "DONE\n";
    return 0;
}
