From 9c9fa92eb78bd4891853ad23cb0d36d204dd2ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:50 +0000
Subject: [PATCH 01/32] fix: reservoir_sampling_A_ExpJ leaves a stale sample in
 the buffer for k = 0

---
 include/util/math.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/util/math.hpp b/include/util/math.hpp
index 493e6ab..78326ae 100644
--- a/include/util/math.hpp
+++ b/include/util/math.hpp
@@ -66,7 +66,10 @@ void reservoir_sampling_A_ExpJ(
     size_t k, size_t n, WeightCallbackT weight, std::vector<std::size_t> & buffer, std::mt19937 & mt )
 {
     if( k == 0 )
+    {
+        buffer.clear(); // Nothing is drawn, do not leave a previous sample behind
         return;
+    }
 
     std::uniform_real_distribution<double> distribution( 0.0, 1.0 );
 
-- 
2.43.0


From f120c6adee5fc72ff51b9507ada04d856babbd07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:50 +0000
Subject: [PATCH 02/32] fix: reservoir_sampling_A_ExpJ writes out of bounds
 when asked for more items than there are

---
 include/util/math.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/util/math.hpp b/include/util/math.hpp
index 78326ae..04c1ac2 100644
--- a/include/util/math.hpp
+++ b/include/util/math.hpp
@@ -73,7 +73,6 @@ void reservoir_sampling_A_ExpJ(
 
     std::uniform_real_distribution<double> distribution( 0.0, 1.0 );
 
-    std::vector<size_t> reservoir( k );
     using QueueItemT = std::pair<size_t, double>;
 
     auto compare = []( const QueueItemT & item1, const QueueItemT & item2 ) { return item1.second > item2.second; };
@@ -87,7 +86,8 @@ void reservoir_sampling_A_ExpJ(
         idx++;
     }
 
-    auto X = std::log( distribution( mt ) ) / std::log( H.top().second );
+    // If there are at most k items, all of them have been selected
+    auto X = ( idx < n ) ? std::log( distribution( mt ) ) / std::log( H.top().second ) : 0.0;
     while( idx < n )
     {
         auto w = weight( idx );
@@ -106,7 +106,7 @@ void reservoir_sampling_A_ExpJ(
 
     buffer.resize( H.size() );
 
-    for( size_t i = 0; i < k; i++ )
+    for( size_t i = 0; i < buffer.size(); i++ )
     {
         buffer[i] = H.top().first;
         H.pop();
-- 
2.43.0


From a8dc4bf1260da13c7a94de5824a73517f4cb757c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:50 +0000
Subject: [PATCH 03/32] fix: reservoir_sampling_A_ExpJ selects items of zero
 weight and loses the weights when they are large

---
 include/util/math.hpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/include/util/math.hpp b/include/util/math.hpp
index 04c1ac2..3e08600 100644
--- a/include/util/math.hpp
+++ b/include/util/math.hpp
@@ -81,25 +81,30 @@ void reservoir_sampling_A_ExpJ(
     size_t idx = 0;
     while( ( idx < n ) && ( H.size() < k ) )
     {
-        double r = std::pow( distribution( mt ), 1.0 / weight( idx ) );
-        H.push( { idx, r } );
+        // The keys u^(1/w) are stored as logarithms, since they are not distinguishable from 1.0 if w is large.
+        // Items with a weight of zero must never be selected.
+        const double w = weight( idx );
+        if( w > 0 )
+        {
+            H.push( { idx, std::log( distribution( mt ) ) / w } );
+        }
         idx++;
     }
 
     // If there are at most k items, all of them have been selected
-    auto X = ( idx < n ) ? std::log( distribution( mt ) ) / std::log( H.top().second ) : 0.0;
+    auto X = ( idx < n ) ? std::log( distribution( mt ) ) / H.top().second : 0.0;
     while( idx < n )
     {
         auto w = weight( idx );
         X -= w;
-        if( X <= 0 )
+        if( w > 0 && X <= 0 )
         {
-            auto t                     = std::pow( H.top().second, w );
+            auto t                     = std::exp( H.top().second * w );
             auto uniform_from_t_to_one = distribution( mt ) * ( 1.0 - t ) + t; // Random number in interval [t, 1.0]
-            auto r                     = std::pow( uniform_from_t_to_one, 1.0 / w );
+            auto r                     = std::log( uniform_from_t_to_one ) / w;
             H.pop();
             H.push( { idx, r } );
-            X = std::log( distribution( mt ) ) / std::log( H.top().second );
+            X = std::log( distribution( mt ) ) / H.top().second;
         }
         idx++;
     }
-- 
2.43.0


From b9b77e775a28181a7d4f41021a398d57d77ca255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:50 +0000
Subject: [PATCH 04/32] fix: generate_n_connections makes duplicate and self
 connections if n_connections >= n_agents

---
 include/network_generation.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/network_generation.hpp b/include/network_generation.hpp
index e71b50f..21048be 100644
--- a/include/network_generation.hpp
+++ b/include/network_generation.hpp
@@ -36,7 +36,9 @@ generate_n_connections( size_t n_agents, size_t n_connections, bool self_interac
 
         // Get the vector of sorted adjacencies, excluding i (include i later)
         // TODO: option for making the n_connections variable
-        draw_unique_k_from_n( i_agent, n_connections, n_agents, incoming_neighbour_buffer, gen );
+        // (there are only n_agents-1 other agents to connect to)
+        draw_unique_k_from_n(
+            i_agent, std::min( n_connections, n_agents - 1 ), n_agents, incoming_neighbour_buffer, gen );
 
         incoming_neighbour_weights.resize( incoming_neighbour_buffer.size() );
         for( size_t j = 0; j < incoming_neighbour_buffer.size(); ++j )
-- 
2.43.0


From 8bc550e543b10d1fec5efccc17fa03aebec4eb1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:50 +0000
Subject: [PATCH 05/32] fix: ActivityDrivenModel writes out of bounds if there
 are more bots than agents

---
 include/models/ActivityDrivenModel.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/models/ActivityDrivenModel.hpp b/include/models/ActivityDrivenModel.hpp
index 64a1223..ec86139 100644
--- a/include/models/ActivityDrivenModel.hpp
+++ b/include/models/ActivityDrivenModel.hpp
@@ -9,6 +9,7 @@
 #include <cstddef>
 #include <random>
 #include <set>
+#include <stdexcept>
 #include <string>
 #include <utility>
 #include <vector>
@@ -51,6 +52,11 @@ public:
               bot_opinion( settings.bot_opinion ),
               bot_homophily( settings.bot_homophily )
     {
+        if( n_bots > network.n_agents() )
+        {
+            throw std::runtime_error( "The number of bots is larger than the number of agents." );
+        }
+
         get_agents_from_power_law();
 
         if( mean_weights )
-- 
2.43.0


From 4048772a7a1673266657481a5855dbf1f4d50fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:50 +0000
Subject: [PATCH 06/32] fix: an output interval of zero divides by zero, reject
 it in validate_settings

---
 src/config_parser.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/config_parser.cpp b/src/config_parser.cpp
index 57e384f..ee82c42 100644
--- a/src/config_parser.cpp
+++ b/src/config_parser.cpp
@@ -202,6 +202,10 @@ void validate_settings( const SimulationOptions & options )
     // @TODO: Check that start_output is less than the max_iterations?
     check( name_and_var( options.output_settings.start_output ), g_zero );
     check( name_and_var( options.output_settings.start_numbering_from ), geq_zero );
+    // These are used as divisors, nullopt means never
+    auto nullopt_or_g_zero = []( auto x ) { return !x.has_value() || x.value() > 0; };
+    check( name_and_var( options.output_settings.n_output_agents ), nullopt_or_g_zero );
+    check( name_and_var( options.output_settings.n_output_network ), nullopt_or_g_zero );
 
     auto validate_activity = [&]( const auto & model_settings )
     {
-- 
2.43.0


From c0a40dd8c3ea52dd1ecc85ea3b17e7d8dd4a1eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:50 +0000
Subject: [PATCH 07/32] fix: validate_settings accepts a negative bot_m

---
 src/config_parser.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/config_parser.cpp b/src/config_parser.cpp
index ee82c42..5c4e031 100644
--- a/src/config_parser.cpp
+++ b/src/config_parser.cpp
@@ -5,6 +5,7 @@
 #include <fmt/ostream.h>
 #include <fmt/ranges.h>
 #include <fmt/std.h>
+#include <algorithm>
 #include <cstddef>
 #include <optional>
 #include <stdexcept>
@@ -226,6 +227,8 @@ void validate_settings( const SimulationOptions & options )
         auto check_bot_size       = [&]( auto x ) { return x.size() >= n_bots; };
         const std::string bot_msg = "Length needs to be >= n_bots";
         check( name_and_var( model_settings.bot_m ), check_bot_size, bot_msg );
+        auto all_geq_zero = []( auto x ) { return std::all_of( x.begin(), x.end(), []( auto m ) { return m >= 0; } ); };
+        check( name_and_var( model_settings.bot_m ), all_geq_zero );
         check( name_and_var( model_settings.bot_activity ), check_bot_size, bot_msg );
         check( name_and_var( model_settings.bot_opinion ), check_bot_size, bot_msg );
         check( name_and_var( model_settings.bot_homophily ), check_bot_size, bot_msg );
-- 
2.43.0


From 201265c572a8d0873ef9d1333146be9e6352360f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:50 +0000
Subject: [PATCH 08/32] fix: reject an agent file that does not match the size
 of the network

---
 include/simulation.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/simulation.hpp b/include/simulation.hpp
index ecc9528..6c51c79 100644
--- a/include/simulation.hpp
+++ b/include/simulation.hpp
@@ -14,6 +14,7 @@
 #include <network_generation.hpp>
 #include <network_io.hpp>
 #include <optional>
+#include <stdexcept>
 #include <string>
 namespace fs = std::filesystem;
 
@@ -89,7 +90,13 @@ public:
 
         if( cli_agent_file.has_value() )
         {
-            network.agents = agents_from_file<AgentType>( cli_agent_file.value() );
+            auto agents = agents_from_file<AgentType>( cli_agent_file.value() );
+            if( agents.size() != network.n_agents() )
+            {
+                throw std::runtime_error( fmt::format(
+                    "The agent file contains {} agents, but the network has {}", agents.size(), network.n_agents() ) );
+            }
+            network.agents = agents;
         }
     }
 
-- 
2.43.0


From 4600ac00e52eae21049a861f0b3596cc3c908af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:50 +0000
Subject: [PATCH 09/32] fix: reject network files with invalid neighbours or
 missing weights

---
 include/network_generation.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/network_generation.hpp b/include/network_generation.hpp
index 21048be..ffd5a23 100644
--- a/include/network_generation.hpp
+++ b/include/network_generation.hpp
@@ -1,7 +1,9 @@
 #pragma once
 #include "network.hpp"
+#include <algorithm>
 #include <cstddef>
 #include <random>
+#include <stdexcept>
 #include <util/math.hpp>
 #include <util/misc.hpp>
 #include <vector>
@@ -237,6 +239,18 @@ Network<AgentType> generate_from_file( const std::string & file )
         }
     }
 
+    // Every neighbour has to be an agent of the network and needs exactly one weight
+    for( size_t i_agent = 0; i_agent < neighbour_list.size(); i_agent++ )
+    {
+        const auto & neighbours = neighbour_list[i_agent];
+        if( neighbours.size() != weight_list[i_agent].size()
+            || std::any_of(
+                neighbours.begin(), neighbours.end(), [&]( auto j ) { return j >= neighbour_list.size(); } ) )
+        {
+            throw std::runtime_error( fmt::format( "Invalid row for agent {} in network file {}", i_agent, file ) );
+        }
+    }
+
     return NetworkT( std::move( neighbour_list ), std::move( weight_list ), NetworkT::EdgeDirection::Incoming );
 }
 
-- 
2.43.0


From 9c4f137406fe08963f207bdfc9f8eaa89851f0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:50 +0000
Subject: [PATCH 10/32] fix: use the documented default for the convergence
 tolerance of DeGroot

---
 include/config_parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/config_parser.hpp b/include/config_parser.hpp
index 86f63bb..1af7bd3 100644
--- a/include/config_parser.hpp
+++ b/include/config_parser.hpp
@@ -44,7 +44,7 @@ struct OutputSettings
 struct DeGrootSettings
 {
     std::optional<int> max_iterations = std::nullopt;
-    double convergence_tol;
+    double convergence_tol            = 1e-6;
 };
 
 struct DeffuantSettings
-- 
2.43.0


From e175d66bde52fd82245212f9a460a85fc4c74591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:50 +0000
Subject: [PATCH 11/32] fix: normalization in power_law_distribution::pdf

---
 include/util/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/util/math.hpp b/include/util/math.hpp
index 3e08600..9c0634c 100644
--- a/include/util/math.hpp
+++ b/include/util/math.hpp
@@ -145,7 +145,7 @@ public:
 
     ScalarT pdf( ScalarT x )
     {
-        return ( 1.0 - gamma ) / ( 1.0 - std::pow( eps, ( 1 - gamma ) ) * std::pow( x, ( -gamma ) ) );
+        return ( 1.0 - gamma ) / ( 1.0 - std::pow( eps, ( 1 - gamma ) ) ) * std::pow( x, ( -gamma ) );
     }
 
     ScalarT inverse_cdf( ScalarT x )
-- 
2.43.0


From f6e876dc9c996d155ca86a550035b4c388e89937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:50 +0000
Subject: [PATCH 12/32] fix: network_to_dot_file reads out of bounds for agents
 without neighbours

---
 include/network_io.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/network_io.hpp b/include/network_io.hpp
index bb47a94..ac58e4c 100644
--- a/include/network_io.hpp
+++ b/include/network_io.hpp
@@ -23,11 +23,15 @@ void network_to_dot_file( const Network<AgentT> & network, const std::string & f
         auto buffer = network.get_neighbours( idx_agent );
 
         std::string row = fmt::format( "{} <- {{", idx_agent );
-        for( size_t i = 0; i < buffer.size() - 1; i++ )
+        for( size_t i = 0; i + 1 < buffer.size(); i++ )
         {
             row += fmt::format( "{}, ", buffer[i] );
         }
-        row += fmt::format( "{}}}\n", buffer[buffer.size() - 1] );
+        if( !buffer.empty() )
+        {
+            row += fmt::format( "{}", buffer[buffer.size() - 1] );
+        }
+        row += "}\n";
 
         fs << row;
     }
-- 
2.43.0


From 29f9177ca37d08297a6867d964d2ac9ee67e855b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:50 +0000
Subject: [PATCH 13/32] fix: parse_comma_separated_list passes on more than the
 entry

---
 include/util/misc.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/util/misc.hpp b/include/util/misc.hpp
index d9bc5b6..2f09daa 100644
--- a/include/util/misc.hpp
+++ b/include/util/misc.hpp
@@ -47,7 +47,7 @@ void parse_comma_separated_list( const std::string & str, CallbackT & callback )
     while( true )
     {
         auto pos_next = str.find( ',', pos_cur + 1 );
-        auto substr   = str.substr( pos_cur + 1, pos_next );
+        auto substr   = str.substr( pos_cur + 1, pos_next - ( pos_cur + 1 ) );
         callback( idx_entry, substr );
 
         pos_cur = pos_next;
-- 
2.43.0


From 4296bfff690336b303a800ed30e4c9fac571a373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:57 +0000
Subject: [PATCH 14/32] fix: strongly connected components are split at
 finished vertices that are still on the stack

A visited vertex has to be ignored only if it belongs to a component that
is complete. A vertex whose depth first search is finished can still be on
the stack, {1,2}, {0}, {1} was reported as two components.
---
 include/connectivity.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/connectivity.hpp b/include/connectivity.hpp
index a9d0159..18ce291 100644
--- a/include/connectivity.hpp
+++ b/include/connectivity.hpp
@@ -32,7 +32,7 @@ private:
     std::vector<size_t> num;     // holding vertex numbers
     std::vector<size_t> lowest;  // lowest[v] : minimum number of a vertex reachable from v
     std::vector<bool> visited;   // visited so DFS has seen these vertices (not necessarily processed)
-    std::vector<bool> processed; // vertices which have been processed by DFS
+    std::vector<bool> processed; // vertices which have been assigned to an SCC (and are not on the stack any more)
     std::vector<size_t>
         stack; // stack of vertices to keep a working set of vertices. Holds all vertices reachable from the starting vertex
     size_t index_counter; // depth-first search node number counter
@@ -69,7 +69,7 @@ private:
             } // u not visited
             else
             {
-                // If u has been processed, then it is a cross-edge and should be ignored.
+                // If u has been processed, then it is a cross-edge into another SCC and should be ignored.
                 // If u has been visited but not processed:
                 if( !processed[u] )
                 {
@@ -78,9 +78,6 @@ private:
             } // u has been visited
         }
 
-        // Now v has been processed
-        processed[v] = true;
-
         // Handle SCC if found
         if( lowest[v] == num[v] )
         {
@@ -92,12 +89,14 @@ private:
             while( scc_vertex != v )
             {
                 scc.push_back( scc_vertex ); // Add to the SCC
+                processed[scc_vertex] = true;
                 // Pop the stack
                 scc_vertex = stack.back();
                 stack.pop_back();
             } // unravelling stack
             // Add the last vertex
             scc.push_back( scc_vertex );
+            processed[scc_vertex] = true;
             // Now that we have found the SCC, add it
             // to the SCC list
             scc_list.push_back( scc );
-- 
2.43.0


From d629c2f3e41008ecadb38bf225467c353f1b38d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:41 +0000
Subject: [PATCH 15/32] fix: stack overflow of the depth first search in large
 networks

The depth of the recursion can be as large as the number of agents, a ring
of 100000 agents ended with a segmentation fault.
---
 include/connectivity.hpp | 58 +++++++++++++++++++++++++++++++---------
 1 file changed, 45 insertions(+), 13 deletions(-)

diff --git a/include/connectivity.hpp b/include/connectivity.hpp
index 18ce291..d2ed0ce 100644
--- a/include/connectivity.hpp
+++ b/include/connectivity.hpp
@@ -1,6 +1,8 @@
 #pragma once
+#include <algorithm>
 #include <cstddef>
 #include <tuple>
+#include <utility>
 #include <vector>
 
 namespace Seldon
@@ -37,35 +39,59 @@ private:
         stack; // stack of vertices to keep a working set of vertices. Holds all vertices reachable from the starting vertex
     size_t index_counter; // depth-first search node number counter
 
-    // Depth-first search
-    // v: Current vertex
-    void depth_first_search( std::size_t v )
+    // Set things for the vertex v, when the depth-first search gets to it
+    void enter_vertex( std::size_t v )
     {
-        std::vector<size_t> scc;
-
-        // Set things for the current vertex v
         num[v]    = index_counter;
         lowest[v] = num[v];
         index_counter += 1;
         visited[v] = true;
         stack.push_back( v );
+    }
 
-        // Loop through neighbours of v
-        // u is the neighbouring vertex
-        for( auto & u : adjacency_list[v] )
+    // Depth-first search
+    // v_start: Vertex to start from
+    // This is not recursive, because the depth can be as large as the number of vertices
+    void depth_first_search( std::size_t v_start )
+    {
+        // The vertices on the way from v_start to the current vertex,
+        // each with the position of the next one of its neighbours
+        std::vector<std::pair<size_t, size_t>> path{ { v_start, 0 } };
+        enter_vertex( v_start );
+
+        while( !path.empty() )
         {
+            const auto v                   = path.back().first;
+            const auto idx_u               = path.back().second++;
+            const bool has_neighbours_left = idx_u < adjacency_list[v].size();
+
+            if( !has_neighbours_left )
+            {
+                // All neighbours of v have been looked at, go back to where we came from
+                finish_vertex( v );
+                path.pop_back();
+                if( !path.empty() )
+                {
+                    const auto parent = path.back().first;
+                    lowest[parent]    = std::min( lowest[parent], lowest[v] );
+                }
+                continue;
+            }
+
+            // u is the neighbouring vertex
+            const auto u = adjacency_list[v][idx_u];
+
             // Skip for the element itself
             if( u == v )
             {
                 continue;
             }
 
-            // If u hasn't been visited do a DFS
+            // If u hasn't been visited, the DFS goes on there
             if( !visited[u] )
             {
-                // recursive call to DFS
-                depth_first_search( u );
-                lowest[v] = std::min( lowest[v], lowest[u] );
+                enter_vertex( u );
+                path.emplace_back( u, 0 );
             } // u not visited
             else
             {
@@ -77,6 +103,12 @@ private:
                 } // u not processed
             } // u has been visited
         }
+    }
+
+    // All neighbours of v have been looked at
+    void finish_vertex( std::size_t v )
+    {
+        std::vector<size_t> scc;
 
         // Handle SCC if found
         if( lowest[v] == num[v] )
-- 
2.43.0


From 07caf93095ed481f68c4906bdf306b45031cf975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:52 +0000
Subject: [PATCH 16/32] fix: agent and network files with subnormal numbers are
 written, but cannot be read back

---
 include/agents/activity_agent.hpp |  8 ++++----
 include/agents/inertial_agent.hpp |  8 ++++----
 include/agents/simple_agent.hpp   |  2 +-
 include/network_generation.hpp    |  2 +-
 include/util/misc.hpp             | 22 ++++++++++++++++++++++
 5 files changed, 32 insertions(+), 10 deletions(-)

diff --git a/include/agents/activity_agent.hpp b/include/agents/activity_agent.hpp
index ec229f5..02a11b9 100644
--- a/include/agents/activity_agent.hpp
+++ b/include/agents/activity_agent.hpp
@@ -35,20 +35,20 @@ inline ActivityAgent agent_from_string<ActivityAgent>( const std::string & str )
     auto pos_comma      = str.find_first_of( ',' );
     auto pos_next_comma = str.find( ',', pos_comma + 1 );
 
-    res.data.opinion = std::stod( str.substr( 0, pos_comma ) );
+    res.data.opinion = string_to_double( str.substr( 0, pos_comma ) );
 
     if( pos_next_comma == std::string::npos )
     {
-        res.data.activity = std::stod( str.substr( pos_comma + 1, str.size() ) );
+        res.data.activity = string_to_double( str.substr( pos_comma + 1, str.size() ) );
     }
     else
     {
-        res.data.activity = std::stod( str.substr( pos_comma + 1, pos_next_comma ) );
+        res.data.activity = string_to_double( str.substr( pos_comma + 1, pos_next_comma ) );
     }
 
     if( pos_next_comma != std::string::npos )
     {
-        res.data.reluctance = std::stod( str.substr( pos_next_comma + 1, str.size() ) );
+        res.data.reluctance = string_to_double( str.substr( pos_next_comma + 1, str.size() ) );
     }
 
     return res;
diff --git a/include/agents/inertial_agent.hpp b/include/agents/inertial_agent.hpp
index 469376a..3eb16bc 100644
--- a/include/agents/inertial_agent.hpp
+++ b/include/agents/inertial_agent.hpp
@@ -39,19 +39,19 @@ inline InertialAgent agent_from_string<InertialAgent>( const std::string & str )
     {
         if( idx_list == 0 )
         {
-            res.data.opinion = std::stod( substr );
+            res.data.opinion = string_to_double( substr );
         }
         else if( idx_list == 1 )
         {
-            res.data.velocity = std::stod( substr );
+            res.data.velocity = string_to_double( substr );
         }
         else if( idx_list == 2 )
         {
-            res.data.activity = std::stod( substr );
+            res.data.activity = string_to_double( substr );
         }
         else if( idx_list == 3 )
         {
-            res.data.reluctance = std::stod( substr );
+            res.data.reluctance = string_to_double( substr );
         }
     };
 
diff --git a/include/agents/simple_agent.hpp b/include/agents/simple_agent.hpp
index c247e69..a264fd3 100644
--- a/include/agents/simple_agent.hpp
+++ b/include/agents/simple_agent.hpp
@@ -29,7 +29,7 @@ template<>
 inline SimpleAgent agent_from_string<SimpleAgent>( const std::string & str )
 {
     SimpleAgent res{};
-    res.data.opinion = std::stod( str );
+    res.data.opinion = string_to_double( str );
     return res;
 }
 
diff --git a/include/network_generation.hpp b/include/network_generation.hpp
index ffd5a23..6364805 100644
--- a/include/network_generation.hpp
+++ b/include/network_generation.hpp
@@ -232,7 +232,7 @@ Network<AgentType> generate_from_file( const std::string & file )
             }
             else if( idx_column >= 2 + n_neighbours )
             { // The rest of the columns are the weights
-                const auto weight = std::stod( column_substring );
+                const auto weight = string_to_double( column_substring );
                 weight_list.back().push_back( weight );
             }
             idx_column++;
diff --git a/include/util/misc.hpp b/include/util/misc.hpp
index 2f09daa..3822ffe 100644
--- a/include/util/misc.hpp
+++ b/include/util/misc.hpp
@@ -1,6 +1,9 @@
 #pragma once
 #include "fmt/format.h"
 #include <fmt/ostream.h>
+#include <cerrno>
+#include <cmath>
+#include <cstdlib>
 #include <filesystem>
 #include <fstream>
 #include <stdexcept>
@@ -31,6 +34,25 @@ inline std::string get_file_contents( const std::string & filename )
     throw( std::runtime_error( "Cannot read file." ) );
 }
 
+/*
+Converts a string to a double. In contrast to std::stod, subnormal numbers are not rejected
+*/
+inline double string_to_double( const std::string & str )
+{
+    char * end         = nullptr;
+    errno              = 0;
+    const double value = std::strtod( str.c_str(), &end );
+    if( end == str.c_str() )
+    {
+        throw std::invalid_argument( fmt::format( "Cannot convert '{}' to a number", str ) );
+    }
+    if( errno == ERANGE && std::abs( value ) > 1.0 )
+    {
+        throw std::out_of_range( fmt::format( "'{}' is too large for a floating point number", str ) );
+    }
+    return value;
+}
+
 /*
 Executes `callback` for each substring in a comma separated list.
 If the input is "a_d, b, 1", it would call the callback function like
-- 
2.43.0


From 52b5c465d6c7fcafde27c25e06dbde6737b42bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:30 +0000
Subject: [PATCH 17/32] fix: seeds that do not fit into an int are silently
 replaced by a random seed

---
 include/config_parser.hpp | 3 ++-
 src/config_parser.cpp     | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/config_parser.hpp b/include/config_parser.hpp
index 1af7bd3..0aea787 100644
--- a/include/config_parser.hpp
+++ b/include/config_parser.hpp
@@ -3,6 +3,7 @@
 #include <fmt/ostream.h>
 #include <fmt/ranges.h>
 #include <cstddef>
+#include <cstdint>
 #include <optional>
 #include <random>
 #include <string_view>
@@ -102,7 +103,7 @@ struct SimulationOptions
         = std::variant<DeGrootSettings, ActivityDrivenSettings, ActivityDrivenInertialSettings, DeffuantSettings>;
     Model model;
     std::string model_string;
-    int rng_seed = std::random_device()();
+    std::int64_t rng_seed = std::random_device()();
     OutputSettings output_settings;
     ModelVariantT model_settings;
     InitialNetworkSettings network_settings;
diff --git a/src/config_parser.cpp b/src/config_parser.cpp
index 5c4e031..5b6a64e 100644
--- a/src/config_parser.cpp
+++ b/src/config_parser.cpp
@@ -114,7 +114,7 @@ SimulationOptions parse_config_file( std::string_view config_file_path )
     toml::table tbl;
     tbl = toml::parse_file( config_file_path );
 
-    options.rng_seed = tbl["simulation"]["rng_seed"].value_or( int( options.rng_seed ) );
+    options.rng_seed = tbl["simulation"]["rng_seed"].value_or( options.rng_seed );
 
     // Parse output settings
     options.output_settings.n_output_network = tbl["io"]["n_output_network"].value<size_t>();
-- 
2.43.0


From f8e0a1419cb43a1da541cd3d8f7b3ea9a2604574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:30 +0000
Subject: [PATCH 18/32] fix: settings of the wrong type or out of range are
 silently replaced by their defaults

---
 src/config_parser.cpp | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/config_parser.cpp b/src/config_parser.cpp
index 5b6a64e..eca60aa 100644
--- a/src/config_parser.cpp
+++ b/src/config_parser.cpp
@@ -37,10 +37,24 @@ Model model_string_to_enum( std::string_view model_string )
     throw std::runtime_error( fmt::format( "Invalid model string {}", model_string ) );
 }
 
+// Returns nullopt if the setting is not specified, and throws if its value cannot be represented as a T
+template<typename T>
+std::optional<T> get_if_specified( const auto & toml_opt )
+{
+    auto t_opt = toml_opt.template value<T>();
+    if( toml_opt && !t_opt.has_value() )
+    {
+        throw std::runtime_error( fmt::format(
+            "The value in line {} of the configuration file has the wrong type or is out of range",
+            toml_opt.node()->source().begin.line ) );
+    }
+    return t_opt;
+}
+
 void set_if_specified( auto & opt, const auto & toml_opt )
 {
     using T    = typename std::remove_reference<decltype( opt )>::type;
-    auto t_opt = toml_opt.template value<T>();
+    auto t_opt = get_if_specified<T>( toml_opt );
     if( t_opt.has_value() )
         opt = t_opt.value();
 }
@@ -66,7 +80,7 @@ void parse_activity_settings( auto & model_settings, const auto & toml_model_opt
     set_if_specified( model_settings.reluctance_sigma, toml_model_opt["reluctance_sigma"] );
     set_if_specified( model_settings.reluctance_eps, toml_model_opt["reluctance_eps"] );
 
-    model_settings.max_iterations = tbl["model"]["max_iterations"].template value<int>();
+    model_settings.max_iterations = get_if_specified<int>( tbl["model"]["max_iterations"] );
 
     // bot
     set_if_specified( model_settings.n_bots, toml_model_opt["n_bots"] );
@@ -114,11 +128,11 @@ SimulationOptions parse_config_file( std::string_view config_file_path )
     toml::table tbl;
     tbl = toml::parse_file( config_file_path );
 
-    options.rng_seed = tbl["simulation"]["rng_seed"].value_or( options.rng_seed );
+    set_if_specified( options.rng_seed, tbl["simulation"]["rng_seed"] );
 
     // Parse output settings
-    options.output_settings.n_output_network = tbl["io"]["n_output_network"].value<size_t>();
-    options.output_settings.n_output_agents  = tbl["io"]["n_output_agents"].value<size_t>();
+    options.output_settings.n_output_network = get_if_specified<size_t>( tbl["io"]["n_output_network"] );
+    options.output_settings.n_output_agents  = get_if_specified<size_t>( tbl["io"]["n_output_agents"] );
     set_if_specified( options.output_settings.print_progress, tbl["io"]["print_progress"] );
     set_if_specified( options.output_settings.output_initial, tbl["io"]["output_initial"] );
     set_if_specified( options.output_settings.start_output, tbl["io"]["start_output"] );
@@ -135,14 +149,14 @@ SimulationOptions parse_config_file( std::string_view config_file_path )
     if( options.model == Model::DeGroot )
     {
         auto model_settings           = DeGrootSettings();
-        model_settings.max_iterations = tbl["model"]["max_iterations"].value<int>();
+        model_settings.max_iterations = get_if_specified<int>( tbl["model"]["max_iterations"] );
         set_if_specified( model_settings.convergence_tol, tbl[options.model_string]["convergence"] );
         options.model_settings = model_settings;
     }
     else if( options.model == Model::DeffuantModel )
     {
         auto model_settings           = DeffuantSettings();
-        model_settings.max_iterations = tbl["model"]["max_iterations"].value<int>();
+        model_settings.max_iterations = get_if_specified<int>( tbl["model"]["max_iterations"] );
         set_if_specified( model_settings.homophily_threshold, tbl[options.model_string]["homophily_threshold"] );
         set_if_specified( model_settings.mu, tbl[options.model_string]["mu"] );
         set_if_specified( model_settings.use_network, tbl[options.model_string]["use_network"] );
-- 
2.43.0


From e6d097a46b280ca192faa7b16e8937b37a0a91e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:50 +0000
Subject: [PATCH 19/32] fix: the opinion is taken as the activity if an agent
 file has no activities

---
 include/agents/activity_agent.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/agents/activity_agent.hpp b/include/agents/activity_agent.hpp
index 02a11b9..f97f277 100644
--- a/include/agents/activity_agent.hpp
+++ b/include/agents/activity_agent.hpp
@@ -35,6 +35,11 @@ inline ActivityAgent agent_from_string<ActivityAgent>( const std::string & str )
     auto pos_comma      = str.find_first_of( ',' );
     auto pos_next_comma = str.find( ',', pos_comma + 1 );
 
+    if( pos_comma == std::string::npos )
+    {
+        throw std::runtime_error( fmt::format( "The activity is missing in '{}'", str ) );
+    }
+
     res.data.opinion = string_to_double( str.substr( 0, pos_comma ) );
 
     if( pos_next_comma == std::string::npos )
-- 
2.43.0


From 9e4d8270ea01cb43c4c168cd9c91887daa81378e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:02 +0000
Subject: [PATCH 20/32] fix: entries of the bot lists that are not numbers or
 do not fit are skipped or cut off

---
 src/config_parser.cpp | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/src/config_parser.cpp b/src/config_parser.cpp
index eca60aa..1d4feea 100644
--- a/src/config_parser.cpp
+++ b/src/config_parser.cpp
@@ -87,26 +87,24 @@ void parse_activity_settings( auto & model_settings, const auto & toml_model_opt
 
     auto push_back_bot_array = [&]( auto toml_node, auto & options_array, auto default_value )
     {
-        if( toml_node.is_array() )
+        if( !toml_node )
+        {
+            options_array = std::vector<decltype( default_value )>( model_settings.n_bots, default_value );
+        }
+        else if( toml_node.is_array() )
         {
             toml::array * toml_arr = toml_node.as_array();
 
-            toml_arr->for_each(
-                [&]( auto && elem )
-                {
-                    if( elem.is_integer() )
-                    {
-                        options_array.push_back( elem.as_integer()->get() );
-                    }
-                    else if( elem.is_floating_point() )
-                    {
-                        options_array.push_back( elem.as_floating_point()->get() );
-                    }
-                } );
+            for( size_t i = 0; i < toml_arr->size(); i++ )
+            {
+                options_array.push_back( get_if_specified<decltype( default_value )>( toml_node[i] ).value() );
+            }
         }
         else
         {
-            options_array = std::vector<decltype( default_value )>( model_settings.n_bots, default_value );
+            throw std::runtime_error( fmt::format(
+                "The value in line {} of the configuration file is not an array",
+                toml_node.node()->source().begin.line ) );
         }
     };
 
-- 
2.43.0


From 4962f6878821140aa1a0c9aca4ab4470fb0ae50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:59 +0000
Subject: [PATCH 21/32] fix: the mean field network of a single agent is not a
 number

---
 include/models/ActivityDrivenModel.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/models/ActivityDrivenModel.hpp b/include/models/ActivityDrivenModel.hpp
index ec86139..d8e9a68 100644
--- a/include/models/ActivityDrivenModel.hpp
+++ b/include/models/ActivityDrivenModel.hpp
@@ -281,6 +281,10 @@ private:
             double activity = std::max( 1.0, network.agents[idx_agent].data.activity );
             for( size_t j = 0; j < network.n_agents(); j++ )
             {
+                // Agents do not contact themselves (and the normalization is zero for a single agent)
+                if( j == idx_agent )
+                    continue;
+
                 double omega = homophily_weight( idx_agent, j ) / normalization;
                 // We can calculate the probability of i contacting j ( i->j )
                 // Update contact prob_list (outgoing)
-- 
2.43.0


From aa5d2eac07d19c77c3562b8220b4a15d7f998a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:11 +0000
Subject: [PATCH 22/32] fix: network_to_dot_file writes '<-', which is not an
 edge in the DOT language

---
 include/network_io.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/network_io.hpp b/include/network_io.hpp
index ac58e4c..e69c4e8 100644
--- a/include/network_io.hpp
+++ b/include/network_io.hpp
@@ -18,11 +18,15 @@ void network_to_dot_file( const Network<AgentT> & network, const std::string & f
     size_t n_agents = network.n_agents();
     fmt::print( fs, "digraph G {{\n" );
 
+    // Every row is an edge statement. If the neighbours are the incoming ones, the arrows have to point to idx_agent
+    const bool incoming         = network.direction() == Network<AgentT>::EdgeDirection::Incoming;
+    const std::string attribute = incoming ? " [dir=back]" : "";
+
     for( size_t idx_agent = 0; idx_agent < n_agents; idx_agent++ )
     {
         auto buffer = network.get_neighbours( idx_agent );
 
-        std::string row = fmt::format( "{} <- {{", idx_agent );
+        std::string row = fmt::format( "{} -> {{", idx_agent );
         for( size_t i = 0; i + 1 < buffer.size(); i++ )
         {
             row += fmt::format( "{}, ", buffer[i] );
@@ -31,7 +35,7 @@ void network_to_dot_file( const Network<AgentT> & network, const std::string & f
         {
             row += fmt::format( "{}", buffer[buffer.size() - 1] );
         }
-        row += "}\n";
+        row += "}" + attribute + "\n";
 
         fs << row;
     }
-- 
2.43.0


From 7877b10c2e971d52f4f9917849567d81666a7569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:20 +0000
Subject: [PATCH 23/32] fix: the default output directory is not next to the
 configuration file, as documented

---
 README.md    | 2 +-
 src/main.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/README.md b/README.md
index 9b27718..294b862 100644
--- a/README.md
+++ b/README.md
@@ -33,7 +33,7 @@ meson install -C build
 ### Quick Start 
 
 Run the executable, and provide the input configuration TOML file (as the first
-positional argument), and an optional output directory location. If the output location is not specified, it is set to the parent directory in which the config file is present
+positional argument), and an optional output directory location. If the output location is not specified, it is set to the directory `output` next to the config file
 
 ```bash
 cd build
diff --git a/src/main.cpp b/src/main.cpp
index ac57310..93ad3ae 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -37,7 +37,7 @@ int main( int argc, char * argv[] )
     std::optional<std::string> agent_file          = program.present<std::string>( "-a" );
     std::optional<std::string> network_file        = program.present<std::string>( "-n" );
     std::optional<std::string> output_dir_path_cli = program.present<std::string>( "-o" );
-    fs::path output_dir_path                       = output_dir_path_cli.value_or( fs::path( "./output" ) );
+    fs::path output_dir_path = output_dir_path_cli.value_or( ( config_file_path.parent_path() / "output" ).string() );
 
     fmt::print( "=================================================================\n" );
 
-- 
2.43.0


From 292d6b13b13f710fb130777ddbd4777f74619f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:58 +0000
Subject: [PATCH 24/32] fix: draw_unique_k_from_n leaves items behind when
 asked for more than there are

The buffer kept its size k, and the places for which nothing could be drawn
contained zeros or items of the previous use, so duplicates or the ignored item.
A single agent of the Deffuant model hence interacted with itself.
---
 include/models/DeffuantModel.hpp | 5 +++++
 include/util/math.hpp            | 4 +++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/models/DeffuantModel.hpp b/include/models/DeffuantModel.hpp
index 7f90baf..7f552ff 100644
--- a/include/models/DeffuantModel.hpp
+++ b/include/models/DeffuantModel.hpp
@@ -86,6 +86,11 @@ public:
 
             auto interacting_agents = select_interacting_agent_pair();
 
+            if( interacting_agents.size() < 2 )
+            {
+                continue; // A single agent has nobody to interact with
+            }
+
             auto & agent1 = network.agents[interacting_agents[0]];
             auto & agent2 = network.agents[interacting_agents[1]];
 
diff --git a/include/util/math.hpp b/include/util/math.hpp
index 9c0634c..cc719c4 100644
--- a/include/util/math.hpp
+++ b/include/util/math.hpp
@@ -58,7 +58,9 @@ inline void draw_unique_k_from_n(
     };
 
     buffer.resize( k );
-    std::sample( SequenceGenerator( 0, ignore_idx ), SequenceGenerator( n, ignore_idx ), buffer.begin(), k, gen );
+    const auto end_of_sample = std::sample(
+        SequenceGenerator( 0, ignore_idx ), SequenceGenerator( n, ignore_idx ), buffer.begin(), k, gen );
+    buffer.erase( end_of_sample, buffer.end() ); // There may be fewer than k items to draw from
 }
 
 template<typename WeightCallbackT>
-- 
2.43.0


From f8ebbb698b7f1506660a1c9f747ddc00dfa6b968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:58 +0000
Subject: [PATCH 25/32] fix: power_law_distribution::pdf is not zero outside of
 the support

The distribution is normalized on, and its samples are in, [eps, 1].
---
 include/util/math.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/util/math.hpp b/include/util/math.hpp
index cc719c4..8847f37 100644
--- a/include/util/math.hpp
+++ b/include/util/math.hpp
@@ -147,6 +147,8 @@ public:
 
     ScalarT pdf( ScalarT x )
     {
+        if( x < eps || x > 1.0 )
+            return 0.0;
         return ( 1.0 - gamma ) / ( 1.0 - std::pow( eps, ( 1 - gamma ) ) ) * std::pow( x, ( -gamma ) );
     }
 
-- 
2.43.0


From 1a8cda5c4e349caa3d1fa6b98ab5d0f314d26240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:58 +0000
Subject: [PATCH 26/32] fix: network files with rows without, or with a
 negative, number of neighbours are accepted

Such rows, including lines of blanks, became agents without neighbours.
---
 include/network_generation.hpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/network_generation.hpp b/include/network_generation.hpp
index 6364805..16c4b2a 100644
--- a/include/network_generation.hpp
+++ b/include/network_generation.hpp
@@ -221,7 +221,13 @@ Network<AgentType> generate_from_file( const std::string & file )
             // First column is idx_agent (does not get used)
             if( idx_column == 1 ) // Second column contains the number of incoming neighbours
             {
-                n_neighbours = std::stoi( column_substring );
+                const auto n_neighbours_read = std::stoi( column_substring );
+                if( n_neighbours_read < 0 )
+                {
+                    throw std::runtime_error(
+                        fmt::format( "Negative number of neighbours in network file {}: '{}'", file, line ) );
+                }
+                n_neighbours = n_neighbours_read;
             }
             else if(
                 ( idx_column >= 2 )
@@ -237,6 +243,12 @@ Network<AgentType> generate_from_file( const std::string & file )
             }
             idx_column++;
         }
+
+        if( idx_column < 2 )
+        {
+            throw std::runtime_error(
+                fmt::format( "The number of neighbours is missing in network file {}: '{}'", file, line ) );
+        }
     }
 
     // Every neighbour has to be an agent of the network and needs exactly one weight
-- 
2.43.0


From 25fb3bbb8f30759587e7d312107ece25b4f29352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:58 +0000
Subject: [PATCH 27/32] fix: the index is taken as the opinion if a row of an
 agent file has no data

---
 include/agent_io.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/agent_io.hpp b/include/agent_io.hpp
index 98ed526..f25ce7e 100644
--- a/include/agent_io.hpp
+++ b/include/agent_io.hpp
@@ -6,6 +6,7 @@
 #include <fmt/format.h>
 #include <fmt/ostream.h>
 #include <fmt/ranges.h>
+#include <stdexcept>
 #include <vector>
 
 namespace Seldon
@@ -93,6 +94,10 @@ std::vector<AgentT> agents_from_file( const std::string & file )
 
         // First column is the index of the agent
         auto end_of_first_column = line.find( ',', 0 );
+        if( end_of_first_column == std::string::npos )
+        {
+            throw std::runtime_error( fmt::format( "The data of the agent is missing in '{}'", line ) );
+        }
         auto opinion_substring   = line.substr( end_of_first_column + 1, end_of_line );
 
         agents.push_back( agent_from_string<AgentT>( opinion_substring ) );
-- 
2.43.0


From 53cd4eabba42a89d4cb6baa0a0383595a0d785a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:29 +0000
Subject: [PATCH 28/32] fix: agent files with opinion vectors of different
 dimensions are accepted

The run was aborted in the middle, when two of these agents met.
---
 include/simulation.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/simulation.hpp b/include/simulation.hpp
index 6c51c79..119b9e6 100644
--- a/include/simulation.hpp
+++ b/include/simulation.hpp
@@ -16,6 +16,7 @@
 #include <optional>
 #include <stdexcept>
 #include <string>
+#include <type_traits>
 namespace fs = std::filesystem;
 
 namespace Seldon
@@ -96,6 +97,16 @@ public:
                 throw std::runtime_error( fmt::format(
                     "The agent file contains {} agents, but the network has {}", agents.size(), network.n_agents() ) );
             }
+            if constexpr( std::is_same_v<AgentType, DiscreteVectorAgent> )
+            {
+                for( const auto & agent : agents )
+                {
+                    if( agent.data.opinion.size() != agents[0].data.opinion.size() )
+                    {
+                        throw std::runtime_error( "The opinions in the agent file do not have the same dimension" );
+                    }
+                }
+            }
             network.agents = agents;
         }
     }
-- 
2.43.0


From 894b025563afeb1f04a6f01e03c4bcd67cab547e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:36 +0000
Subject: [PATCH 29/32] fix: output files that cannot be opened or written are
 silently lost

A run exited with status 0 although, for example, the disk was full.
---
 include/agent_io.hpp   |  8 ++++++++
 include/network_io.hpp | 17 +++++++++++++++++
 2 files changed, 25 insertions(+)

diff --git a/include/agent_io.hpp b/include/agent_io.hpp
index f25ce7e..033d2c1 100644
--- a/include/agent_io.hpp
+++ b/include/agent_io.hpp
@@ -41,6 +41,10 @@ void agents_to_file( const Network<AgentT> & network, const std::string & file_p
 {
     std::fstream fs;
     fs.open( file_path, std::fstream::in | std::fstream::out | std::fstream::trunc );
+    if( !fs )
+    {
+        throw std::runtime_error( fmt::format( "Cannot open {} for writing", file_path ) );
+    }
 
     size_t n_agents = network.n_agents();
 
@@ -60,6 +64,10 @@ void agents_to_file( const Network<AgentT> & network, const std::string & file_p
         fs << row;
     }
     fs.close();
+    if( !fs )
+    {
+        throw std::runtime_error( fmt::format( "Cannot write to {}", file_path ) );
+    }
 }
 
 template<typename AgentT>
diff --git a/include/network_io.hpp b/include/network_io.hpp
index e69c4e8..44f7788 100644
--- a/include/network_io.hpp
+++ b/include/network_io.hpp
@@ -5,6 +5,7 @@
 #include <fmt/ostream.h>
 #include <fmt/ranges.h>
 #include <cstddef>
+#include <stdexcept>
 #include <string>
 namespace Seldon
 {
@@ -14,6 +15,10 @@ void network_to_dot_file( const Network<AgentT> & network, const std::string & f
 {
     std::fstream fs;
     fs.open( file_path, std::fstream::in | std::fstream::out | std::fstream::trunc );
+    if( !fs )
+    {
+        throw std::runtime_error( fmt::format( "Cannot open {} for writing", file_path ) );
+    }
 
     size_t n_agents = network.n_agents();
     fmt::print( fs, "digraph G {{\n" );
@@ -41,6 +46,10 @@ void network_to_dot_file( const Network<AgentT> & network, const std::string & f
     }
     fmt::print( fs, "}}\n" );
     fs.close();
+    if( !fs )
+    {
+        throw std::runtime_error( fmt::format( "Cannot write to {}", file_path ) );
+    }
 }
 
 template<typename AgentT>
@@ -48,6 +57,10 @@ void network_to_file( const Network<AgentT> & network, const std::string & file_
 {
     std::fstream fs;
     fs.open( file_path, std::fstream::in | std::fstream::out | std::fstream::trunc );
+    if( !fs )
+    {
+        throw std::runtime_error( fmt::format( "Cannot open {} for writing", file_path ) );
+    }
 
     size_t n_agents = network.n_agents();
 
@@ -98,6 +111,10 @@ void network_to_file( const Network<AgentT> & network, const std::string & file_
         fs << row;
     }
     fs.close();
+    if( !fs )
+    {
+        throw std::runtime_error( fmt::format( "Cannot write to {}", file_path ) );
+    }
 }
 
 } // namespace Seldon
\ No newline at end of file
-- 
2.43.0


From b66bc9cbb89a2803bef4a2f2ef1254bcac7fd38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:36 +0000
Subject: [PATCH 30/32] fix: read errors in get_file_contents are ignored

The part of the file that could not be read was replaced by zero bytes.
---
 include/util/misc.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/util/misc.hpp b/include/util/misc.hpp
index 3822ffe..1864afa 100644
--- a/include/util/misc.hpp
+++ b/include/util/misc.hpp
@@ -28,6 +28,10 @@ inline std::string get_file_contents( const std::string & filename )
         contents.resize( in.tellg() );
         in.seekg( 0, std::ios::beg );
         in.read( &contents[0], contents.size() );
+        if( !in )
+        {
+            throw std::runtime_error( fmt::format( "Cannot read all of {}", fmt::streamed( path ) ) );
+        }
         in.close();
         return ( contents );
     }
-- 
2.43.0


From acf674e5a35861fb812e26eae4b3efa25d233557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:40 +0000
Subject: [PATCH 31/32] fix: power_law_distribution::inverse_cdf(1) is infinite
 for small eps and large gamma

The sum eps^(1-gamma) + x (1 - eps^(1-gamma)) cancels to 0 at x = 1 as soon
as eps^(1-gamma) is above 2^53, and is inexact close to the upper end of
the support before that.
---
 include/util/math.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/util/math.hpp b/include/util/math.hpp
index 8847f37..1022b36 100644
--- a/include/util/math.hpp
+++ b/include/util/math.hpp
@@ -154,9 +154,7 @@ public:
 
     ScalarT inverse_cdf( ScalarT x )
     {
-        return std::pow(
-            ( 1.0 - std::pow( eps, ( 1.0 - gamma ) ) ) * x + std::pow( eps, ( 1.0 - gamma ) ),
-            ( 1.0 / ( 1.0 - gamma ) ) );
+        return std::pow( x + ( 1.0 - x ) * std::pow( eps, ( 1.0 - gamma ) ), ( 1.0 / ( 1.0 - gamma ) ) );
     }
 
     ScalarT mean()
-- 
2.43.0


From dbf031ea2cf9a9cf59013186fcbc2ada9f536c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:25 +0000
Subject: [PATCH 32/32] fix: rows after a blank line of a network or agent file
 are silently ignored

---
 include/agent_io.hpp           | 2 +-
 include/network_generation.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/agent_io.hpp b/include/agent_io.hpp
index 033d2c1..ce21206 100644
--- a/include/agent_io.hpp
+++ b/include/agent_io.hpp
@@ -93,7 +93,7 @@ std::vector<AgentT> agents_from_file( const std::string & file )
 
         if( line.empty() )
         {
-            break;
+            continue;
         }
         if( line[0] == '#' )
         {
diff --git a/include/network_generation.hpp b/include/network_generation.hpp
index 16c4b2a..6310c5e 100644
--- a/include/network_generation.hpp
+++ b/include/network_generation.hpp
@@ -189,7 +189,7 @@ Network<AgentType> generate_from_file( const std::string & file )
 
         if( line.empty() )
         {
-            break;
+            continue;
         }
 
         if( line[0] == '#' )
-- 
2.43.0

