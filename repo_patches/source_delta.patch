From ce0c3b46878dfec782c7a15e217b58273bf3e856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:37 +0000
Subject: [PATCH 01/20] fix: repeat CSP iterations until nothing changes

csp_solution_iteration ignored the result of csp_process_pixel, so solve_csp
stopped after the first sweep and left nodes that have no support.
---
 lib/constraint_graph.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/constraint_graph.cpp b/lib/constraint_graph.cpp
index bf868bf..5e03d5c 100644
--- a/lib/constraint_graph.cpp
+++ b/lib/constraint_graph.cpp
@@ -315,7 +315,10 @@ __device__ BOOL csp_solution_iteration(
             ++node.pixel.x
         )
         {
-            csp_process_pixel(graph, node.pixel);
+            if (csp_process_pixel(graph, node.pixel))
+            {
+                changed = TRUE;
+            }
             pixel_available = FALSE;
             for (
                 node.disparity = 0;
-- 
2.43.0


From dbf2fc4db6799419c5396aceb803c2d720f34f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:37 +0000
Subject: [PATCH 02/20] fix: process rows of all jobs when OpenMP is enabled

The loop was limited by the number of threads of the outer parallel region (1),
whereas rows were split by the number of threads of the inner one,
so only the rows of the job 0 were processed.
---
 lib/constraint_graph.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/lib/constraint_graph.cpp b/lib/constraint_graph.cpp
index 5e03d5c..8698a2c 100644
--- a/lib/constraint_graph.cpp
+++ b/lib/constraint_graph.cpp
@@ -36,8 +36,10 @@
 
 #ifdef _OPENMP
 #define THREADS_NUMBER (omp_get_num_threads())
+#define THREAD_NUMBER (omp_get_thread_num())
 #else
 #define THREADS_NUMBER (1)
+#define THREAD_NUMBER (0)
 #endif
 
 #if !defined(__OPENCL_C_VERSION__) && !defined(__CUDA_ARCH__)
@@ -359,18 +361,18 @@ __device__ BOOL csp_solution_iteration(
 BOOL solve_csp(struct ConstraintGraph* graph)
 {
     BOOL changed = TRUE;
-    #ifdef _OPENMP
-    #pragma omp parallel num_threads(1)
-    #endif
     while (changed)
     {
         changed = FALSE;
         #ifdef _OPENMP
-        #pragma omp parallel for reduction(||:changed)
+        #pragma omp parallel reduction(||:changed)
         #endif
-        for (ULONG i = 0; i < THREADS_NUMBER; ++i)
         {
-            changed |= csp_solution_iteration(graph, THREADS_NUMBER, i);
+            changed |= csp_solution_iteration(
+                graph,
+                THREADS_NUMBER,
+                THREAD_NUMBER
+            );
         }
     }
     return check_nodes_left(graph);
-- 
2.43.0


From 1fbe0a5dbd598cdc039517c43b4e02c9c343bc65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:37 +0000
Subject: [PATCH 03/20] fix: do not give up labeling when the best node belongs
 to no solution

A node may have a consistent edge to each neighbor and still belong to no
solution. If such a node is the best one of its pixel, the problem became
unsolvable, and find_labeling returned a null pointer for a solvable problem.
---
 lib/labeling_finder.cpp | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/lib/labeling_finder.cpp b/lib/labeling_finder.cpp
index eb25e4f..8aaf002 100644
--- a/lib/labeling_finder.cpp
+++ b/lib/labeling_finder.cpp
@@ -354,13 +354,27 @@ __device__ struct ConstraintGraph* find_labeling(
     {
         for (ULONG y = 0; y < graph->disparity_graph->left.height; ++y)
         {
-            if (choose_best_node(graph, {x, y}) == nullptr)
+            auto nodes_availability = graph->nodes_availability;
+            while (true)
             {
-                return nullptr;
-            }
-            if (!solve_csp(graph))
-            {
-                return nullptr;
+                if (choose_best_node(graph, {x, y}) == nullptr)
+                {
+                    return nullptr;
+                }
+                struct Node chosen{{x, y}, 0};
+                while (!is_node_available(graph, chosen))
+                {
+                    ++chosen.disparity;
+                }
+                if (solve_csp(graph))
+                {
+                    break;
+                }
+                // The best node doesn't belong to any solution.
+                // Get rid of it and choose another one.
+                graph->nodes_availability = nodes_availability;
+                make_node_unavailable(graph, chosen);
+                nodes_availability = graph->nodes_availability;
             }
         }
     }
-- 
2.43.0


From 86a94282e0b99c37366bff829aadb793c37b732c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:37 +0000
Subject: [PATCH 04/20] fix: choose the best node when penalties are negative

A negative minimal penalty was a marker of the absence of the minimal penalty,
whereas reparametrized penalties may be negative.
---
 lib/labeling_finder.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/labeling_finder.cpp b/lib/labeling_finder.cpp
index 8aaf002..e1baef0 100644
--- a/lib/labeling_finder.cpp
+++ b/lib/labeling_finder.cpp
@@ -265,7 +265,8 @@ __device__ struct ConstraintGraph* choose_best_node(
     struct Node node;
     node.pixel = pixel;
     node.disparity = 0;
-    FLOAT minimal_penalty = -1;
+    FLOAT minimal_penalty = 0;
+    BOOL node_found = false;
     for (
         node.disparity = 0;
         node.pixel.x + node.disparity < graph->disparity_graph->left.width
@@ -278,9 +279,10 @@ __device__ struct ConstraintGraph* choose_best_node(
             continue;
         }
 
-        if (minimal_penalty < 0)
+        if (!node_found)
         {
             minimal_penalty = node_penalty(graph->disparity_graph, node);
+            node_found = true;
         }
         else {
             minimal_penalty = MIN(
-- 
2.43.0


From f0af4d9093c60badf7e209534c9f3408a8078975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:10 +0000
Subject: [PATCH 05/20] fix: take only existing edges into account for lowest
 and available penalties

---
 lib/labeling_finder.cpp  | 19 ++++++-------------
 lib/lowest_penalties.cpp | 19 ++++++-------------
 2 files changed, 12 insertions(+), 26 deletions(-)

diff --git a/lib/labeling_finder.cpp b/lib/labeling_finder.cpp
index e1baef0..293b75c 100644
--- a/lib/labeling_finder.cpp
+++ b/lib/labeling_finder.cpp
@@ -46,6 +46,7 @@ namespace finder
 {
 
 using sp::graph::disparity::NEIGHBORS_COUNT;
+using sp::indexing::checks::edge_exists;
 using sp::indexing::checks::neighborhood_exists_fast;
 using sp::indexing::neighbor_by_index;
 using sp::indexing::pixel_index;
@@ -106,7 +107,6 @@ __device__ FLOAT_ARRAY fetch_edge_available_penalties(
 {
     FLOAT_ARRAY result;
 
-    ULONG initial_disparity = 0;
     for (
         edge.node.disparity = 0;
         edge.node.pixel.x + edge.node.disparity < graph->left.width
@@ -114,24 +114,17 @@ __device__ FLOAT_ARRAY fetch_edge_available_penalties(
         ++edge.node.disparity
     )
     {
-        if (
-            edge.node.disparity <= 1
-            || edge.neighbor.pixel.x == edge.node.pixel.x
-        )
-        {
-            initial_disparity = 0;
-        }
-        else
-        {
-            initial_disparity = edge.node.disparity - 1;
-        }
         for (
-            edge.neighbor.disparity = initial_disparity;
+            edge.neighbor.disparity = 0;
             edge.neighbor.pixel.x + edge.neighbor.disparity < graph->left.width
                 && edge.neighbor.disparity < graph->disparity_levels;
             ++edge.neighbor.disparity
         )
         {
+            if (!edge_exists(graph, edge))
+            {
+                continue;
+            }
             result.push_back(edge_penalty(graph, edge) - minimal_penalty);
         }
     }
diff --git a/lib/lowest_penalties.cpp b/lib/lowest_penalties.cpp
index 8b3649b..694a0c9 100644
--- a/lib/lowest_penalties.cpp
+++ b/lib/lowest_penalties.cpp
@@ -33,6 +33,7 @@ namespace lowest_penalties
 {
 
 using sp::graph::disparity::NEIGHBORS_COUNT;
+using sp::indexing::checks::edge_exists;
 using sp::indexing::checks::neighborhood_exists_fast;
 using sp::indexing::neighbor_by_index;
 using sp::indexing::neighborhood_index;
@@ -144,7 +145,6 @@ __device__ FLOAT calculate_lowest_neighborhood_penalty_fast(
 )
 {
     FLOAT minimal_penalty = edge_penalty(graph, edge);
-    ULONG initial_disparity = 0;
     for (
         edge.node.disparity = 0;
         edge.node.pixel.x + edge.node.disparity < graph->left.width
@@ -152,24 +152,17 @@ __device__ FLOAT calculate_lowest_neighborhood_penalty_fast(
         ++edge.node.disparity
     )
     {
-        if (
-            edge.node.disparity <= 1
-            || edge.neighbor.pixel.x == edge.node.pixel.x
-        )
-        {
-            initial_disparity = 0;
-        }
-        else
-        {
-            initial_disparity = edge.node.disparity - 1;
-        }
         for (
-            edge.neighbor.disparity = initial_disparity;
+            edge.neighbor.disparity = 0;
             edge.neighbor.pixel.x + edge.neighbor.disparity < graph->left.width
                 && edge.neighbor.disparity < graph->disparity_levels;
             ++edge.neighbor.disparity
         )
         {
+            if (!edge_exists(graph, edge))
+            {
+                continue;
+            }
             minimal_penalty = MIN(
                 edge_penalty(graph, edge),
                 minimal_penalty
-- 
2.43.0


From 0aa9b3971bb8d4fc0ce9b98cd239ee9f617b977c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:10 +0000
Subject: [PATCH 06/20] fix: do not read out of bounds checking availability of
 nonexistent edges

---
 lib/constraint_graph.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/constraint_graph.cpp b/lib/constraint_graph.cpp
index 8698a2c..790cf93 100644
--- a/lib/constraint_graph.cpp
+++ b/lib/constraint_graph.cpp
@@ -163,12 +163,12 @@ __device__ BOOL is_edge_available(
 )
 {
     return
-        (edge_penalty(graph->disparity_graph, edge)
+        edge_exists(graph->disparity_graph, edge)
+        && (edge_penalty(graph->disparity_graph, edge)
          - lowest_neighborhood_penalty(graph->lowest_penalties, edge)
          <= graph->threshold)
         && is_node_available(graph, edge.node)
-        && is_node_available(graph, edge.neighbor)
-        && edge_exists(graph->disparity_graph, edge);
+        && is_node_available(graph, edge.neighbor);
 }
 
 __device__ BOOL should_remove_node(
-- 
2.43.0


From 29d776b903a401db9d0324ca4e25ff3fdf5f8a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:10 +0000
Subject: [PATCH 07/20] fix: report the second label found for a pixel

---
 lib/labeling_finder.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/lib/labeling_finder.cpp b/lib/labeling_finder.cpp
index 293b75c..08120b0 100644
--- a/lib/labeling_finder.cpp
+++ b/lib/labeling_finder.cpp
@@ -429,7 +429,6 @@ __device__ struct Image build_disparity_map(
                     result.data[pixel_index(&result, node.pixel)]
                         = node.disparity;
                     found = true;
-                    break;
                 }
             }
             if (!found)
-- 
2.43.0


From 994fed27855ab520c225b49ab8e49f7e7750ba91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:12 +0000
Subject: [PATCH 08/20] fix: end a chunk of PGM file where a comment starts

---
 lib/pgm_io.cpp | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/lib/pgm_io.cpp b/lib/pgm_io.cpp
index a833bd5..b74b10a 100644
--- a/lib/pgm_io.cpp
+++ b/lib/pgm_io.cpp
@@ -64,24 +64,32 @@ shared_ptr<struct Image> PGM_IO::get_image() const
 
 string PGM_IO::read_pgm_instruction(istream& in)
 {
-    if (in.fail())
-    {
-        return "";
-    }
     string current_input;
-    in >> current_input;
-    while (in.good() && current_input[0] == '#')
+    while (in.good())
     {
-        in.ignore(numeric_limits<streamsize>::max(), '\n');
-        if (in.fail())
+        const int symbol = in.peek();
+        if (!in.good())
         {
-            return "";
+            break;
+        }
+        if (symbol == '#')
+        {
+            if (!current_input.empty())
+            {
+                break;
+            }
+            in.ignore(numeric_limits<streamsize>::max(), '\n');
+            continue;
+        }
+        in.ignore();
+        if (isspace(symbol) == 0)
+        {
+            current_input += static_cast<char>(symbol);
+        }
+        else if (!current_input.empty())
+        {
+            break;
         }
-        in >> current_input;
-    }
-    if (current_input[0] == '#')
-    {
-        return "";
     }
     return current_input;
 }
-- 
2.43.0


From 607bda28a4a49ed4695aa6ff7b108c8eea6484df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:14 +0000
Subject: [PATCH 09/20] fix: do not take an image from PGM file with redundant
 data

---
 lib/pgm_io.cpp | 27 +++++++--------------------
 1 file changed, 7 insertions(+), 20 deletions(-)

diff --git a/lib/pgm_io.cpp b/lib/pgm_io.cpp
index b74b10a..8fa8d46 100644
--- a/lib/pgm_io.cpp
+++ b/lib/pgm_io.cpp
@@ -38,7 +38,6 @@ using sp::indexing::pixel_index;
 using sp::types::ULONG;
 using std::endl;
 using std::invalid_argument;
-using std::ios;
 using std::ios_base;
 using std::isspace;
 using std::make_shared;
@@ -96,24 +95,11 @@ string PGM_IO::read_pgm_instruction(istream& in)
 
 bool PGM_IO::check_file_end(istream& in)
 {
-    char current_input;
-    while (in.good() && !in.eof())
+    if (!read_pgm_instruction(in).empty())
     {
-        in.get(current_input);
-        if (current_input == '#')
-        {
-            in.ignore(numeric_limits<streamsize>::max(), '\n');
-        }
-        else if (isspace(current_input) == 0)
-        {
-            in.setstate(ios_base::failbit);
-        };
-    }
-    if (in.eof())
-    {
-        in.clear(ios::goodbit | ios::eofbit);
+        in.setstate(ios_base::failbit);
     }
-    return in.good();
+    return !in.fail();
 }
 
 ostream& operator<<(ostream& out, const PGM_IO& ppm_io)
@@ -199,9 +185,10 @@ istream& operator>>(istream& in, PGM_IO& ppm_io)
         }
     }
 
-    PGM_IO::check_file_end(in);
-
-    ppm_io.set_image(image);
+    if (PGM_IO::check_file_end(in))
+    {
+        ppm_io.set_image(image);
+    }
 
     return in;
 }
-- 
2.43.0


From 74e19b4496311e0ae07e0752c6b500f68170835c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:16 +0000
Subject: [PATCH 10/20] fix: reject PGM files with malformed or too big numbers

---
 lib/pgm_io.cpp | 61 ++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 44 insertions(+), 17 deletions(-)

diff --git a/lib/pgm_io.cpp b/lib/pgm_io.cpp
index 8fa8d46..0d898c1 100644
--- a/lib/pgm_io.cpp
+++ b/lib/pgm_io.cpp
@@ -29,6 +29,7 @@
 #include <iostream>
 #include <limits>
 #include <memory>
+#include <stdexcept>
 #include <string>
 
 namespace sp::image
@@ -40,6 +41,7 @@ using std::endl;
 using std::invalid_argument;
 using std::ios_base;
 using std::isspace;
+using std::logic_error;
 using std::make_shared;
 using std::move;
 using std::numeric_limits;
@@ -47,6 +49,26 @@ using std::stoul;
 using std::streamsize;
 using std::string;
 
+namespace
+{
+
+/**
+ * \brief Convert a chunk to a number.
+ *
+ * Throws `std::logic_error` if the chunk contains not only decimal digits
+ * or the number is too big.
+ */
+ULONG parse_number(const string& chunk)
+{
+    if (chunk.find_first_not_of("0123456789") != string::npos)
+    {
+        throw invalid_argument("Not a number: " + chunk);
+    }
+    return stoul(chunk);
+}
+
+}
+
 PGM_IO::PGM_IO(shared_ptr<struct Image> image) : image{move(image)}
 {
 }
@@ -151,11 +173,11 @@ istream& operator>>(istream& in, PGM_IO& ppm_io)
 
     try
     {
-        image->width = stoul(PGM_IO::read_pgm_instruction(in));
-        image->height = stoul(PGM_IO::read_pgm_instruction(in));
-        image->max_value = stoul(PGM_IO::read_pgm_instruction(in));
+        image->width = parse_number(PGM_IO::read_pgm_instruction(in));
+        image->height = parse_number(PGM_IO::read_pgm_instruction(in));
+        image->max_value = parse_number(PGM_IO::read_pgm_instruction(in));
     }
-    catch (invalid_argument&)
+    catch (logic_error&)
     {
         in.setstate(ios_base::failbit);
         return in;
@@ -166,22 +188,27 @@ istream& operator>>(istream& in, PGM_IO& ppm_io)
         in.setstate(ios_base::failbit);
         return in;
     }
-    image->data.resize(image->width * image->height);
+    if (
+        image->width != 0
+        && image->height > numeric_limits<ULONG>::max() / image->width
+    )
+    {
+        in.setstate(ios_base::failbit);
+        return in;
+    }
 
-    for (ULONG y = 0; y < image->height; ++y)
+    for (ULONG index = 0; index < image->width * image->height; ++index)
     {
-        for (ULONG x = 0; x < image->width; ++x)
+        try
         {
-            try
-            {
-                image->data[pixel_index(image.get(), {x, y})] =
-                    stoul(PGM_IO::read_pgm_instruction(in));
-            }
-            catch (invalid_argument&)
-            {
-                in.setstate(ios_base::failbit);
-                return in;
-            }
+            image->data.push_back(
+                parse_number(PGM_IO::read_pgm_instruction(in))
+            );
+        }
+        catch (logic_error&)
+        {
+            in.setstate(ios_base::failbit);
+            return in;
         }
     }
 
-- 
2.43.0


From 051909847397df767a0ec83eca4e6f7b8d155f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:53 +0000
Subject: [PATCH 11/20] fix: show help

---
 lib/main.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/lib/main.cpp b/lib/main.cpp
index 583277d..1745e1d 100644
--- a/lib/main.cpp
+++ b/lib/main.cpp
@@ -76,6 +76,12 @@ int main(int argc, char* argv[]) try
 
     boost::program_options::notify(vm);
 
+    if (vm.count("help") != 0 || argc <= 1)
+    {
+        std::cout << desc;
+        return vm.count("help") != 0 ? 0 : 1;
+    }
+
     if (
         vm.count("output-image") == 1
         && vm.count("left-image") == 1
@@ -256,17 +262,12 @@ int main(int argc, char* argv[]) try
             << "You should specify both left and right image."
             << std::endl;
     }
-    else if (vm.count("output-image") == 0)
+    else
     {
         std::cerr
             << "You should specify the output image path."
             << std::endl;
     }
-    else
-    {
-        std::cout << desc;
-        return 1;
-    }
     return 0;
 }
 catch(std::exception& e) {
-- 
2.43.0


From 06c454c11a1b297f03df985080c5f09f13d280b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:02 +0000
Subject: [PATCH 12/20] fix: return an error code when the program fails

---
 lib/main.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/main.cpp b/lib/main.cpp
index 1745e1d..ce9f86f 100644
--- a/lib/main.cpp
+++ b/lib/main.cpp
@@ -250,10 +250,12 @@ int main(int argc, char* argv[]) try
         catch (std::invalid_argument& e)
         {
             std::cerr << "Invalid argument: " << e.what() << std::endl;
+            return 1;
         }
         catch (std::logic_error& e)
         {
             std::cerr << "Logic error: " << e.what() << std::endl;
+            return 1;
         }
     }
     else if (vm.count("left-image") == 0 || vm.count("right-image") == 0)
@@ -261,12 +263,14 @@ int main(int argc, char* argv[]) try
         std::cerr
             << "You should specify both left and right image."
             << std::endl;
+        return 1;
     }
     else
     {
         std::cerr
             << "You should specify the output image path."
             << std::endl;
+        return 1;
     }
     return 0;
 }
-- 
2.43.0


From 9029fbee98b21de1e83297c469c1e928a838040c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:10 +0000
Subject: [PATCH 13/20] fix: report that the output image cannot be written

---
 lib/main.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/main.cpp b/lib/main.cpp
index ce9f86f..12aacfe 100644
--- a/lib/main.cpp
+++ b/lib/main.cpp
@@ -246,6 +246,14 @@ int main(int argc, char* argv[]) try
             std::ofstream image_file(vm["output-image"].as<std::string>());
             sp::image::PGM_IO pgm_io{result};
             image_file << pgm_io;
+            image_file.close();
+            if (!image_file)
+            {
+                throw std::invalid_argument(
+                    "Unable to write file `"
+                    + vm["output-image"].as<std::string>() + "`."
+                );
+            }
         }
         catch (std::invalid_argument& e)
         {
-- 
2.43.0


From 8d5db91ab92bbe9ee184bd0b8d09c5998f024823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:34 +0000
Subject: [PATCH 14/20] fix: do not misread numeric parameters of the program

---
 lib/main.cpp | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/lib/main.cpp b/lib/main.cpp
index 12aacfe..607af53 100644
--- a/lib/main.cpp
+++ b/lib/main.cpp
@@ -11,6 +11,8 @@
 #include <pgm_io.hpp>
 
 #include <algorithm>
+#include <cmath>
+#include <cstddef>
 #include <fstream>
 #include <iostream>
 #include <memory>
@@ -18,6 +20,8 @@
 #include <string>
 
 struct sp::image::Image read_image(const std::string& image_path);
+sp::types::ULONG parse_natural(const std::string& input);
+sp::types::FLOAT parse_weight(const std::string& input);
 
 enum Parallelism
 {
@@ -149,21 +153,21 @@ int main(int argc, char* argv[]) try
             }
             else
             {
-                disparity_levels = std::stoul(
+                disparity_levels = parse_natural(
                     vm["disparity-levels"].as<std::string>()
                 );
             }
             sp::types::FLOAT cleanness = 1;
             if (vm.count("cleanness") == 1)
             {
-                cleanness = std::stoul(
+                cleanness = parse_weight(
                     vm["cleanness"].as<std::string>()
                 );
             }
             sp::types::FLOAT smoothness = 1;
             if (vm.count("smoothness") == 1)
             {
-                smoothness = std::stoul(
+                smoothness = parse_weight(
                     vm["smoothness"].as<std::string>()
                 );
             }
@@ -320,3 +324,25 @@ struct sp::image::Image read_image(const std::string& image_path)
     }
     return *pgm_io.get_image();
 }
+
+sp::types::ULONG parse_natural(const std::string& input)
+{
+    if (input.find_first_not_of("0123456789") != std::string::npos)
+    {
+        throw std::invalid_argument(
+            "`" + input + "` is not a natural number."
+        );
+    }
+    return std::stoul(input);
+}
+
+sp::types::FLOAT parse_weight(const std::string& input)
+{
+    std::size_t length = 0;
+    const sp::types::FLOAT weight = std::stod(input, &length);
+    if (length != input.size() || !std::isfinite(weight))
+    {
+        throw std::invalid_argument("`" + input + "` is not a number.");
+    }
+    return weight;
+}
-- 
2.43.0


From 70540dd62026f10aa7fbc1ddf882a64aa384f21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:27 +0000
Subject: [PATCH 15/20] fix: do not miss changes made by other work groups on
 OpenCL devices

---
 lib/gpu_csp.cpp  |  7 ++++---
 lib/solve_csp.cl | 33 ++++-----------------------------
 2 files changed, 8 insertions(+), 32 deletions(-)

diff --git a/lib/gpu_csp.cpp b/lib/gpu_csp.cpp
index 162b818..8da4396 100644
--- a/lib/gpu_csp.cpp
+++ b/lib/gpu_csp.cpp
@@ -69,7 +69,7 @@ BOOL csp_solution_cl(
 
     vector<int> tmp(graph->nodes_availability.begin(), graph->nodes_availability.end());
     compute::vector<int> nodes_availability(tmp, problem->queue);
-    compute::vector<int> changed({0, 0}, problem->queue);
+    compute::vector<int> changed({0}, problem->queue);
 
     kernel csp_iteration = problem->program.create_kernel("csp_iteration");
     csp_iteration.set_args(
@@ -124,6 +124,7 @@ BOOL csp_solution_cl(
 
             do
             {
+                changed[0] = 0;
                 queue.enqueue_1d_range_kernel(
                     csp_iteration,
                     0,
@@ -132,7 +133,7 @@ BOOL csp_solution_cl(
                 );
 
                 queue.finish();
-            } while (changed[1] != 0);
+            } while (changed[0] != 0);
         }
     }
 
@@ -140,7 +141,7 @@ BOOL csp_solution_cl(
         nodes_availability.begin(),
         nodes_availability.end()
     );
-    return changed[1] != 0;
+    return changed[0] != 0;
 }
 
 }
diff --git a/lib/solve_csp.cl b/lib/solve_csp.cl
index 3b8b3c6..02ac0d1 100644
--- a/lib/solve_csp.cl
+++ b/lib/solve_csp.cl
@@ -51,26 +51,6 @@ void populate_structures_gpu(
     constraint_graph->disparity_graph = disparity_graph;
 }
 
-void csp_solution_iteration_gpu(
-    struct ConstraintGraph* constraint_graph,
-    struct Pixel pixel,
-    __global int* changed_step,
-    __global int* changed_any
-)
-{
-    do
-    {
-        *changed_step = 0;
-        barrier(CLK_LOCAL_MEM_FENCE | CLK_GLOBAL_MEM_FENCE);
-        if (csp_process_pixel(constraint_graph, pixel))
-        {
-            *changed_step = 1;
-            *changed_any = 1;
-        }
-        barrier(CLK_LOCAL_MEM_FENCE | CLK_GLOBAL_MEM_FENCE);
-    } while (*changed_step);
-}
-
 __kernel void csp_iteration(
     __global int* nodes_availability,
     __global int* changed,
@@ -113,19 +93,14 @@ __kernel void csp_iteration(
         smoothness
     );
 
-    atomic_and(&changed[0], 0);
-    atomic_and(&changed[1], 0);
-
     struct Pixel pixel;
     pixel.x = thread_id % constraint_graph.disparity_graph->right.width;
     pixel.y = thread_id / constraint_graph.disparity_graph->right.width;
 
-    csp_solution_iteration_gpu(
-        &constraint_graph,
-        pixel,
-        &changed[0],
-        &changed[1]
-    );
+    if (csp_process_pixel(&constraint_graph, pixel))
+    {
+        *changed = 1;
+    }
 }
 
 __kernel void choose_best_node_gpu(
-- 
2.43.0


From 5fd2ebf2bd9cfcbab05646ee8e5384e5c17cadbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:27 +0000
Subject: [PATCH 16/20] fix: do not reset the flag of changes before all CUDA
 threads read it

---
 lib/solve_csp.cu | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/solve_csp.cu b/lib/solve_csp.cu
index e5617eb..4b4832a 100644
--- a/lib/solve_csp.cu
+++ b/lib/solve_csp.cu
@@ -103,6 +103,7 @@ __device__ void csp_solution_iteration_gpu(
     cooperative_groups::grid_group g = cooperative_groups::this_grid();
     do
     {
+        g.sync();
         *changed = 0;
         g.sync();
         if (csp_process_pixel(constraint_graph, pixel))
-- 
2.43.0


From 1fd7ce2b82f1591df1deed008bb926bbbf7d39d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:34 +0000
Subject: [PATCH 17/20] fix: find labeling on GPU when the best node belongs to
 no solution

---
 lib/labeling_finder.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/lib/labeling_finder.cpp b/lib/labeling_finder.cpp
index 08120b0..e22511d 100644
--- a/lib/labeling_finder.cpp
+++ b/lib/labeling_finder.cpp
@@ -323,7 +323,14 @@ struct ConstraintGraph* find_labeling_cl(
     struct gpu::Problem problem;
     build_csp_program(&problem);
     prepare_problem(graph, &problem);
+    auto nodes_availability = graph->nodes_availability;
     gpu::csp_solution_cl(graph, &problem);
+    if (!check_nodes_left(graph))
+    {
+        // The best node of some pixel doesn't belong to any solution.
+        graph->nodes_availability = nodes_availability;
+        return find_labeling(graph);
+    }
     return graph;
 }
 #endif
@@ -334,9 +341,16 @@ struct ConstraintGraph* find_labeling_cuda(
 )
 {
     struct gpu::CUDAProblem problem;
+    auto nodes_availability = graph->nodes_availability;
     prepare_problem(graph, &problem);
     gpu::csp_solution_cuda(graph, &problem);
     free_problem(graph, &problem);
+    if (!check_nodes_left(graph))
+    {
+        // The best node of some pixel doesn't belong to any solution.
+        graph->nodes_availability = nodes_availability;
+        return find_labeling(graph);
+    }
     return graph;
 }
 #endif
-- 
2.43.0


From 3908fcc655a074249b34adeb91f886a936e910ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:40 +0000
Subject: [PATCH 18/20] fix: report failures of CUDA instead of exiting with
 success

---
 lib/cuda_csp.cu | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/lib/cuda_csp.cu b/lib/cuda_csp.cu
index 06120ca..7ce0d4c 100644
--- a/lib/cuda_csp.cu
+++ b/lib/cuda_csp.cu
@@ -25,27 +25,23 @@
 #include <cuda_csp.hpp>
 #include <solve_csp.hpp>
 
-#include <cassert>
-#include <cstdio>
+#include <stdexcept>
+#include <string>
 #include <vector>
 
 #define cdpErrchk(ans) { cdpAssert((ans), __FILE__, __LINE__); }
-__host__ __device__ void cdpAssert(cudaError_t code, const char *file, int line)
+void cdpAssert(cudaError_t code, const char *file, int line)
 {
    if (code != cudaSuccess)
    {
-      printf("GPU kernel assert: %s %s %d\n", cudaGetErrorString(code), file, line);
-      assert(0);
+      throw std::runtime_error(
+         std::string("CUDA failure ") + file + ":" + std::to_string(line)
+         + ": " + cudaGetErrorString(code)
+      );
    }
 }
 
-#define cudaCheckError() {                                          \
- cudaError_t e=cudaGetLastError();                                 \
- if(e!=cudaSuccess) {                                              \
-   printf("Cuda failure %s:%d: '%s'\n",__FILE__,__LINE__,cudaGetErrorString(e));           \
-   exit(0); \
- }                                                                 \
-}
+#define cudaCheckError() cdpErrchk(cudaGetLastError())
 
 namespace gpu
 {
-- 
2.43.0


From a3afcf4bf8e8df791e11274eed5bf2a54710cc5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:24 +0000
Subject: [PATCH 19/20] fix: write PGM images independently of formatting of
 the stream

Hexadecimal base, width, sign or grouping of digits which are set for the
stream led to files which aren't plain PGM images.
---
 lib/pgm_io.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/pgm_io.cpp b/lib/pgm_io.cpp
index 0d898c1..5ff94dd 100644
--- a/lib/pgm_io.cpp
+++ b/lib/pgm_io.cpp
@@ -48,6 +48,7 @@ using std::numeric_limits;
 using std::stoul;
 using std::streamsize;
 using std::string;
+using std::to_string;
 
 namespace
 {
@@ -131,14 +132,16 @@ ostream& operator<<(ostream& out, const PGM_IO& ppm_io)
         return out;
     }
     shared_ptr<struct Image> image = ppm_io.get_image();
+    // Numbers shouldn't depend on formatting which is set for the stream.
+    out.width(0);
     out << PGM_IO::FORMAT_CODE << endl;
-    out << image->width << " " << image->height << endl;
-    out << image->max_value << endl;
+    out << to_string(image->width) << " " << to_string(image->height) << endl;
+    out << to_string(image->max_value) << endl;
     for (ULONG y = 0; y < image->height; ++y)
     {
         for (ULONG x = 0; x < image->width; ++x)
         {
-            out << image->data[pixel_index(image.get(), {x, y})];
+            out << to_string(image->data[pixel_index(image.get(), {x, y})]);
             if (x == 0 || (x + 1) % PGM_IO::MAX_NUMBERS_PER_ROW != 0)
             {
                 if (x + 1 < image->width)
-- 
2.43.0


From 29f54cf1a88b97d96a8e8653ba6304d7e3f6d32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:04:46 +0000
Subject: [PATCH 20/20] fix: solve problems of more than 1024 rows on CUDA

---
 lib/cuda_csp.cu  |  9 ++++++++-
 lib/solve_csp.cu | 12 ++++++++++--
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/lib/cuda_csp.cu b/lib/cuda_csp.cu
index 7ce0d4c..dc90df8 100644
--- a/lib/cuda_csp.cu
+++ b/lib/cuda_csp.cu
@@ -48,6 +48,9 @@ namespace gpu
 
 using std::vector;
 
+// The greatest number of threads which CUDA allows per block.
+const ULONG MAX_BLOCK_THREADS = 1024;
+
 void prepare_problem(struct ConstraintGraph* graph, struct CUDAProblem* problem)
 {
     vector<unsigned> left_image(
@@ -175,6 +178,10 @@ void csp_solution_cuda(
     struct CUDAProblem* problem
 )
 {
+    const ULONG threads_number =
+        graph->disparity_graph->right.height < MAX_BLOCK_THREADS
+        ? graph->disparity_graph->right.height
+        : MAX_BLOCK_THREADS;
     for (ULONG x = 0; x < graph->disparity_graph->right.width; ++x)
     {
         for (ULONG y = 0; y < graph->disparity_graph->right.height; ++y)
@@ -205,7 +212,7 @@ void csp_solution_cuda(
 
             csp_iteration_cuda<<<
                 graph->disparity_graph->right.width,
-                graph->disparity_graph->right.height
+                threads_number
             >>>(
 
                 problem->nodes_availability,
diff --git a/lib/solve_csp.cu b/lib/solve_csp.cu
index 4b4832a..b2cb002 100644
--- a/lib/solve_csp.cu
+++ b/lib/solve_csp.cu
@@ -106,9 +106,17 @@ __device__ void csp_solution_iteration_gpu(
         g.sync();
         *changed = 0;
         g.sync();
-        if (csp_process_pixel(constraint_graph, pixel))
+        // A block may have less threads than there are rows.
+        for (
+            struct Pixel current = pixel;
+            current.y < constraint_graph->disparity_graph->right.height;
+            current.y += blockDim.x
+        )
         {
-            *changed = 1;
+            if (csp_process_pixel(constraint_graph, current))
+            {
+                *changed = 1;
+            }
         }
         g.sync();
     } while (*changed);
-- 
2.43.0

