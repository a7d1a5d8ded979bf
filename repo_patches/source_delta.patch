From 3d6a4c46433a28e342e102a55b4cb362023d3dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:08 +0000
Subject: [PATCH 01/26] fix: check that reading an HDF5 dataset succeeded

---
 include/hdf5_utils.hpp | 6 ++++--
 src/hdf5_utils.cpp     | 9 ++++++---
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/hdf5_utils.hpp b/include/hdf5_utils.hpp
index 1a31d9b..e9a251b 100644
--- a/include/hdf5_utils.hpp
+++ b/include/hdf5_utils.hpp
@@ -143,7 +143,8 @@ void ReadDataset(hid_t &source, std::string dataset, Array<T> &value)
    if (dims[0] > 0)
    {
       hid_t dataType = hdf5_utils::GetType(value[0]);
-      H5Dread(dset_id, dataType, H5S_ALL, H5S_ALL, H5P_DEFAULT, value.Write());
+      errf = H5Dread(dset_id, dataType, H5S_ALL, H5S_ALL, H5P_DEFAULT, value.Write());
+      assert(errf >= 0);
    }
 
    errf = H5Dclose(dset_id);
@@ -176,7 +177,8 @@ void ReadDataset(hid_t &source, std::string dataset, Array2D<T> &value)
    }
 
    hid_t dataType = hdf5_utils::GetType(value(0, 0));
-   H5Dread(dset_id, dataType, H5S_ALL, H5S_ALL, H5P_DEFAULT, value.GetRow(0));
+   errf = H5Dread(dset_id, dataType, H5S_ALL, H5S_ALL, H5P_DEFAULT, value.GetRow(0));
+   assert(errf >= 0);
 
    errf = H5Dclose(dset_id);
    assert(errf >= 0);
diff --git a/src/hdf5_utils.cpp b/src/hdf5_utils.cpp
index 1109241..9f0f95d 100644
--- a/src/hdf5_utils.cpp
+++ b/src/hdf5_utils.cpp
@@ -113,7 +113,8 @@ void ReadDataset(hid_t &source, std::string dataset, DenseMatrix &value)
    // hdf5 is row-major, while mfem::DenseMatrix is column major. we load the transpose.
    value.SetSize(dims[1], dims[0]);
    hid_t dataType = hdf5_utils::GetType(value(0, 0));
-   H5Dread(dset_id, dataType, H5S_ALL, H5S_ALL, H5P_DEFAULT, value.Write());
+   errf = H5Dread(dset_id, dataType, H5S_ALL, H5S_ALL, H5P_DEFAULT, value.Write());
+   assert(errf >= 0);
 
    errf = H5Dclose(dset_id);
    assert(errf >= 0);
@@ -354,7 +355,8 @@ void ReadDataset(hid_t &source, std::string dataset, Vector &value)
 
    value.SetSize(dims[0]);
    hid_t dataType = hdf5_utils::GetType(value[0]);
-   H5Dread(dset_id, dataType, H5S_ALL, H5S_ALL, H5P_DEFAULT, value.Write());
+   errf = H5Dread(dset_id, dataType, H5S_ALL, H5S_ALL, H5P_DEFAULT, value.Write());
+   assert(errf >= 0);
 
    errf = H5Dclose(dset_id);
    assert(errf >= 0);
@@ -400,7 +402,8 @@ void ReadDataset(hid_t &source, std::string dataset, DenseTensor &value)
    // hdf5 is row-major, while mfem::DenseTensor is column major. we load the transpose.
    value.SetSize(dims[2], dims[1], dims[0]);
    hid_t dataType = hdf5_utils::GetType(value(0, 0, 0));
-   H5Dread(dset_id, dataType, H5S_ALL, H5S_ALL, H5P_DEFAULT, value.Write());
+   errf = H5Dread(dset_id, dataType, H5S_ALL, H5S_ALL, H5P_DEFAULT, value.Write());
+   assert(errf >= 0);
 
    errf = H5Dclose(dset_id);
    assert(errf >= 0);
-- 
2.43.0


From 354cd415684dc75c174eb2a75a5dbe2b01fdde44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:08 +0000
Subject: [PATCH 02/26] fix: close the file that has no boundary data

---
 src/component_topology_handler.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/component_topology_handler.cpp b/src/component_topology_handler.cpp
index 25a2a86..86caee4 100644
--- a/src/component_topology_handler.cpp
+++ b/src/component_topology_handler.cpp
@@ -399,7 +399,11 @@ bool ComponentTopologyHandler::ReadBoundariesFromFile(const std::string filename
       assert(errf >= 0);
    }
    else
+   {
+      errf = H5Fclose(file_id);
+      assert(errf >= 0);
       return false;
+   }
 
    {  // Boundary data.
       Array2D<int> tmp;
-- 
2.43.0


From a2db61e377b7fd7cc3ac67d96bef7b176dc95060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:08 +0000
Subject: [PATCH 03/26] fix: close the group of a port that is already set up

---
 src/component_topology_handler.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/component_topology_handler.cpp b/src/component_topology_handler.cpp
index 86caee4..0f1ca80 100644
--- a/src/component_topology_handler.cpp
+++ b/src/component_topology_handler.cpp
@@ -459,7 +459,12 @@ void ComponentTopologyHandler::ReadPortDatasFromFile(const std::string filename)
 
       int port_idx = port_name2idx[port_name];
       // Skip if the port is already set up.
-      if (ref_ports[port_idx] != NULL) continue;
+      if (ref_ports[port_idx] != NULL)
+      {
+         errf = H5Gclose(grp_id);
+         assert(errf >= 0);
+         continue;
+      }
 
       int battr1, battr2;
       hdf5_utils::ReadAttribute(grp_id, "bdr_attr1", battr1);
-- 
2.43.0


From c2c8458d8b7e1d3d40e98005e3338b097dbeb293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:54 +0000
Subject: [PATCH 04/26] fix: do not take an unreadable boundary dataset for an
 absent one

---
 src/component_topology_handler.cpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/component_topology_handler.cpp b/src/component_topology_handler.cpp
index 0f1ca80..3bd0bbf 100644
--- a/src/component_topology_handler.cpp
+++ b/src/component_topology_handler.cpp
@@ -392,13 +392,9 @@ bool ComponentTopologyHandler::ReadBoundariesFromFile(const std::string filename
    assert(file_id >= 0);
 
    // Check if dataset exists. otherwise, return with false.
-   hid_t dset_id = H5Dopen(file_id, "boundary", H5P_DEFAULT);
-   if (dset_id >= 0)
-   {
-      errf = H5Dclose(dset_id);
-      assert(errf >= 0);
-   }
-   else
+   htri_t dset_exists = H5Lexists(file_id, "boundary", H5P_DEFAULT);
+   assert(dset_exists >= 0);
+   if (!dset_exists)
    {
       errf = H5Fclose(file_id);
       assert(errf >= 0);
-- 
2.43.0


From 8e5251e2a19a61a7e941fda7b741aece5b0b7d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:38 +0000
Subject: [PATCH 05/26] fix: looking up an option never changes the
 configuration

A lookup below a list or a null entry turned that entry into a map, because
operator[] of a non-const YAML node converts it.
---
 src/input_parser.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/input_parser.cpp b/src/input_parser.cpp
index 17a57f7..2600d55 100644
--- a/src/input_parser.cpp
+++ b/src/input_parser.cpp
@@ -58,12 +58,16 @@ YAML::Node InputParser::FindNodeFromDict(const std::string &keys, YAML::Node inp
    int dd = 0;
    for (std::string s; std::getline(key_iterator, s, '/'); )
    {
-      if (!(nodes.back()[s]))
+      // operator[] of a non-const node would turn a null node or a list into a map.
+      const YAML::Node &parent = nodes.back();
+      if (!parent[s])
       {
-         if (create)
-            nodes.back()[s] = YAML::Node();
-         else
-            return nodes.back()[s];
+         if (!create)
+         {
+            YAML::Node tmp;
+            return tmp["none"];  // this returns a zombie node that is false.
+         }
+         nodes.back()[s] = YAML::Node();
       }
 
       nodes.push_back(nodes.back()[s]);
-- 
2.43.0


From ae8a32ee1c0c173faa6534f1bda53ae061d86a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:38 +0000
Subject: [PATCH 06/26] fix: stop if the input file is missing or cannot be
 read completely

In parallel runs a missing or unreadable file gave an empty configuration and
a read error a truncated one, on every process.
---
 src/input_parser.cpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/input_parser.cpp b/src/input_parser.cpp
index 2600d55..5f135a4 100644
--- a/src/input_parser.cpp
+++ b/src/input_parser.cpp
@@ -15,23 +15,24 @@ InputParser::InputParser(const std::string &input_file, const std::string forced
    {
       MPI_Comm_rank(MPI_COMM_WORLD, &rank);
 
-      std::stringstream buffer;
       std::string ss;
       if (rank == 0)
       {
          std::ifstream file(input_file);
-         buffer << file.rdbuf();
+         if (!file)
+         {
+            printf("Cannot open the input file %s!\n", input_file.c_str());
+            exit(-1);
+         }
+         // unlike operator<<, this throws if the file cannot be read to its end.
+         ss.assign(std::istreambuf_iterator<char>(file), std::istreambuf_iterator<char>());
       }
 
-      int bufferSize = buffer.str().size();
+      int bufferSize = ss.size();
       MPI_Bcast(&bufferSize, 1, MPI_INT, 0, MPI_COMM_WORLD);
 
-      if (rank == 0)
-         ss = buffer.str();
-      else
-         ss.resize(bufferSize);
-
-      MPI_Bcast(&ss[0], ss.capacity(), MPI_CHAR, 0, MPI_COMM_WORLD);
+      ss.resize(bufferSize);
+      MPI_Bcast(&ss[0], bufferSize, MPI_CHAR, 0, MPI_COMM_WORLD);
 
       dict_ = YAML::Load(ss);
    }
-- 
2.43.0


From e0ca46461120dfc847efc4b816ecb63293edc7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:51 +0000
Subject: [PATCH 07/26] fix: reject an override without a key

-f "=value" replaced the whole configuration by the value.
---
 src/input_parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/input_parser.cpp b/src/input_parser.cpp
index 5f135a4..c425214 100644
--- a/src/input_parser.cpp
+++ b/src/input_parser.cpp
@@ -86,7 +86,7 @@ void InputParser::OverwriteOption(const std::string &forced_input)
    {
       std::stringstream kvss(kv);
       success = true;
-      success = success && (std::getline(kvss, key, '='));
+      success = success && (std::getline(kvss, key, '=')) && (!key.empty());
       success = success && (std::getline(kvss, val, '='));
       success = success && (!std::getline(kvss, dummy, '='));
       if (!success)
-- 
2.43.0


From 94076f1e931be218214f9fa25673e703382d96d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:27 +0000
Subject: [PATCH 08/26] fix: time profile over several processes

MPI_IN_PLACE was used on non-root processes, printing replaced the first
process' own call counts by the sums, the table was printed by the world's
first process even for other communicators, and the total was that of one
process.
---
 include/etc.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/etc.hpp b/include/etc.hpp
index 9aad33e..99d0323 100644
--- a/include/etc.hpp
+++ b/include/etc.hpp
@@ -58,7 +58,7 @@ public:
     TimeProfiler(const std::string &title_, MPI_Comm comm_=MPI_COMM_WORLD)
         : title(title_), comm(comm_)
     {
-        MPI_Comm_rank(MPI_COMM_WORLD, &rank);
+        MPI_Comm_rank(comm, &rank);
         calls.SetSize(0);
         names.clear();
         indices.clear();
@@ -124,10 +124,12 @@ public:
         Array<double> times(nfunc);
         for (int k = 0; k < nfunc; k++)
             times[k] = timers[k]->RealTime();
-        double total = times.Sum();
 
-        MPI_Reduce(MPI_IN_PLACE, times.GetData(), nfunc, MPI_DOUBLE, MPI_SUM, 0, comm);
-        MPI_Reduce(MPI_IN_PLACE, calls.GetData(), nfunc, MPI_INT, MPI_SUM, 0, comm);
+        // MPI_IN_PLACE is only allowed on the root. The local counts are kept for the next print.
+        Array<int> total_calls(calls);
+        MPI_Reduce((rank == 0) ? MPI_IN_PLACE : times.GetData(), times.GetData(), nfunc, MPI_DOUBLE, MPI_SUM, 0, comm);
+        MPI_Reduce((rank == 0) ? MPI_IN_PLACE : total_calls.GetData(), total_calls.GetData(), nfunc, MPI_INT, MPI_SUM, 0, comm);
+        double total = times.Sum();
 
         if (rank == 0)
         {
@@ -139,7 +141,7 @@ public:
             printf("%20s\t%20s\t%20s\t%20s\n", "Function", "Total time", "Calls", "Time per call");
             for (int k = 0; k < nfunc; k++)
             {
-                printf("%20s\t%20.5e\t%20d\t%20.5e\n", names[k].c_str(), times[k], calls[k], times[k] / calls[k]);
+                printf("%20s\t%20.5e\t%20d\t%20.5e\n", names[k].c_str(), times[k], total_calls[k], times[k] / total_calls[k]);
             }
             if (compute_sum)
                 printf("%20s\t%20.5e\t%20d\t%20.5e\n", "Total time", total, 1, total);
-- 
2.43.0


From 8be2b03dcf657203ce38718a5d85215252ea62e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:30 +0000
Subject: [PATCH 09/26] fix: linelast_force_cantilever does not inherit the
 displacement of an earlier problem

Its left boundary uses linelast_disp::rdisp_f, which only the displacement
problems set.
---
 src/parameterized_problem.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parameterized_problem.cpp b/src/parameterized_problem.cpp
index 10699fc..2988f8c 100644
--- a/src/parameterized_problem.cpp
+++ b/src/parameterized_problem.cpp
@@ -1190,7 +1190,8 @@ LinElastForceCantilever::LinElastForceCantilever()
    general_scalar_ptr[0] = function_factory::linelast_problem::lambda;
    general_scalar_ptr[1] = function_factory::linelast_problem::mu;
    
-   // Default values.
+   // Default values. The left end is clamped.
+   function_factory::linelast_disp::rdisp_f = 0.0;
    function_factory::linelast_force::rforce_f = 1.0;
    function_factory::linelast_problem::_lambda = 1.0;
    function_factory::linelast_problem::_mu = 1.0;
-- 
2.43.0


From b8ade03ae662692c5a9f0845f1a0e2feadfc8e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:30 +0000
Subject: [PATCH 10/26] fix: component-wise training loads are zero where they
 are switched off

The functions left the components that are switched off as they were in the
caller's scratch vector.
---
 src/parameterized_problem.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parameterized_problem.cpp b/src/parameterized_problem.cpp
index 2988f8c..33d741b 100644
--- a/src/parameterized_problem.cpp
+++ b/src/parameterized_problem.cpp
@@ -382,6 +382,7 @@ double perturb_func(const double x, const double amp, const double freq, const d
 
 void left_disp(const Vector &x, double t, Vector &u)
 {
+   u = 0.0;
    if (lx >= 0.5)
       u(0) = l_ux + perturb_func(x(0), xu_amp, xu_freq, xu_offset);
    if (ly >= 0.5)
@@ -390,6 +391,7 @@ void left_disp(const Vector &x, double t, Vector &u)
 
 void right_disp(const Vector &x, double t, Vector &u)
 {
+   u = 0.0;
    if (rx >= 0.5)
       u(0) = r_fx + perturb_func(x(0), xf_amp, xf_freq, xf_offset);
    if (ry >= 0.5)
@@ -398,6 +400,7 @@ void right_disp(const Vector &x, double t, Vector &u)
 
 void up_disp(const Vector &x, double t, Vector &u)
 {
+   u = 0.0;
    if (ux >= 0.5)
       u(0) = u_fx + perturb_func(x(0), xf_amp, xf_freq, xf_offset);
    if (uy >= 0.5)
@@ -406,6 +409,7 @@ void up_disp(const Vector &x, double t, Vector &u)
 
 void down_disp(const Vector &x, double t, Vector &u)
 {
+   u = 0.0;
    if (dx >= 0.5)
       u(0) = d_fx + perturb_func(x(0), xf_amp, xf_freq, xf_offset);
    if (dy >= 0.5)
@@ -414,6 +418,7 @@ void down_disp(const Vector &x, double t, Vector &u)
 
 void body_force(const Vector &x, double t, Vector &u)
 {
+   u = 0.0;
    if (bx >= 0.5)
       u(0) = b_fx + perturb_func(x(0), bxf_amp, bxf_freq, bxf_offset);
    if (by >= 0.5)
-- 
2.43.0


From d087fdb5f1afdf5363a9ad34f76c912248ae03ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:30 +0000
Subject: [PATCH 11/26] fix: set the number of parameters of the elasticity
 problems

It was never set, so that setting parameters by index depended on what the
memory held before.
---
 src/parameterized_problem.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/parameterized_problem.cpp b/src/parameterized_problem.cpp
index 33d741b..224cbd3 100644
--- a/src/parameterized_problem.cpp
+++ b/src/parameterized_problem.cpp
@@ -1052,7 +1052,8 @@ LinElastDisp::LinElastDisp()
    param_map["lambda"] = 1;
    param_map["mu"] = 2;
 
-   param_ptr.SetSize(3);
+   param_num = 3;
+   param_ptr.SetSize(param_num);
    param_ptr[0] = &(function_factory::linelast_disp::rdisp_f);
    param_ptr[1] = &(function_factory::linelast_problem::_lambda);
    param_ptr[2] = &(function_factory::linelast_problem::_mu);
@@ -1091,7 +1092,8 @@ LinElastDispLCantilever::LinElastDispLCantilever()
    param_map["lambda"] = 1;
    param_map["mu"] = 2;
 
-   param_ptr.SetSize(3);
+   param_num = 3;
+   param_ptr.SetSize(param_num);
    param_ptr[0] = &(function_factory::linelast_disp::rdisp_f);
    param_ptr[1] = &(function_factory::linelast_problem::_lambda);
    param_ptr[2] = &(function_factory::linelast_problem::_mu);
@@ -1147,7 +1149,8 @@ LinElastDispLattice::LinElastDispLattice()
    param_map["lambda"] = 1;
    param_map["mu"] = 2;
 
-   param_ptr.SetSize(3);
+   param_num = 3;
+   param_ptr.SetSize(param_num);
    param_ptr[0] = &(function_factory::linelast_disp::rdisp_f);
    param_ptr[1] = &(function_factory::linelast_problem::_lambda);
    param_ptr[2] = &(function_factory::linelast_problem::_mu);
@@ -1205,7 +1208,8 @@ LinElastForceCantilever::LinElastForceCantilever()
    param_map["lambda"] = 1;
    param_map["mu"] = 2;
 
-   param_ptr.SetSize(3);
+   param_num = 3;
+   param_ptr.SetSize(param_num);
    param_ptr[0] = &(function_factory::linelast_force::rforce_f);
    param_ptr[1] = &(function_factory::linelast_problem::_lambda);
    param_ptr[2] = &(function_factory::linelast_problem::_mu);
@@ -1265,7 +1269,8 @@ LinElastFrameWind::LinElastFrameWind()
    param_map["density"] = 3;
    param_map["g"] = 4;
 
-   param_ptr.SetSize(5);
+   param_num = 5;
+   param_ptr.SetSize(param_num);
    param_ptr[0] = &(function_factory::linelast_problem::_lambda);
    param_ptr[1] = &(function_factory::linelast_problem::_mu);
    param_ptr[2] = &(function_factory::linelast_frame_wind::qwind_f);
@@ -1458,7 +1463,8 @@ LinElastComponentWiseTrain::LinElastComponentWiseTrain()
    param_map["bx"] = 38;
    param_map["by"] = 39;
 
-   param_ptr.SetSize(40);
+   param_num = 40;
+   param_ptr.SetSize(param_num);
    param_ptr[0] = &(function_factory::linelast_cwtrain::l_ux);
    param_ptr[1] = &(function_factory::linelast_cwtrain::l_uy);
    param_ptr[2] = &(function_factory::linelast_cwtrain::r_fx);
-- 
2.43.0


From dd7e60e0a7f09afbe8c7bfbe4ad29991e0c5c106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:54 +0000
Subject: [PATCH 12/26] fix: remove the old port file before its snapshots are
 replaced

---
 src/sample_generator.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/sample_generator.cpp b/src/sample_generator.cpp
index d58c0e6..60adfa9 100644
--- a/src/sample_generator.cpp
+++ b/src/sample_generator.cpp
@@ -6,6 +6,8 @@
 #include "hdf5_utils.hpp"
 #include "etc.hpp"
 #include "utils/mpi_utils.h"  // this is from libROM/utils.
+#include <cerrno>
+#include <cstdio>
 
 using namespace mfem;
 using namespace std;
@@ -283,6 +285,15 @@ void SampleGenerator::AddSnapshotGenerator(const int &fom_vdofs, const std::stri
 void SampleGenerator::WriteSnapshots()
 {
    assert(snapshot_generators.Size() > 0);
+
+   /*
+      A port file of an earlier sampling refers to the snapshots that are replaced below.
+      If we stop before the new one is written, it must not be left behind.
+   */
+   const std::string port_file = GetSamplePrefix() + ".port.h5";
+   if ((std::remove(port_file.c_str()) != 0) && (errno != ENOENT))
+      mfem_error("SampleGenerator::WriteSnapshots- cannot remove the old port file!\n");
+
    for (int s = 0; s < snapshot_generators.Size(); s++)
    {
       assert(snapshot_generators[s]);
-- 
2.43.0


From 29062294dfa6713988a298db00d11e6459900052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:35 +0000
Subject: [PATCH 13/26] fix: do not stamp a new time on an existing solution
 file when saving is disabled

---
 src/multiblock_solver.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/multiblock_solver.cpp b/src/multiblock_solver.cpp
index d946c71..e129f64 100644
--- a/src/multiblock_solver.cpp
+++ b/src/multiblock_solver.cpp
@@ -529,6 +529,9 @@ void MultiBlockSolver::SaveSolution(std::string filename)
 
 void MultiBlockSolver::SaveSolutionWithTime(std::string filename, const int step, const double time)
 {
+   // SaveSolution does not write the file then: an existing one keeps its own time.
+   if (!save_sol) return;
+
    SaveSolution(filename);
    printf("Saving time/time step ...");
 
-- 
2.43.0


From 5d20ef29d06e59f637e77e5cef110c4a41fad23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:35 +0000
Subject: [PATCH 14/26] fix: write the current time step into unsteady restart
 files

---
 src/unsteady_ns_solver.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/unsteady_ns_solver.cpp b/src/unsteady_ns_solver.cpp
index bda721f..0ce2573 100644
--- a/src/unsteady_ns_solver.cpp
+++ b/src/unsteady_ns_solver.cpp
@@ -123,6 +123,9 @@ bool UnsteadyNSSolver::Solve(SampleGenerator *sample_generator)
       if (save_sol && restart_interval &&
           (((step+1) % restart_interval) == 0))
       {
+         /* the solution variable still holds the last visualized/sampled step */
+         SortBySubdomains(*U_step, *U);
+
          restart_file = string_format(file_fmt, sol_dir.c_str(), sol_prefix.c_str(), step+1);
          SaveSolutionWithTime(restart_file, step+1, time);
       }
-- 
2.43.0


From ea70949bc0f7632717b34c730056c0f99506e539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:43 +0000
Subject: [PATCH 15/26] fix: step over the samples of other processes in sample
 generation

---
 src/main_workflow.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/main_workflow.cpp b/src/main_workflow.cpp
index cec992a..bba3ce5 100644
--- a/src/main_workflow.cpp
+++ b/src/main_workflow.cpp
@@ -154,7 +154,11 @@ void GenerateSamples(MPI_Comm comm)
    int s = 0;
    while (s < sample_generator->GetTotalSampleSize())
    {
-      if (!sample_generator->IsMyJob(s)) continue;
+      if (!sample_generator->IsMyJob(s))
+      {
+         s++;
+         continue;
+      }
 
       // NOTE: this will change config.dict_
       sample_generator->SetSampleParams(s);
-- 
2.43.0


From cfea836876c6a24e07c483f82b96afd1b18cf150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:55 +0000
Subject: [PATCH 16/26] fix: keep each linear elasticity sample solve on its
 own process

---
 src/linelast_solver.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/linelast_solver.cpp b/src/linelast_solver.cpp
index b78b0f4..06d32db 100644
--- a/src/linelast_solver.cpp
+++ b/src/linelast_solver.cpp
@@ -289,7 +289,7 @@ void LinElastSolver::AssembleOperator()
       sys_glob_size = globalMat_mono->NumRows();
       sys_row_starts[0] = 0;
       sys_row_starts[1] = globalMat_mono->NumRows();
-      globalMat_hypre = new HypreParMatrix(MPI_COMM_WORLD, sys_glob_size, sys_row_starts, globalMat_mono);
+      globalMat_hypre = new HypreParMatrix(MPI_COMM_SELF, sys_glob_size, sys_row_starts, globalMat_mono);
 
       mumps = new MUMPSSolver(MPI_COMM_SELF);
       mumps->SetMatrixSymType(MUMPSSolver::MatType::SYMMETRIC_POSITIVE_DEFINITE);
@@ -333,7 +333,7 @@ bool LinElastSolver::Solve(SampleGenerator *sample_generator)
          // Initializating HypreParMatrix needs the monolithic sparse matrix.
          assert(globalMat_mono != NULL);
 
-         solver = new CGSolver(MPI_COMM_WORLD);
+         solver = new CGSolver(MPI_COMM_SELF);
 
          M = new HypreBoomerAMG(*globalMat_hypre);
          M->SetPrintLevel(print_level);
-- 
2.43.0


From c5226e9e1c3c157921cadf2acbe94020dcb06b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:55 +0000
Subject: [PATCH 17/26] fix: print the time profile of an unsteady solve
 without waiting for other processes

---
 src/unsteady_ns_solver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/unsteady_ns_solver.cpp b/src/unsteady_ns_solver.cpp
index 0ce2573..e1a839d 100644
--- a/src/unsteady_ns_solver.cpp
+++ b/src/unsteady_ns_solver.cpp
@@ -13,7 +13,7 @@ using namespace mfem;
 */
 
 UnsteadyNSSolver::UnsteadyNSSolver()
-   : SteadyNSSolver(), timer("UnsteadyNSSolver")
+   : SteadyNSSolver(), timer("UnsteadyNSSolver", MPI_COMM_SELF)
 {
    nonlinear_mode = true;
 
-- 
2.43.0


From c83b9733c643f6521f3c164958542cfa6520f97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:59 +0000
Subject: [PATCH 18/26] fix: enforce Dirichlet conditions of linear elasticity
 also without full discrete Galerkin

The right-hand side has the weak Dirichlet terms in both modes, and so do the
component-wise ROM operators; the full-order operator had them only with full DG,
leaving a system without a unique solution.
---
 src/linelast_solver.cpp | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/src/linelast_solver.cpp b/src/linelast_solver.cpp
index 06d32db..6f1a1bf 100644
--- a/src/linelast_solver.cpp
+++ b/src/linelast_solver.cpp
@@ -420,22 +420,20 @@ void LinElastSolver::SetupBCOperators()
 void LinElastSolver::SetupDomainBCOperators()
 {
    MFEM_ASSERT(as.Size() == numSub, "BilinearForm bs != numSub.\n");
-   if (full_dg)
+   // Dirichlet BC is weakly enforced regardless of full_dg.
+   for (int m = 0; m < numSub; m++)
    {
-      for (int m = 0; m < numSub; m++)
+      for (int b = 0; b < global_bdr_attributes.Size(); b++)
       {
-         for (int b = 0; b < global_bdr_attributes.Size(); b++)
-         {
-            int idx = meshes[m]->bdr_attributes.Find(global_bdr_attributes[b]);
-            if (idx < 0)
-               continue;
-            if (!BCExistsOnBdr(b))
-               continue;
-
-            if (bdr_type[b] == BoundaryType::DIRICHLET)
-               as[m]->AddBdrFaceIntegrator(new DGElasticityIntegrator(
-                  *(lambda_c[m]), *(mu_c[m]), alpha, kappa), *(bdr_markers[b]));
-         }
+         int idx = meshes[m]->bdr_attributes.Find(global_bdr_attributes[b]);
+         if (idx < 0)
+            continue;
+         if (!BCExistsOnBdr(b))
+            continue;
+
+         if (bdr_type[b] == BoundaryType::DIRICHLET)
+            as[m]->AddBdrFaceIntegrator(new DGElasticityIntegrator(
+               *(lambda_c[m]), *(mu_c[m]), alpha, kappa), *(bdr_markers[b]));
       }
    }
 }
-- 
2.43.0


From f13cc26963684c8ad06649ddc6efe995c0b96e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:19 +0000
Subject: [PATCH 19/26] fix: initialise the reference point of the
 complementary flux

With a pressure boundary condition it was left as allocated, and 0 * NaN made
the inflow of flow_past_array NaN.
---
 src/stokes_solver.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/stokes_solver.cpp b/src/stokes_solver.cpp
index 2ff664a..ca6d683 100644
--- a/src/stokes_solver.cpp
+++ b/src/stokes_solver.cpp
@@ -1127,6 +1127,7 @@ void StokesSolver::SetParameterizedProblem(ParameterizedProblem *problem)
    // Ensure incompressibility.
    function_factory::flow_problem::del_u = 0.0;
    function_factory::flow_problem::x0.SetSize(dim);
+   function_factory::flow_problem::x0 = 0.0;
    if (!pres_dbc)
    {
       Array<bool> nz_dbcs(numBdr);
-- 
2.43.0


From 5b16c922ca6d5dedfb2ef350dd8c428952aaf1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:05 +0000
Subject: [PATCH 20/26] fix: use the unknowns' own offsets for the velocity of
 hyper-reduced Lax-Friedrichs flows

With the unknowns ordered by variable the online stage of a hyper-reduced
steady flow aborted (or used the offsets of other blocks).
---
 src/steady_ns_solver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/steady_ns_solver.cpp b/src/steady_ns_solver.cpp
index 7a3ae61..e8cef0d 100644
--- a/src/steady_ns_solver.cpp
+++ b/src/steady_ns_solver.cpp
@@ -263,7 +263,7 @@ SteadyNSEQPROM::SteadyNSEQPROM(
    u_offsets = 0;
    for (int k = 0; k < numSub; k++)
    {
-      u_offsets[k+1] = block_offsets[1 + k * num_var] - block_offsets[k * num_var];
+      u_offsets[k+1] = block_offsets[midxs[k] + 1] - block_offsets[midxs[k]];
    }
    u_offsets.PartialSum();
 
-- 
2.43.0


From 07a3a9d270b8fcf079fccab7c45db3f65c3cde5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:31 +0000
Subject: [PATCH 21/26] fix: visualize a part of the subdomains in unsteady and
 advection-diffusion runs

---
 src/advdiff_solver.cpp    | 5 ++---
 src/multiblock_solver.cpp | 2 ++
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/advdiff_solver.cpp b/src/advdiff_solver.cpp
index 9b16800..324616e 100644
--- a/src/advdiff_solver.cpp
+++ b/src/advdiff_solver.cpp
@@ -182,8 +182,6 @@ void AdvDiffSolver::SaveVisualization()
    if (!visual.save) return;
 
    assert(paraviewColls.Size() > 0);
-   for (int k = 0; k < paraviewColls.Size(); k++)
-      assert(paraviewColls[k]);
 
    flow_visual.SetSize(numSub);
    flow_visual = NULL;
@@ -221,8 +219,9 @@ void AdvDiffSolver::SaveVisualization()
       paraviewColls[0]->RegisterField("flow", global_flow_visual[0]);
    }
    else
+      // subdomains that are not visualized have no collection.
       for (int m = 0; m < numSub; m++)
-         paraviewColls[m]->RegisterField("flow", flow_visual[m]);
+         if (paraviewColls[m]) paraviewColls[m]->RegisterField("flow", flow_visual[m]);
 
    MultiBlockSolver::SaveVisualization();
 }
diff --git a/src/multiblock_solver.cpp b/src/multiblock_solver.cpp
index e129f64..5e6b598 100644
--- a/src/multiblock_solver.cpp
+++ b/src/multiblock_solver.cpp
@@ -485,6 +485,8 @@ void MultiBlockSolver::SaveVisualization(const int step, const double time)
 
    for (int m = 0; m < paraviewColls.Size(); m++)
    {
+      // subdomains that are not visualized have no collection.
+      if (!paraviewColls[m]) continue;
       paraviewColls[m]->SetCycle(step);
       paraviewColls[m]->SetTime(time);
    }
-- 
2.43.0


From a82fc7ded37a4eeda8421aac0459d3482d8f56ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:37 +0000
Subject: [PATCH 22/26] fix: visualize the reduced basis of separate variables

---
 src/rom_handler.cpp | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/rom_handler.cpp b/src/rom_handler.cpp
index 3edc51f..4d08677 100644
--- a/src/rom_handler.cpp
+++ b/src/rom_handler.cpp
@@ -966,35 +966,41 @@ void MFEMROMHandler::SaveBasisVisualization(
 
    std::string visual_prefix = config.GetRequiredOption<std::string>("basis/visualization/prefix");
 
+   // with separate variable basis, each reference block is one variable of a component.
+   const int num_block_var = (separate_variable) ? 1 : num_var;
+
    for (int c = 0; c < num_rom_ref_blocks; c++)
    {
+      const int comp = (separate_variable) ? c / num_var : c;
+      const int var0 = (separate_variable) ? c % num_var : 0;
+
       std::string file_prefix = visual_prefix;
       file_prefix += "_" + std::to_string(c);
 
       int midx = -1;
       for (int m = 0; m < numSub; m++)
-         if (topol_handler->GetMeshType(m) == c) { midx = m; break; }
+         if (topol_handler->GetMeshType(m) == comp) { midx = m; break; }
       assert(midx >= 0);
 
       Mesh *mesh = fes[midx * num_var]->GetMesh();
-      const int order = fes[midx * num_var]->FEColl()->GetOrder();
+      const int order = fes[midx * num_var + var0]->FEColl()->GetOrder();
       ParaViewDataCollection coll = ParaViewDataCollection(file_prefix.c_str(), mesh);
 
-      Array<int> var_offsets(num_ref_basis[c] * num_var + 1);
+      Array<int> var_offsets(num_ref_basis[c] * num_block_var + 1);
       var_offsets[0] = 0;
       for (int k = 0, vidx = 1; k < num_ref_basis[c]; k++)
-         for (int v = 0, idx = midx * num_var; v < num_var; v++, idx++, vidx++)
+         for (int v = 0, idx = midx * num_var + var0; v < num_block_var; v++, idx++, vidx++)
             var_offsets[vidx] = fes[idx]->GetVSize();
       var_offsets.PartialSum();
       BlockVector basis_view(ref_basis[c]->GetData(), var_offsets);
 
-      Array<GridFunction*> basis_gf(num_ref_basis[c] * num_var);
+      Array<GridFunction*> basis_gf(num_ref_basis[c] * num_block_var);
       basis_gf = NULL;
       for (int k = 0, idx = 0; k < num_ref_basis[c]; k++)
       {
-         for (int v = 0, fidx = midx * num_var; v < num_var; v++, idx++, fidx++)
+         for (int v = 0, fidx = midx * num_var + var0; v < num_block_var; v++, idx++, fidx++)
          {
-            std::string field_name = var_names[v] + "_basis_" + std::to_string(k);
+            std::string field_name = var_names[var0 + v] + "_basis_" + std::to_string(k);
             basis_gf[idx] = new GridFunction(fes[fidx], basis_view.GetBlock(idx), 0);
             coll.RegisterField(field_name.c_str(), basis_gf[idx]);   
          }
-- 
2.43.0


From 16f28917d9ef1780bb697af62d240195165144e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:32 +0000
Subject: [PATCH 23/26] fix: printed EQP sample points had an uninitialised
 third coordinate in two dimensions

---
 src/rom_nonlinearform.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/rom_nonlinearform.cpp b/src/rom_nonlinearform.cpp
index 9b7bf00..a04addb 100644
--- a/src/rom_nonlinearform.cpp
+++ b/src/rom_nonlinearform.cpp
@@ -1541,11 +1541,12 @@ void ROMNonlinearForm::SaveDomainEQPCoords(const int k, hid_t file_id, const std
       ElementTransformation *T = fes->GetElementTransformation(el);
       const IntegrationPoint &ip = ir->IntPoint(eqp_sample->info.qp);
 
-      double x[3];
+      // coordinates beyond the space dimension are zero.
+      double x[3] = {0.0, 0.0, 0.0};
       Vector transip(x, 3);
       T->Transform(ip, transip);
 
-      eqp_coords.SetRow(i, transip);
+      eqp_coords.SetRow(i, x);
    }  // for (int i = 0; i < eqp_elem->Size(); i++)
 
    assert(file_id >= 0);
-- 
2.43.0


From ebff039de0148aa7b4bcf4372a0a3a5f2c2e7549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:22 +0000
Subject: [PATCH 24/26] fix: unify the visualized flow of advection-diffusion
 in the flow's own space

---
 src/advdiff_solver.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/advdiff_solver.cpp b/src/advdiff_solver.cpp
index 324616e..4cde142 100644
--- a/src/advdiff_solver.cpp
+++ b/src/advdiff_solver.cpp
@@ -211,7 +211,8 @@ void AdvDiffSolver::SaveVisualization()
    if (visual.unified_view)
    {
       assert(pmesh);
-      global_flow_fes = new FiniteElementSpace(pmesh, fec[0], dim);
+      // the flow may be of higher order than the scalar.
+      global_flow_fes = new FiniteElementSpace(pmesh, flow_visual[0]->FESpace()->FEColl(), dim);
       global_flow_visual.SetSize(1);
       global_flow_visual[0] = new GridFunction(global_flow_fes);
       topol_handler->TransferToGlobal(flow_visual, global_flow_visual, 1);
-- 
2.43.0


From 5f77d95e8e30633b71e96b4abdff6deaaf80c497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:31 +0000
Subject: [PATCH 25/26] fix: the precomputed Lax-Friedrichs gradient used an
 unset number of neighbour unknowns

---
 src/interfaceinteg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interfaceinteg.cpp b/src/interfaceinteg.cpp
index e791a07..e75a4a8 100644
--- a/src/interfaceinteg.cpp
+++ b/src/interfaceinteg.cpp
@@ -1826,7 +1826,7 @@ void DGLaxFriedrichsFluxIntegrator::AddAssembleGrad_Fast(
       CalcOrtho(T.Jacobian(), nor);
    }
 
-   ComputeGradFluxDotN(u1, u2, nor, eval2, ndofs2, gradu1, gradu2);
+   ComputeGradFluxDotN(u1, u2, nor, eval2, el2, gradu1, gradu2);
 
    double w = qw;
    if (Q) 
-- 
2.43.0


From 48c4dc9c26b1c90fd5d9de5d13974cad8b088a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:50 +0000
Subject: [PATCH 26/26] fix: write port files aside and move them, so that
 racing processes never read a truncated one

---
 src/component_topology_handler.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/component_topology_handler.cpp b/src/component_topology_handler.cpp
index 3bd0bbf..523a07b 100644
--- a/src/component_topology_handler.cpp
+++ b/src/component_topology_handler.cpp
@@ -6,7 +6,9 @@
 #include "etc.hpp"
 #include "hdf5.h"
 #include "hdf5_utils.hpp"
+#include <cstdio>
 #include <fstream>
+#include <unistd.h>
 
 using namespace std;
 using namespace mfem;
@@ -529,9 +531,15 @@ void ComponentTopologyHandler::WritePortDataToFile(const PortData &port,
                                                const std::string &port_name,
                                                const std::string &filename)
 {
+   /*
+      Another process may read or write the same port file: it is written aside and then moved,
+      since creating it in place would truncate it under a reader, even if the creation then fails.
+   */
+   const std::string tmp_filename = filename + "." + std::to_string(getpid()) + ".tmp";
+
    hid_t file_id;
    herr_t errf = 0;
-   file_id = H5Fcreate(filename.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT);
+   file_id = H5Fcreate(tmp_filename.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT);
    assert(file_id >= 0);
 
    hdf5_utils::WriteAttribute(file_id, "number_of_ports", 1);
@@ -577,6 +585,9 @@ void ComponentTopologyHandler::WritePortDataToFile(const PortData &port,
 
    errf = H5Fclose(file_id);
    assert(errf >= 0);
+
+   if (std::rename(tmp_filename.c_str(), filename.c_str()) != 0)
+      mfem_error("ComponentTopologyHandler::WritePortDataToFile- cannot move the port file to its place!\n");
    return;
 }
 
-- 
2.43.0

