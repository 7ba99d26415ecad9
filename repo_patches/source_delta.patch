From 1fa40803c40f14952c07ea543c68b4e1bb8035d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:01 +0000
Subject: [PATCH 01/15] fix: number of cells of a mesh whose reference level is
 empty

A process that owns no cell (fewer rows than processes, or all of its cells
coarsened away to a neighbour) has an empty reference mesh; taking back() of
its empty interval list was undefined behaviour and crashed the run.
---
 include/samurai/mesh.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/samurai/mesh.hpp b/include/samurai/mesh.hpp
index 4f83875..35c31e6 100644
--- a/include/samurai/mesh.hpp
+++ b/include/samurai/mesh.hpp
@@ -330,6 +330,10 @@ namespace samurai
     template <class D, class Config>
     inline std::size_t Mesh_base<D, Config>::max_nb_cells(std::size_t level) const
     {
+        if (m_cells[mesh_id_t::reference][level].empty())
+        {
+            return 0;
+        }
         auto last_xinterval = m_cells[mesh_id_t::reference][level][0].back();
         return static_cast<std::size_t>(static_cast<index_t>(last_xinterval.start) + last_xinterval.index) + last_xinterval.size();
     }
-- 
2.43.0


From 95dcbe75569f81d9a225d975d20329dc3f6fb69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:01 +0000
Subject: [PATCH 02/15] fix: keep the remainder of the domain when the rank
 count does not divide it

nb_intervals / size was rounded down and the left-over intervals belonged to
no process, so part of the domain silently disappeared from the computation.
---
 include/samurai/mesh.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/samurai/mesh.hpp b/include/samurai/mesh.hpp
index 35c31e6..9f3c50e 100644
--- a/include/samurai/mesh.hpp
+++ b/include/samurai/mesh.hpp
@@ -722,7 +722,8 @@ namespace samurai
         lcl_type subdomain_cells(start_level, m_domain.origin_point(), m_domain.scaling_factor());
         auto subdomain_nb_intervals = m_domain.nb_intervals() / static_cast<std::size_t>(size);
         auto subdomain_start        = static_cast<std::size_t>(rank) * subdomain_nb_intervals;
-        auto subdomain_end          = (static_cast<std::size_t>(rank) + 1) * subdomain_nb_intervals;
+        // the last subdomain takes the intervals left over by the integer division
+        auto subdomain_end = (rank == size - 1) ? m_domain.nb_intervals() : (static_cast<std::size_t>(rank) + 1) * subdomain_nb_intervals;
 
         std::size_t k = 0;
         for_each_meshinterval(m_domain,
-- 
2.43.0


From 067b7a131f8a6dad75925dbda3c16f7d88cdade5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:01 +0000
Subject: [PATCH 03/15] fix: exchange the coarsest ghosts between processes
 before using them in the B.C.

On the two coarsest levels the boundary conditions were applied before the
values of the inner ghosts owned by the neighbouring processes were received,
so the outer ghosts next to a process interface were computed from stale
values and the adapted mesh depended on the number of processes.
---
 include/samurai/algorithm/update.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/samurai/algorithm/update.hpp b/include/samurai/algorithm/update.hpp
index a73d5eb..fe36293 100644
--- a/include/samurai/algorithm/update.hpp
+++ b/include/samurai/algorithm/update.hpp
@@ -117,13 +117,13 @@ namespace samurai
 
         if (min_level > 0 && min_level != max_level)
         {
+            update_ghost_subdomains(min_level - 1, field, other_fields...);
             update_bc(min_level - 1, field, other_fields...);
             update_ghost_periodic(min_level - 1, field, other_fields...);
-            update_ghost_subdomains(min_level - 1, field, other_fields...);
         }
+        update_ghost_subdomains(min_level, field, other_fields...);
         update_bc(min_level, field, other_fields...);
         update_ghost_periodic(min_level, field, other_fields...);
-        update_ghost_subdomains(min_level, field, other_fields...);
 
         for (std::size_t level = min_level + 1; level <= max_level; ++level)
         {
-- 
2.43.0


From 8565decbb799afb6e344cfeed1af23d2ceb0716e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:05 +0000
Subject: [PATCH 04/15] fix: fill the outer ghosts along the edges and in the
 corners of 3D domains

The rotation used to orient the extrapolation stencil only handles two
components, so the 3D corners wrote into edge ghosts instead, and the subset
built for the edges was always empty. Those ghosts are used by the prediction:
they kept stale values, which also depended on the number of processes.
---
 include/samurai/bc.hpp | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/include/samurai/bc.hpp b/include/samurai/bc.hpp
index 7e42efc..da9f33d 100644
--- a/include/samurai/bc.hpp
+++ b/include/samurai/bc.hpp
@@ -951,8 +951,13 @@ namespace samurai
 
         auto& mesh = field.mesh();
 
-        auto stencil_0 = bc.get_stencil(std::integral_constant<std::size_t, stencil_size>());
-        auto stencil   = convert_for_direction(stencil_0, direction);
+        // Line stencil along 'direction' (which can be diagonal)
+        auto stencil = bc.get_stencil(std::integral_constant<std::size_t, stencil_size>());
+        for (std::size_t i = 0; i < stencil_size; ++i)
+        {
+            auto step            = stencil(i, 0);
+            xt::view(stencil, i) = step * direction;
+        }
 
         // 1. Inner cells in the boundary region
         if (!only_fill_ghost_neighbours)
@@ -1024,10 +1029,19 @@ namespace samurai
                                 }
                                 else if constexpr (dim == 3)
                                 {
+                                    // For an edge (one zero in 'dir'), only the two non-zero directions select the cells.
+                                    const direction_t shift_x{-dir[0], 0, 0};
+                                    const direction_t shift_y{0, -dir[1], 0};
+                                    const direction_t shift_z{0, 0, -dir[2]};
+
+                                    const direction_t& shift_0 = (dir[0] != 0) ? shift_x : shift_y;
+                                    const direction_t& shift_1 = (dir[1] != 0) ? shift_y : shift_z;
+                                    const direction_t& shift_2 = (dir[2] != 0) ? shift_z : shift_x;
+
                                     auto subset = difference(domain,
-                                                             union_(translate(domain, one_interval * direction_t{-dir[0], 0, 0}),
-                                                                    translate(domain, one_interval * direction_t{0, -dir[1], 0}),
-                                                                    translate(domain, one_interval * direction_t{0, 0, -dir[2]})));
+                                                             union_(translate(domain, one_interval * shift_0),
+                                                                    translate(domain, one_interval * shift_1),
+                                                                    translate(domain, one_interval * shift_2)));
                                     __apply_extrapolation_bc_on_subset<stencil_size>(bc, level, field, dir, subset, only_fill_ghost_neighbours);
                                 }
                             }
-- 
2.43.0


From 5e2f0b387c8ee77d26a1ea9846a4a1f923a12a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:13 +0000
Subject: [PATCH 05/15] fix: receive every component of vector fields in the
 inter-process ghost exchange

---
 include/samurai/algorithm/update.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/samurai/algorithm/update.hpp b/include/samurai/algorithm/update.hpp
index fe36293..4cdcd45 100644
--- a/include/samurai/algorithm/update.hpp
+++ b/include/samurai/algorithm/update.hpp
@@ -211,10 +211,9 @@ namespace samurai
                 in_interface(
                     [&](const auto& i, const auto& index)
                     {
-                        std::copy(to_recv.begin() + count,
-                                  to_recv.begin() + count + static_cast<ptrdiff_t>(i.size()),
-                                  field(level, i, index).begin());
-                        count += static_cast<ptrdiff_t>(i.size());
+                        const auto nb_values = static_cast<ptrdiff_t>(i.size() * Field::size);
+                        std::copy(to_recv.begin() + count, to_recv.begin() + count + nb_values, field(level, i, index).begin());
+                        count += nb_values;
                     });
             }
         }
-- 
2.43.0


From d2538ac0870d524929c605b71a94f12e2a50876b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:38 +0000
Subject: [PATCH 06/15] fix: graduate the mesh across the periodic boundaries

---
 include/samurai/mr/adapt.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/samurai/mr/adapt.hpp b/include/samurai/mr/adapt.hpp
index 1d87de0..3fb1237 100644
--- a/include/samurai/mr/adapt.hpp
+++ b/include/samurai/mr/adapt.hpp
@@ -281,6 +281,7 @@ namespace samurai
             }
 
             update_tag_periodic(level, m_tag);
+            update_tag_periodic(level - 1, m_tag);
             update_tag_subdomains(level, m_tag);
         }
 
@@ -299,13 +300,13 @@ namespace samurai
             for (std::size_t is = 0; is < stencil.shape(0); ++is)
             {
                 auto s = xt::view(stencil, is);
-                auto subset = intersection(translate(mesh[mesh_id_t::cells][level], s), mesh[mesh_id_t::all_cells][level - 1], mesh.domain())
-                                  .on(level);
+                auto subset = intersection(translate(mesh[mesh_id_t::cells][level], s), mesh[mesh_id_t::all_cells][level - 1]).on(level);
 
                 subset.apply_op(make_graduation(m_tag));
             }
 
             update_tag_periodic(level, m_tag);
+            update_tag_periodic(level - 1, m_tag);
             update_tag_subdomains<false>(level, m_tag);
         }
         update_tag_subdomains<false>(min_level, m_tag);
-- 
2.43.0


From 01a59a78e03a795f5f5e7329e1c766df802d66d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:32 +0000
Subject: [PATCH 07/15] fix: copy the periodic ghosts after the B.C. so that
 corners of partially periodic domains are filled

---
 include/samurai/algorithm/update.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/samurai/algorithm/update.hpp b/include/samurai/algorithm/update.hpp
index 4cdcd45..131d0a0 100644
--- a/include/samurai/algorithm/update.hpp
+++ b/include/samurai/algorithm/update.hpp
@@ -134,9 +134,9 @@ namespace samurai
                             .on(level);
 
             expr.apply_op(variadic_prediction<pred_order, false>(field, other_fields...));
-            update_ghost_periodic(level, field, other_fields...);
             update_ghost_subdomains(level, field, other_fields...);
             update_bc(level, field, other_fields...);
+            update_ghost_periodic(level, field, other_fields...);
         }
 
         times::timers.stop("ghost update");
-- 
2.43.0


From 94b18855b948cc7bdb4492675ebbbe4691de8bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:42 +0000
Subject: [PATCH 08/15] fix: report failures to flush the HDF5 file or to write
 the XDMF file of a save

The XDMF file was written by the destructor of Hdf5, which ignored the result, and the
HDF5 file was only flushed by its destructor: on a full disk save() returned normally
with a truncated or missing file. Both are now done at the end of save(), on every
process together, and a failure throws.
---
 include/samurai/hdf5.hpp | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/include/samurai/hdf5.hpp b/include/samurai/hdf5.hpp
index 3db9b9c..5ed3022 100644
--- a/include/samurai/hdf5.hpp
+++ b/include/samurai/hdf5.hpp
@@ -7,6 +7,7 @@
 #include <array>
 #include <fstream>
 #include <functional>
+#include <stdexcept>
 #include <string>
 #include <type_traits>
 
@@ -200,7 +201,7 @@ namespace samurai
 
         Hdf5(const fs::path& path, const std::string& filename);
 
-        ~Hdf5();
+        ~Hdf5() = default;
 
         Hdf5(const Hdf5&)            = delete;
         Hdf5& operator=(const Hdf5&) = delete;
@@ -216,6 +217,8 @@ namespace samurai
 
         pugi::xml_node& domain();
 
+        void finalize();
+
         template <class Submesh>
         void save_on_mesh(pugi::xml_node& grid_parent, const std::string& prefix, const Submesh& submesh, const std::string& mesh_name);
 
@@ -441,6 +444,7 @@ namespace samurai
                 this->save_on_mesh(this->domain(), prefix, mesh, "mesh");
             }
         }
+        this->finalize();
     }
 
     template <class D, class Mesh, class... T>
@@ -494,6 +498,7 @@ namespace samurai
             std::string prefix = fmt::format("/mesh");
             this->save_on_mesh(this->domain(), prefix, mesh, "mesh");
         }
+        this->finalize();
     }
 
     template <class D>
@@ -518,15 +523,26 @@ namespace samurai
     }
 
     template <class D>
-    inline Hdf5<D>::~Hdf5()
+    inline void Hdf5<D>::finalize()
     {
+        h5_file.flush();
+
+        const auto xdmf_file = fmt::format("{}.xdmf", (m_path / m_filename).string());
+        bool saved           = true;
 #ifdef SAMURAI_WITH_MPI
         mpi::communicator world;
 
         if (world.rank() == 0)
+        {
+            saved = m_doc.save_file(xdmf_file.data());
+        }
+        mpi::broadcast(world, saved, 0);
+#else
+        saved = m_doc.save_file(xdmf_file.data());
 #endif
+        if (!saved)
         {
-            m_doc.save_file(fmt::format("{}.xdmf", (m_path / m_filename).string()).data());
+            throw std::runtime_error(fmt::format("samurai: unable to write the file {}", xdmf_file));
         }
     }
 
-- 
2.43.0


From bd501e4fab3f6ccdb5021c37ae3e5a7895723ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:47 +0000
Subject: [PATCH 09/15] fix: average and standard deviation of the timers over
 the processes

The average added the time of the printing process once per process, and the standard
deviation kept the last term only.
---
 include/samurai/timers.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/samurai/timers.hpp b/include/samurai/timers.hpp
index 9259046..38bdb06 100644
--- a/include/samurai/timers.hpp
+++ b/include/samurai/timers.hpp
@@ -107,7 +107,7 @@ namespace samurai
             for (const auto& timer : _times)
             {
                 int minrank = -1, maxrank = -1;
-                double min = std::numeric_limits<double>::max(), max = std::numeric_limits<double>::min();
+                double min = std::numeric_limits<double>::max(), max = std::numeric_limits<double>::lowest();
                 double ave = 0., std = 0.;
 
                 std::vector<double> all(static_cast<std::size_t>(world.size()), 0.0);
@@ -127,14 +127,14 @@ namespace samurai
                         maxrank = static_cast<int>(iproc);
                     }
 
-                    ave += timer.second.elapsed;
+                    ave += all[iproc];
                 }
 
                 ave /= static_cast<double>(world.size());
 
                 for (size_t iproc = 0; iproc < all.size(); ++iproc)
                 {
-                    std = (all[iproc] - ave) * (all[iproc] - ave);
+                    std += (all[iproc] - ave) * (all[iproc] - ave);
                 }
                 std /= static_cast<double>(world.size());
                 std = std::sqrt(std);
-- 
2.43.0


From d2485b862e79fd38f1a3f84a6882b18054404cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:47 +0000
Subject: [PATCH 10/15] fix: timers use the steady clock

high_resolution_clock is the wall clock with libstdc++: setting the clock while a timer
runs gave negative or huge times.
---
 include/samurai/timers.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/samurai/timers.hpp b/include/samurai/timers.hpp
index 38bdb06..7ba6e35 100644
--- a/include/samurai/timers.hpp
+++ b/include/samurai/timers.hpp
@@ -24,7 +24,7 @@ namespace samurai
 #ifdef SAMURAI_WITH_MPI
         double start, elapsed;
 #else
-        std::chrono::time_point<std::chrono::high_resolution_clock> start;
+        std::chrono::time_point<std::chrono::steady_clock> start;
         std::chrono::microseconds elapsed;
 #endif
         uint32_t ntimes;
@@ -269,14 +269,14 @@ namespace samurai
             return 0.0;
         }
 #else
-        inline std::chrono::time_point<std::chrono::high_resolution_clock> _getTime() const
+        inline std::chrono::time_point<std::chrono::steady_clock> _getTime() const
         {
             // timeval now;
             // SAMURAI_ASSERT(-1 != gettimeofday(&now, 0), "[Timers::_getTime()] Error getting timeofday !");
             // return double(now.tv_sec) + (double(now.tv_usec) * 1e-6);
             // double durationInmicroseconds = chrono::duration_cast<chrono::duration<double, std::milli>>(_elapsed_stop -
             // _elapsed_start).count();
-            return std::chrono::high_resolution_clock::now();
+            return std::chrono::steady_clock::now();
         }
 
         inline std::chrono::microseconds _zero_duration() const
-- 
2.43.0


From c0488fc90c07ea7b00b6db9547bffd3b329435f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:47 +0000
Subject: [PATCH 11/15] fix: print the total of the timers in seconds

Without a 'total runtime' timer the total was printed in microseconds under the heading
'Elapsed (s)'.
---
 include/samurai/timers.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/samurai/timers.hpp b/include/samurai/timers.hpp
index 7ba6e35..f1afcce 100644
--- a/include/samurai/timers.hpp
+++ b/include/samurai/timers.hpp
@@ -245,8 +245,9 @@ namespace samurai
             {
                 // std::cout << "\t";
                 std::cout << std::setw(setwSizeName) << "Total";
-                std::cout << std::setw(setwSizeData) << total_measured.count();
-                std::cout << std::setw(setwSizeData) << total_perc;
+                auto totalInSeconds = std::chrono::duration_cast<std::chrono::duration<double, std::ratio<1>>>(total_measured);
+                std::cout << std::setw(setwSizeData) << std::setprecision(3) << totalInSeconds.count();
+                std::cout << std::setw(setwSizeData) << std::setprecision(1) << total_perc;
                 std::cout << std::endl;
             }
 
-- 
2.43.0


From f6001fe9d6ac88642c6bb60f77005815f3534587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:08 +0000
Subject: [PATCH 12/15] fix: for_each_cell over a subset looks up the index of
 the row it visits

The index of the first cell of an interval was looked up before the y and z coordinates
of the interval were set: it used those of the previous interval, or uninitialised ones.
---
 include/samurai/algorithm.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/samurai/algorithm.hpp b/include/samurai/algorithm.hpp
index 2998e42..9282759 100644
--- a/include/samurai/algorithm.hpp
+++ b/include/samurai/algorithm.hpp
@@ -276,8 +276,8 @@ namespace samurai
             [&](const auto& interval, const auto& index_yz)
             {
                 index[0]                         = interval.start;
-                auto cell_index                  = lca.get_index(index);
                 xt::view(index, xt::range(1, _)) = index_yz;
+                auto cell_index                  = lca.get_index(index);
                 for (index_value_t i = interval.start; i < interval.end; ++i)
                 {
                     index[0] = i;
-- 
2.43.0


From 70f1843e6c6a13f634dd2832c3502312fe14dc49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:31:50 +0000
Subject: [PATCH 13/15] fix: the destructor of a scheme does not allocate

---
 include/samurai/schemes/fv/FV_scheme.hpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/include/samurai/schemes/fv/FV_scheme.hpp b/include/samurai/schemes/fv/FV_scheme.hpp
index fb944d5..0530723 100644
--- a/include/samurai/schemes/fv/FV_scheme.hpp
+++ b/include/samurai/schemes/fv/FV_scheme.hpp
@@ -144,10 +144,7 @@ namespace samurai
             m_name = name;
         }
 
-        virtual ~FVScheme()
-        {
-            m_name += " (deleted)";
-        }
+        virtual ~FVScheme() = default;
 
         DerivedScheme& derived_cast() & noexcept
         {
-- 
2.43.0


From 7635289dd435e54329bf0e19be1a938ae9ff3555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:24:22 +0000
Subject: [PATCH 14/15] fix: a mesh sent to another process keeps its maximum
 level and periodicity

Mesh_base::serialize wrote the minimum level twice and never the maximum level nor the periodicity: the copies of the neighbours'
meshes held uninitialised values.
---
 include/samurai/mesh.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/samurai/mesh.hpp b/include/samurai/mesh.hpp
index 9f3c50e..69233ca 100644
--- a/include/samurai/mesh.hpp
+++ b/include/samurai/mesh.hpp
@@ -194,7 +194,11 @@ namespace samurai
             ar& m_subdomain;
             ar& m_union;
             ar& m_min_level;
-            ar& m_min_level;
+            ar& m_max_level;
+            for (std::size_t d = 0; d < dim; ++d)
+            {
+                ar& m_periodic[d];
+            }
         }
 #endif
     };
-- 
2.43.0


From 2c12468422ff155570e3b1a3d805d99536d91fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:33 +0000
Subject: [PATCH 15/15] fix: a mesh sent to another process keeps its origin
 and scaling

---
 include/samurai/level_cell_array.hpp |  5 +++++
 include/samurai/mesh.hpp             | 12 ++++--------
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/include/samurai/level_cell_array.hpp b/include/samurai/level_cell_array.hpp
index efdb732..fe9f6a1 100644
--- a/include/samurai/level_cell_array.hpp
+++ b/include/samurai/level_cell_array.hpp
@@ -191,6 +191,11 @@ namespace samurai
                 ar& m_offsets[d];
             }
             ar& m_level;
+            for (std::size_t d = 0; d < dim; ++d)
+            {
+                ar& m_origin_point[d];
+            }
+            ar& m_scaling_factor;
         }
 #endif
 
diff --git a/include/samurai/mesh.hpp b/include/samurai/mesh.hpp
index 69233ca..ad8f9b9 100644
--- a/include/samurai/mesh.hpp
+++ b/include/samurai/mesh.hpp
@@ -245,10 +245,9 @@ namespace samurai
         construct_union();
         update_sub_mesh();
         renumbering();
-        update_mesh_neighbour();
-
         set_origin_point(origin_point());
         set_scaling_factor(scaling_factor());
+        update_mesh_neighbour();
     }
 
     template <class D, class Config>
@@ -277,10 +276,9 @@ namespace samurai
         construct_union();
         update_sub_mesh();
         renumbering();
-        update_mesh_neighbour();
-
         set_origin_point(origin_point());
         set_scaling_factor(scaling_factor());
+        update_mesh_neighbour();
     }
 
     template <class D, class Config>
@@ -298,10 +296,9 @@ namespace samurai
         construct_union();
         update_sub_mesh();
         renumbering();
-        update_mesh_neighbour();
-
         set_origin_point(cl.origin_point());
         set_scaling_factor(cl.scaling_factor());
+        update_mesh_neighbour();
     }
 
     template <class D, class Config>
@@ -319,10 +316,9 @@ namespace samurai
         construct_union();
         update_sub_mesh();
         renumbering();
-        update_mesh_neighbour();
-
         set_origin_point(ref_mesh.origin_point());
         set_scaling_factor(ref_mesh.scaling_factor());
+        update_mesh_neighbour();
     }
 
     template <class D, class Config>
-- 
2.43.0

