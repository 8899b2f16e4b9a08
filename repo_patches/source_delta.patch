From a3171e43d4dcef6876110b15bd5e54b870ee3292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:02 +0000
Subject: [PATCH 01/19] fix: clearing model modifiers must invalidate the
 cached system and Hamiltonian

---
 cppcore/include/Model.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cppcore/include/Model.hpp b/cppcore/include/Model.hpp
index a59337d..1534ccb 100644
--- a/cppcore/include/Model.hpp
+++ b/cppcore/include/Model.hpp
@@ -78,8 +78,8 @@ public: // get information
     double hamiltonian_build_seconds() const { return hamiltonian_build_time.elapsed_seconds(); }
 
 public:
-    void clear_structure_modifiers() { structure_modifiers.clear(); }
-    void clear_hamiltonian_modifiers() { hamiltonian_modifiers.clear(); }
+    void clear_structure_modifiers() { structure_modifiers.clear(); clear_structure(); }
+    void clear_hamiltonian_modifiers() { hamiltonian_modifiers.clear(); clear_hamiltonian(); }
     void clear_all_modifiers() { clear_structure_modifiers(); clear_hamiltonian_modifiers(); }
 
 private:
-- 
2.43.0


From f3b4b0b2a0109212367330b8805d1a423e73ec3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:18 +0000
Subject: [PATCH 02/19] fix: a rejected Model::add() must leave the model
 unchanged

---
 cppcore/src/Model.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cppcore/src/Model.cpp b/cppcore/src/Model.cpp
index 28f5016..1a8396a 100644
--- a/cppcore/src/Model.cpp
+++ b/cppcore/src/Model.cpp
@@ -11,12 +11,12 @@ Model::Model(Lattice const& lattice)
       hopping_registry(lattice.hopping_registry()) {}
 
 void Model::add(Primitive new_primitive) {
-    primitive = new_primitive;
     for (auto i = lattice.ndim(); i < 3; ++i) {
-        if (primitive.size[i] != 1) {
+        if (new_primitive.size[i] != 1) {
             throw std::logic_error("Primitive shape has more dimensions than the lattice");
         }
     }
+    primitive = new_primitive;
     clear_structure();
 }
 
@@ -28,8 +28,8 @@ void Model::set_wave_vector(Cartesian const& new_wave_vector) {
 }
 
 void Model::add(Shape const& new_shape) {
+    lattice.set_offset(lattice.get_offset() + new_shape.lattice_offset); // may throw
     shape = new_shape;
-    lattice.set_offset(lattice.get_offset() + shape.lattice_offset);
     clear_structure();
 }
 
@@ -73,14 +73,14 @@ void Model::add(HoppingModifier const& m) {
 }
 
 void Model::add(SiteGenerator const& g) {
+    site_registry.register_family(g.name, g.energy); // may throw
     structure_modifiers.emplace_back(g);
-    site_registry.register_family(g.name, g.energy);
     clear_structure();
 }
 
 void Model::add(HoppingGenerator const& g) {
+    hopping_registry.register_family(g.name, g.energy); // may throw
     structure_modifiers.emplace_back(g);
-    hopping_registry.register_family(g.name, g.energy);
     clear_structure();
 }
 
-- 
2.43.0


From b637eff6f7eb892bc2fb8f9ea54aa6a461f5111d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:18 +0000
Subject: [PATCH 03/19] fix: a rejected anonymous hopping must not leave its
 energy registered in the lattice

---
 cppcore/include/Lattice.hpp |  5 +++++
 cppcore/src/Lattice.cpp     | 44 +++++++++++++++++++++----------------
 2 files changed, 30 insertions(+), 19 deletions(-)

diff --git a/cppcore/include/Lattice.hpp b/cppcore/include/Lattice.hpp
index 8cf72cd..3b93ac0 100644
--- a/cppcore/include/Lattice.hpp
+++ b/cppcore/include/Lattice.hpp
@@ -142,6 +142,11 @@ private:
 
     SubID make_unique_sublattice_id(string_view name);
 
+    /// Check if the given hopping is valid and make the corresponding term (not added to `hoppings`)
+    HoppingTerm make_hopping_term(Index3D relative_index, string_view from_sub, string_view to_sub,
+                                  string_view hopping_family_name,
+                                  MatrixXcd const& hop_matrix) const;
+
 private:
     Vectors vectors; ///< primitive vectors that define the lattice
     Sublattices sublattices; ///< i.e the sites that belong to the primitive cell
diff --git a/cppcore/src/Lattice.cpp b/cppcore/src/Lattice.cpp
index 1fdc1d2..ca74d08 100644
--- a/cppcore/src/Lattice.cpp
+++ b/cppcore/src/Lattice.cpp
@@ -66,8 +66,9 @@ void Lattice::register_hopping_energy(std::string const& name, MatrixXcd const&
     if (!is_unique_name) { throw std::logic_error("Hopping '" + name + "' already exists"); }
 }
 
-void Lattice::add_hopping(Index3D relative_index, string_view from_sub, string_view to_sub,
-                          string_view hopping_family_name) {
+Lattice::HoppingTerm
+Lattice::make_hopping_term(Index3D relative_index, string_view from_sub, string_view to_sub,
+                           string_view hopping_family_name, MatrixXcd const& hop_matrix) const {
     if (from_sub == to_sub && relative_index == Index3D::Zero()) {
         throw std::logic_error(
             "Hoppings from/to the same sublattice must have a non-zero relative "
@@ -77,7 +78,6 @@ void Lattice::add_hopping(Index3D relative_index, string_view from_sub, string_v
 
     auto const& from = sublattice(from_sub);
     auto const& to = sublattice(to_sub);
-    auto const& hop_matrix = hopping_family(hopping_family_name).energy;
 
     if (from.energy.rows() != hop_matrix.rows() || to.energy.cols() != hop_matrix.cols()) {
         throw std::logic_error(
@@ -95,7 +95,14 @@ void Lattice::add_hopping(Index3D relative_index, string_view from_sub, string_v
         }
     });
 
-    hoppings[hopping_family_name].terms.push_back(candidate);
+    return candidate;
+}
+
+void Lattice::add_hopping(Index3D relative_index, string_view from_sub, string_view to_sub,
+                          string_view hopping_family_name) {
+    auto const term = make_hopping_term(relative_index, from_sub, to_sub, hopping_family_name,
+                                        hopping_family(hopping_family_name).energy);
+    hoppings[hopping_family_name].terms.push_back(term);
 }
 
 void Lattice::add_hopping(Index3D relative_index, string_view from_sub, string_view to_sub,
@@ -105,23 +112,22 @@ void Lattice::add_hopping(Index3D relative_index, string_view from_sub, string_v
 
 void Lattice::add_hopping(Index3D relative_index, string_view from_sub, string_view to_sub,
                           MatrixXcd const& energy) {
-    auto const hopping_name = [&] {
-        // Look for an existing hopping ID with the same energy
-        auto const it = std::find_if(hoppings.begin(), hoppings.end(), [&](Hoppings::reference r) {
-            auto const& e = r.second.energy;
-            return e.rows() == energy.rows() && e.cols() == energy.cols() && e == energy;
-        });
+    // Look for an existing hopping ID with the same energy
+    auto const it = std::find_if(hoppings.begin(), hoppings.end(), [&](Hoppings::reference r) {
+        auto const& e = r.second.energy;
+        return e.rows() == energy.rows() && e.cols() == energy.cols() && e == energy;
+    });
 
-        if (it != hoppings.end()) {
-            return it->first;
-        } else {
-            auto const name = "__anonymous__{}"_format(hoppings.size());
-            register_hopping_energy(name, energy);
-            return name;
-        }
-    }();
+    if (it != hoppings.end()) {
+        add_hopping(relative_index, from_sub, to_sub, it->first);
+        return;
+    }
 
-    add_hopping(relative_index, from_sub, to_sub, hopping_name);
+    auto const name = "__anonymous__{}"_format(hoppings.size());
+    // Check everything before the new energy is registered
+    auto const term = make_hopping_term(relative_index, from_sub, to_sub, name, energy);
+    register_hopping_energy(name, energy);
+    hoppings[name].terms.push_back(term);
 }
 
 void Lattice::set_offset(Cartesian position) {
-- 
2.43.0


From deb1c499b0b1708edd231d87a4043817d714573e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:18 +0000
Subject: [PATCH 04/19] fix: a failed set_model() must leave the solver and KPM
 unchanged

---
 cppcore/src/KPM.cpp           | 2 +-
 cppcore/src/solver/Solver.cpp | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/cppcore/src/KPM.cpp b/cppcore/src/KPM.cpp
index fb4f730..9f32972 100644
--- a/cppcore/src/KPM.cpp
+++ b/cppcore/src/KPM.cpp
@@ -8,8 +8,8 @@ KPM::KPM(Model const& model, kpm::Compute const& compute, kpm::Config const& con
     : model(model.eval()), core(kpm::Core(model.hamiltonian(), compute, config)) {}
 
 void KPM::set_model(Model const& new_model) {
+    core.set_hamiltonian(new_model.hamiltonian()); // may throw
     model = new_model;
-    core.set_hamiltonian(model.hamiltonian());
 }
 
 std::string KPM::report(bool shortform) const {
diff --git a/cppcore/src/solver/Solver.cpp b/cppcore/src/solver/Solver.cpp
index beda24f..885bf89 100644
--- a/cppcore/src/solver/Solver.cpp
+++ b/cppcore/src/solver/Solver.cpp
@@ -49,6 +49,7 @@ BaseSolver::BaseSolver(Model const& model, MakeStrategy const& make_strategy)
       strategy(make_strategy(model.hamiltonian())) {}
 
 void BaseSolver::set_model(Model const& new_model) {
+    new_model.hamiltonian(); // may throw, so evaluate before anything is changed
     is_solved = false;
     model = new_model;
 
-- 
2.43.0


From d1f607e8ffcaa0fe1568c5b7a962fadefe49a577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:53 +0000
Subject: [PATCH 05/19] fix: a lead which fails to build must not be taken for
 a finished one on the next evaluation

---
 cppcore/src/leads/Leads.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/cppcore/src/leads/Leads.cpp b/cppcore/src/leads/Leads.cpp
index 6628452..eb3a532 100644
--- a/cppcore/src/leads/Leads.cpp
+++ b/cppcore/src/leads/Leads.cpp
@@ -13,9 +13,11 @@ void Leads::make_structure(Foundation const& foundation) {
         return;
     }
 
+    auto new_structures = std::vector<leads::Structure>();
     for (auto const& spec : specs) {
-        structures.emplace_back(foundation, spec);
+        new_structures.emplace_back(foundation, spec); // may throw
     }
+    structures = std::move(new_structures);
 }
 
 void Leads::make_hamiltonian(Lattice const& lattice, HamiltonianModifiers const& modifiers,
@@ -24,9 +26,12 @@ void Leads::make_hamiltonian(Lattice const& lattice, HamiltonianModifiers const&
         return;
     }
 
+    auto new_hamiltonians = std::vector<leads::HamiltonianPair>();
     for (auto const& structure : structures) {
-        hamiltonians.emplace_back(structure.system, lattice, modifiers, is_double, is_complex);
+        new_hamiltonians.emplace_back(structure.system, lattice, modifiers,
+                                      is_double, is_complex); // may throw
     }
+    hamiltonians = std::move(new_hamiltonians);
 }
 
 void Leads::clear_structure() {
-- 
2.43.0


From 7857e073c269fb6d15638ae67c8558497e55f81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:14 +0000
Subject: [PATCH 06/19] fix: removing sites after a generator must renumber the
 hoppings

---
 cppcore/src/system/HoppingBlocks.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/cppcore/src/system/HoppingBlocks.cpp b/cppcore/src/system/HoppingBlocks.cpp
index c2041a7..3ff4f0d 100644
--- a/cppcore/src/system/HoppingBlocks.cpp
+++ b/cppcore/src/system/HoppingBlocks.cpp
@@ -81,10 +81,24 @@ void HoppingBlocks::filter(VectorX<bool> const& keep) {
     using std::begin; using std::end;
 
     num_sites = std::accumulate(begin(keep), end(keep), idx_t{0});
+
+    // The new index of a site is the number of sites kept before it
+    auto new_index = std::vector<storage_idx_t>();
+    new_index.reserve(static_cast<size_t>(keep.size()));
+    auto num_kept = storage_idx_t{0};
+    for (auto i = idx_t{0}; i < keep.size(); ++i) {
+        new_index.push_back(num_kept);
+        if (keep[i]) { ++num_kept; }
+    }
+
     for (auto& block : blocks) {
         block.erase(std::remove_if(block.begin(), block.end(), [&](COO coo) {
             return !keep[coo.row] || !keep[coo.col];
         }), block.end());
+
+        for (auto& coo : block) {
+            coo = {new_index[coo.row], new_index[coo.col]};
+        }
     }
 }
 
-- 
2.43.0


From ce02676f0c9c655d5d624c1acdea8fb9586e9aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:00 +0000
Subject: [PATCH 07/19] fix: complete an upper triangular onsite energy given
 to a site generator

---
 cppcore/src/system/Registry.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cppcore/src/system/Registry.cpp b/cppcore/src/system/Registry.cpp
index cfe8eb6..7859e9f 100644
--- a/cppcore/src/system/Registry.cpp
+++ b/cppcore/src/system/Registry.cpp
@@ -15,6 +15,13 @@ void check_energy(HoppingRegistry const&, MatrixXcd const& energy) {
     detail::check_hopping_energy(energy);
 }
 
+/// The complete matrix: the onsite energy may be given as just its upper triangular part
+MatrixXcd complete_energy(SiteRegistry const&, MatrixXcd const& energy) {
+    return energy.selfadjointView<Eigen::Upper>();
+}
+
+MatrixXcd complete_energy(HoppingRegistry const&, MatrixXcd const& energy) { return energy; }
+
 template<class ID>
 constexpr char const* kind() { return std::is_same<ID, SiteID>() ? "Site" : "Hopping"; }
 
@@ -39,7 +46,7 @@ void Registry<ID>::register_family(std::string const& name, MatrixXcd const& ene
     }
 
     names.push_back(name);
-    energies.push_back(energy);
+    energies.push_back(complete_energy(*this, energy));
 }
 
 template<class ID>
-- 
2.43.0


From f0348b9b46d1505079c4f2172766a4353e80da74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:15 +0000
Subject: [PATCH 08/19] fix: reject generated hoppings which refer to sites
 that do not exist

---
 cppcore/src/system/HoppingBlocks.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cppcore/src/system/HoppingBlocks.cpp b/cppcore/src/system/HoppingBlocks.cpp
index 3ff4f0d..16f5893 100644
--- a/cppcore/src/system/HoppingBlocks.cpp
+++ b/cppcore/src/system/HoppingBlocks.cpp
@@ -62,6 +62,14 @@ void HoppingBlocks::append(HopID family_id, ArrayXi&& rows, ArrayXi&& cols) {
                                  "`from` and `to` indices must be equal");
     }
 
+    auto const is_invalid = [&](ArrayXi const& idx) {
+        return idx.size() > 0 && (idx.minCoeff() < 0 || idx.maxCoeff() >= num_sites);
+    };
+    if (is_invalid(rows) || is_invalid(cols)) {
+        throw std::out_of_range("When generating hoppings, the `from` and `to` indices "
+                                "must refer to existing sites");
+    }
+
     auto& block = blocks[family_id.as<size_t>()];
     block.reserve(block.size() + rows.size());
 
-- 
2.43.0


From 0423582c257efcd99777a2ba19cc5dcc7156e544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:59 +0000
Subject: [PATCH 09/19] fix: hopping matrix positions must not rely on
 generated sublattices being sorted by orbital count

---
 .../include/hamiltonian/HamiltonianModifiers.hpp | 16 ++++++----------
 cppcore/include/system/CompressedSublattices.hpp |  3 +++
 cppcore/src/system/CompressedSublattices.cpp     | 13 +++++++++++++
 3 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/cppcore/include/hamiltonian/HamiltonianModifiers.hpp b/cppcore/include/hamiltonian/HamiltonianModifiers.hpp
index f206740..e1aa06e 100644
--- a/cppcore/include/hamiltonian/HamiltonianModifiers.hpp
+++ b/cppcore/include/hamiltonian/HamiltonianModifiers.hpp
@@ -163,10 +163,7 @@ public:
     /// A translator is specific to a system and hopping family -- the matrix dimensions
     IndexTranslator(System const& system, MatrixXcd const& hopping_matrix)
         : term_size(hopping_matrix.rows(), hopping_matrix.cols()),
-          sys_start(system.compressed_sublattices.start_index(term_size.row),
-                    system.compressed_sublattices.start_index(term_size.col)),
-          ham_start(system.to_hamiltonian_indices(sys_start.row)[0],
-                    system.to_hamiltonian_indices(sys_start.col)[0]) {}
+          sublattices(system.compressed_sublattices) {}
 
     /// Loop over all Hamiltonian indices matching the System indices given in `coordinates`:
     ///     lambda(idx_t row, idx_t col, scalar_t value)
@@ -174,11 +171,11 @@ public:
     template<class C, class F, class V, class scalar_t = typename V::Scalar> CPB_ALWAYS_INLINE
     void for_each(C const& coordinates, V const& hopping_buffer, F lambda) const {
         auto const* data = hopping_buffer.data();
-        for (auto i = ham_start.row; i < ham_start.row + term_size.row; ++i) {
-            for (auto j = ham_start.col; j < ham_start.col + term_size.col; ++j) {
+        for (auto i = storage_idx_t{0}; i < term_size.row; ++i) {
+            for (auto j = storage_idx_t{0}; j < term_size.col; ++j) {
                 for (auto const& coo : coordinates) {
-                    auto const ham_row = i + (coo.row - sys_start.row) * term_size.row;
-                    auto const ham_col = j + (coo.col - sys_start.col) * term_size.col;
+                    auto const ham_row = i + sublattices.ham_index(coo.row, term_size.row);
+                    auto const ham_col = j + sublattices.ham_index(coo.col, term_size.col);
 
                     auto const value = *data++;
                     if (value != scalar_t{0}) {
@@ -191,8 +188,7 @@ public:
 
 private:
     COO term_size; ///< size the hopping matrix (single hopping term)
-    COO sys_start; ///< start index in System coordinates
-    COO ham_start; ///< start index in Hamiltonian coordinates
+    CompressedSublattices const& sublattices; ///< maps System to Hamiltonian indices
 };
 
 /**
diff --git a/cppcore/include/system/CompressedSublattices.hpp b/cppcore/include/system/CompressedSublattices.hpp
index 7be4652..71b6b81 100644
--- a/cppcore/include/system/CompressedSublattices.hpp
+++ b/cppcore/include/system/CompressedSublattices.hpp
@@ -81,6 +81,9 @@ public:
     /// Return the index of the first site with the given number of orbitals
     idx_t start_index(idx_t num_orbitals) const;
 
+    /// Return the first Hamiltonian index of the given site which must have `num_orbitals`
+    idx_t ham_index(idx_t sys_index, idx_t num_orbitals) const;
+
     /// Total size if decompressed (sum of the number of sites in all sublattices)
     idx_t decompressed_size() const;
     /// Return the full uncompressed array of IDs
diff --git a/cppcore/src/system/CompressedSublattices.cpp b/cppcore/src/system/CompressedSublattices.cpp
index 00e3804..b1b7953 100644
--- a/cppcore/src/system/CompressedSublattices.cpp
+++ b/cppcore/src/system/CompressedSublattices.cpp
@@ -67,6 +67,19 @@ idx_t CompressedSublattices::start_index(idx_t num_orbitals) const {
     throw std::runtime_error("CompressedSublattices::start_index(): invalid num_orbitals");
 }
 
+idx_t CompressedSublattices::ham_index(idx_t sys_index, idx_t num_orbitals) const {
+    for (auto const& sub : *this) {
+        if (sub.sys_start() <= sys_index && sys_index < sub.sys_end()) {
+            if (sub.num_orbitals() != num_orbitals) {
+                throw std::runtime_error("The size of the hopping matrix does not match "
+                                         "the number of orbitals of the connected sites");
+            }
+            return sub.ham_start() + (sys_index - sub.sys_start()) * num_orbitals;
+        }
+    }
+    throw std::runtime_error("CompressedSublattices::ham_index(): invalid site index");
+}
+
 idx_t CompressedSublattices::decompressed_size() const {
     return std::accumulate(data.begin(), data.end(), idx_t{0}, [](idx_t n, Element const& v) {
         return n + v.num_sites;
-- 
2.43.0


From c81b82ddfcdce05ea18a574e42e346ff9487819e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:02 +0000
Subject: [PATCH 10/19] fix: a sublattice added after an alias must not make
 the site registry overflow

---
 cppcore/src/Lattice.cpp | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/cppcore/src/Lattice.cpp b/cppcore/src/Lattice.cpp
index ca74d08..70f700d 100644
--- a/cppcore/src/Lattice.cpp
+++ b/cppcore/src/Lattice.cpp
@@ -251,21 +251,25 @@ OptimizedUnitCell Lattice::optimized_unit_cell() const {
 }
 
 SiteRegistry Lattice::site_registry() const {
-    auto const num_unique_subs = std::count_if(
-        sublattices.begin(), sublattices.end(),
-        [](Sublattices::const_reference r) {
-            return SubID(r.second.alias_id) == r.second.unique_id;
-        }
-    );
-
-    auto energies = std::vector<MatrixXcd>(num_unique_subs);
-    auto names = std::vector<std::string>(num_unique_subs);
+    // The registry is indexed by the `unique_id` of the non-alias sublattices. Aliases
+    // also take up an ID, so the largest one counts and not the number of sublattices.
+    auto size = size_t{0};
     for (auto const& pair : sublattices) {
         auto const& sub = pair.second;
         if (SubID(sub.alias_id) != sub.unique_id) { continue; }
 
-        energies.at(sub.unique_id.value()) = sub.energy;
-        names.at(sub.unique_id.value()) = pair.first;
+        size = std::max(size, sub.unique_id.as<size_t>() + 1);
+    }
+
+    auto energies = std::vector<MatrixXcd>(size);
+    auto names = std::vector<std::string>(size);
+    for (auto const& pair : sublattices) {
+        auto const& sub = pair.second;
+        auto const idx = sub.unique_id.as<size_t>();
+        if (idx >= size) { continue; } // only aliases can come after the last sublattice
+
+        energies.at(idx) = sub.energy;
+        names.at(idx) = pair.first;
     }
     return {energies, names};
 }
-- 
2.43.0


From c5a7265d6a50880192c81873f69ed79b68687cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:13 +0000
Subject: [PATCH 11/19] fix: KPM Green's function indices must be smaller than
 the size of the Hamiltonian

---
 cppcore/src/KPM.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cppcore/src/KPM.cpp b/cppcore/src/KPM.cpp
index 9f32972..24c6420 100644
--- a/cppcore/src/KPM.cpp
+++ b/cppcore/src/KPM.cpp
@@ -102,7 +102,7 @@ ArrayXd KPM::calc_dos(ArrayXd const& energy, double broadening, idx_t num_random
 
 ArrayXcd KPM::calc_greens(idx_t row, idx_t col, ArrayXd const& energy, double broadening) const {
     auto const size = model.hamiltonian().rows();
-    if (row < 0 || row > size || col < 0 || col > size) {
+    if (row < 0 || row >= size || col < 0 || col >= size) {
         throw std::logic_error("KPM::calc_greens(i,j): invalid value for i or j.");
     }
 
@@ -115,9 +115,9 @@ ArrayXcd KPM::calc_greens(idx_t row, idx_t col, ArrayXd const& energy, double br
 std::vector<ArrayXcd> KPM::calc_greens_vector(idx_t row, std::vector<idx_t> const& cols,
                                               ArrayXd const& energy, double broadening) const {
     auto const size = model.hamiltonian().rows();
-    auto const row_error = row < 0 || row > size;
+    auto const row_error = row < 0 || row >= size;
     auto const col_error = std::any_of(cols.begin(), cols.end(),
-                                       [&](idx_t col) { return col < 0 || col > size; });
+                                       [&](idx_t col) { return col < 0 || col >= size; });
     if (row_error || col_error) {
         throw std::logic_error("KPM::calc_greens(i,j): invalid value for i or j.");
     }
-- 
2.43.0


From fc0a3c947f66545663b292a973811a7f7a02010b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:07 +0000
Subject: [PATCH 12/19] fix: KPM conductivity must reject a direction when
 either of its axes is invalid

---
 cppcore/src/KPM.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cppcore/src/KPM.cpp b/cppcore/src/KPM.cpp
index 24c6420..7a8aef8 100644
--- a/cppcore/src/KPM.cpp
+++ b/cppcore/src/KPM.cpp
@@ -131,8 +131,8 @@ std::vector<ArrayXcd> KPM::calc_greens_vector(idx_t row, std::vector<idx_t> cons
 ArrayXd KPM::calc_conductivity(ArrayXd const& chemical_potential, double broadening,
                                double temperature, string_view direction, idx_t num_random,
                                idx_t num_points) const {
-    auto const xyz = std::string("xyz");
-    if (direction.size() != 2 || xyz.find_first_of(direction) == std::string::npos) {
+    auto const axes = std::string(direction);
+    if (axes.size() != 2 || axes.find_first_not_of("xyz") != std::string::npos) {
         throw std::logic_error("Invalid direction: must be 'xx', 'xy', 'zz', or similar.");
     }
 
-- 
2.43.0


From 8cf49cead91c6a236609259942d4b63624be133a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:23 +0000
Subject: [PATCH 13/19] fix: site indices must not be used as matrix indices
 when any sublattice has several orbitals

Hoppings between single-orbital sites which come after multi-orbital ones
were placed at site indices instead of at Hamiltonian indices.
---
 cppcore/include/hamiltonian/HamiltonianModifiers.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cppcore/include/hamiltonian/HamiltonianModifiers.hpp b/cppcore/include/hamiltonian/HamiltonianModifiers.hpp
index e1aa06e..93389e8 100644
--- a/cppcore/include/hamiltonian/HamiltonianModifiers.hpp
+++ b/cppcore/include/hamiltonian/HamiltonianModifiers.hpp
@@ -240,7 +240,8 @@ void HamiltonianModifiers::apply_to_hoppings_impl(System const& system,
 
     // Fast path: Modifiers don't need to be applied and the single-orbital model
     // allows direct mapping between sites and Hamiltonian matrix elements.
-    if (hopping.empty() && !hopping_registry.has_multiple_orbitals()) {
+    if (hopping.empty() && !hopping_registry.has_multiple_orbitals()
+        && !system.site_registry.has_multiple_orbitals()) {
         for (auto const& block : system_or_boundary.hopping_blocks) {
             auto const energy = num::force_cast<scalar_t>(
                 hopping_registry.energy(block.family_id())
-- 
2.43.0


From ddbec1b7e24d399baa507d9fa819c6f39aac78b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:19 +0000
Subject: [PATCH 14/19] fix: count generated sites in the hopping blocks of the
 boundaries

---
 cppcore/src/system/StructureModifiers.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cppcore/src/system/StructureModifiers.cpp b/cppcore/src/system/StructureModifiers.cpp
index 48e49c5..06b1250 100644
--- a/cppcore/src/system/StructureModifiers.cpp
+++ b/cppcore/src/system/StructureModifiers.cpp
@@ -55,6 +55,7 @@ void apply(SiteGenerator const& g, System& s) {
     auto const nsites = new_positions.size();
     s.compressed_sublattices.add(s.site_registry.id(g.name), norb, nsites);
     s.hopping_blocks.add_sites(nsites);
+    for (auto& b : s.boundaries) { b.hopping_blocks.add_sites(nsites); }
     s.positions = concat(s.positions, new_positions);
 }
 
-- 
2.43.0


From 833890da6adfcfee475d13da72aa46c008773da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:19 +0000
Subject: [PATCH 15/19] fix: KPM: reordering the Hamiltonian of a disconnected
 system read past the end of the index queue

---
 cppcore/src/kpm/OptimizedHamiltonian.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/cppcore/src/kpm/OptimizedHamiltonian.cpp b/cppcore/src/kpm/OptimizedHamiltonian.cpp
index 6aa083a..769244d 100644
--- a/cppcore/src/kpm/OptimizedHamiltonian.cpp
+++ b/cppcore/src/kpm/OptimizedHamiltonian.cpp
@@ -107,6 +107,14 @@ void OptimizedHamiltonian::create_reordered(Indices const& idx, Scale<> s) {
     for (auto h2_row = 0; h2_row < system_size; ++h2_row) {
         auto diagonal_inserted = false;
 
+        // The connected part is done but there are other parts which are disconnected from it:
+        // continue with the first index which hasn't been mapped yet
+        if (h2_row == static_cast<idx_t>(index_queue.size())) {
+            auto const it = std::find(reorder_map.begin(), reorder_map.end(), -1);
+            *it = static_cast<storage_idx_t>(h2_row);
+            index_queue.push_back(static_cast<storage_idx_t>(it - reorder_map.begin()));
+        }
+
         // Loop over elements in the row of the original matrix
         // corresponding to the h2_row of the reordered matrix
         auto const row = index_queue[h2_row];
@@ -145,6 +153,9 @@ void OptimizedHamiltonian::create_reordered(Indices const& idx, Scale<> s) {
     optimized_matrix = h2.markAsRValue();
 
     slice_border_indices.pop_back(); // the last element is a duplicate of the second to last
+    if (slice_border_indices.back() != system_size) { // put all disconnected parts in one slice
+        slice_border_indices.push_back(static_cast<storage_idx_t>(system_size));
+    }
     slice_border_indices.shrink_to_fit();
 
     optimized_idx = reorder_indices(idx, reorder_map);
-- 
2.43.0


From a8c24779436a758af4e4bb05af36f0076597ef9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:53 +0000
Subject: [PATCH 16/19] fix: KPM: empty selections of sites were computed with
 invalid indices

---
 cppcore/src/KPM.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cppcore/src/KPM.cpp b/cppcore/src/KPM.cpp
index 7a8aef8..ebe2741 100644
--- a/cppcore/src/KPM.cpp
+++ b/cppcore/src/KPM.cpp
@@ -86,6 +86,9 @@ ArrayXXdCM KPM::calc_spatial_ldos(ArrayXd const& energy, double broadening, Shap
 
         return v;
     }();
+    if (indices.empty()) {
+        throw std::runtime_error("KPM::calc_spatial_ldos(): there are no sites inside the shape.");
+    }
 
     auto results = core.ldos(indices, energy, broadening);
     calculation_timer.toc();
@@ -118,7 +121,7 @@ std::vector<ArrayXcd> KPM::calc_greens_vector(idx_t row, std::vector<idx_t> cons
     auto const row_error = row < 0 || row >= size;
     auto const col_error = std::any_of(cols.begin(), cols.end(),
                                        [&](idx_t col) { return col < 0 || col >= size; });
-    if (row_error || col_error) {
+    if (row_error || col_error || cols.empty()) {
         throw std::logic_error("KPM::calc_greens(i,j): invalid value for i or j.");
     }
 
-- 
2.43.0


From 39c4f3e26b25077a9c6f68bd9c34bbd27c7a1952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:30 +0000
Subject: [PATCH 17/19] fix: System::find_nearest: a sublattice without sites
 returned a site of another one or an invalid index

---
 cppcore/src/system/System.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cppcore/src/system/System.cpp b/cppcore/src/system/System.cpp
index cfd3490..f479055 100644
--- a/cppcore/src/system/System.cpp
+++ b/cppcore/src/system/System.cpp
@@ -67,6 +67,9 @@ Range System::sublattice_range(string_view sublattice) const {
 
 idx_t System::find_nearest(Cartesian target_position, string_view sublattice_name) const {
     auto const range = sublattice_range(sublattice_name);
+    if (range.start == range.end) {
+        throw std::runtime_error("System::find_nearest(): there are no sites to choose from");
+    }
     auto nearest_index = range.start;
     auto min_distance = (positions[range.start] - target_position).norm();
 
-- 
2.43.0


From 2c39d50eef98f6bd3a884bf1d5ac143ba7681d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:12 +0000
Subject: [PATCH 18/19] fix: Registry: a negative family ID was used as an
 index instead of being rejected

---
 cppcore/src/system/Registry.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cppcore/src/system/Registry.cpp b/cppcore/src/system/Registry.cpp
index 7859e9f..af1efe4 100644
--- a/cppcore/src/system/Registry.cpp
+++ b/cppcore/src/system/Registry.cpp
@@ -61,7 +61,7 @@ NameMap Registry<ID>::name_map() const {
 template<class ID>
 string_view Registry<ID>::name(ID id) const {
     auto const index = id.value();
-    if (index >= size()) {
+    if (index < 0 || index >= size()) {
         throw std::out_of_range("There is no {} with ID = {}"_format(kind<ID>(), index));
     }
     return names[index];
@@ -70,7 +70,7 @@ string_view Registry<ID>::name(ID id) const {
 template<class ID>
 MatrixXcd const& Registry<ID>::energy(ID id) const {
     auto const index = id.value();
-    if (index >= size()) {
+    if (index < 0 || index >= size()) {
         throw std::out_of_range("There is no {} with ID = {}"_format(kind<ID>(), index));
     }
     return energies[index];
-- 
2.43.0


From e314fcb19803035f43f561062ccd488fe157d7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:56 +0000
Subject: [PATCH 19/19] fix: TranslationalSymmetry: keep hoppings that span
 several unit cells

With more than one unit cell per period, hoppings with a relative index
larger than one were missing at the boundary: only the outermost cell was
considered and the relative index was taken for the number of periods.
---
 cppcore/src/system/Symmetry.cpp | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/cppcore/src/system/Symmetry.cpp b/cppcore/src/system/Symmetry.cpp
index 5d3993c..a4abf11 100644
--- a/cppcore/src/system/Symmetry.cpp
+++ b/cppcore/src/system/Symmetry.cpp
@@ -1,5 +1,6 @@
 #include "system/Symmetry.hpp"
 #include "system/Foundation.hpp"
+#include <algorithm>
 
 namespace cpb {
 
@@ -45,6 +46,14 @@ std::vector<Translation> TranslationalSymmetry::translations(Foundation const& f
     auto const& lattice = foundation.get_lattice();
     auto const symmetry_area = area(foundation);
 
+    // the most unit cells that any hopping spans
+    auto reach = Index3D{1, 1, 1};
+    for (auto const& sublattice : lattice.optimized_unit_cell()) {
+        for (auto const& hopping : sublattice.hoppings) {
+            reach = reach.cwiseMax(hopping.relative_index.cwiseAbs());
+        }
+    }
+
     std::vector<Translation> translations;
     auto add_translation = [&](Index3D direction) {
         if (direction == Index3D::Zero()) {
@@ -60,10 +69,12 @@ std::vector<Translation> TranslationalSymmetry::translations(Foundation const& f
 
         auto boundary_slice = SliceIndex3D();
         for (auto n = 0, size = lattice.ndim(); n < size; ++n) {
+            auto const left = symmetry_area.left[n];
+            auto const right = symmetry_area.right[n];
             if (direction[n] > 0)
-                boundary_slice[n] = symmetry_area.left[n];
+                boundary_slice[n] = {left, std::min(left + reach[n], right + 1)};
             else if (direction[n] < 0)
-                boundary_slice[n] = symmetry_area.right[n];
+                boundary_slice[n] = {std::max(right + 1 - reach[n], left), right + 1};
         }
 
         auto const shift_index = direction.cwiseProduct(symmetry_area.middle);
@@ -80,8 +91,24 @@ std::vector<Translation> TranslationalSymmetry::translations(Foundation const& f
     auto const masks = detail::make_masks(enabled_directions, lattice.ndim());
     for (auto const& sublattice : lattice.optimized_unit_cell()) {
         for (auto const& hopping : sublattice.hoppings) {
+            // Depending on the site, a hopping which spans several unit cells
+            // crosses between `near` and `far` whole translation units
+            auto near = Index3D{0, 0, 0};
+            auto far = Index3D{0, 0, 0};
+            for (auto n = 0, size = lattice.ndim(); n < size; ++n) {
+                auto const span = hopping.relative_index[n];
+                auto const unit = symmetry_area.middle[n];
+                if (unit > 0) {
+                    near[n] = span / unit;
+                    far[n] = (span + (span > 0 ? unit - 1 : 1 - unit)) / unit;
+                }
+            }
+
+            for (auto const& mask : masks) {
+                add_translation(far.cwiseProduct(mask));
+            }
             for (auto const& mask : masks) {
-                add_translation(hopping.relative_index.cwiseProduct(mask));
+                add_translation(near + (far - near).cwiseProduct(mask));
             }
         }
     }
-- 
2.43.0

